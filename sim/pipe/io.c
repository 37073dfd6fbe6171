/* File system seam: loaded into the compiler's process, decides the outcome
 * of calls on the files under SIM_IO_DIR and on standard input and output.
 *
 * SIM_IO: actions joined by ','. Each is CLASS INDEX ':' ACTION, where CLASS
 * is o (open), r (read) or w (write) and INDEX counts the calls of that class
 * from 0:
 *   S<n>  at most n bytes           I     fails with EINTR
 *   E<n>  fails with errno n        K     the process is killed before it
 *   P<n>  n bytes are done, then the process is killed
 * After the listed calls everything works. SIM_IO_LOG names a file that gets
 * a line per action that took effect. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXACT 512
static struct act { char cls; long idx; char kind; long arg; } acts[MAXACT];
static int nacts, active, logfd = -1;
static char dir[4096];
static unsigned char tracked[1024];
static long count_o, count_r, count_w;

__attribute__((constructor)) static void init(void) {
    char *p = getenv("SIM_IO"), *d = getenv("SIM_IO_DIR"), *l = getenv("SIM_IO_LOG");
    unsetenv("LD_PRELOAD");
    if (!p || !d || !l) return;
    strncpy(dir, d, sizeof dir - 1);
    logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 900);
    if (hi >= 0) { close(logfd); logfd = hi; }
    while (*p && nacts < MAXACT) {
        struct act *a = &acts[nacts];
        a->cls = *p++;
        a->idx = strtol(p, &p, 10);
        if (*p == ':') p++;
        a->kind = *p++;
        a->arg = strtol(p, &p, 10);
        nacts++;
        if (*p == ',') p++;
    }
    tracked[0] = tracked[1] = 1;
    active = 1;
    unsetenv("SIM_IO");
}

static struct act *next(char cls) {
    long *c = cls == 'o' ? &count_o : cls == 'r' ? &count_r : &count_w;
    long i = (*c)++;
    for (int k = 0; k < nacts; k++)
        if (acts[k].cls == cls && acts[k].idx == i) return &acts[k];
    return 0;
}
static void note(struct act *a) {
    char b[64];
    int n = snprintf(b, sizeof b, "%c%ld:%c%ld\n", a->cls, a->idx, a->kind, a->arg);
    if (syscall(SYS_write, logfd, b, n) < 0) {}
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

static int do_open(int at, const char *path, int flags, mode_t mode) {
    int ours = active && path && !strncmp(path, dir, strlen(dir));
    if (ours) {
        struct act *a = next('o');
        if (a && (a->kind == 'E' || a->kind == 'I')) { note(a); errno = a->kind == 'I' ? EINTR : (int)a->arg; return -1; }
        if (a && a->kind == 'K') { note(a); die(); }
    }
    int fd = syscall(SYS_openat, at, path, flags, mode);
    if (fd >= 0 && fd < 1024) tracked[fd] = ours;
    return fd;
}
#define MODE(f) mode_t m = 0; if ((f) & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, f); m = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int f, ...) { MODE(f) return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE(f) return do_open(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE(f) return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE(f) return do_open(d, p, f, m); }

static int ours(int fd) { return active && fd >= 0 && fd < 1024 && tracked[fd]; }
int close(int fd) {
    if (fd > 2 && fd < 1024) tracked[fd] = 0;
    return syscall(SYS_close, fd);
}
ssize_t read(int fd, void *b, size_t n) {
    if (ours(fd) && n > 0) {
        struct act *a = next('r');
        if (a) switch (a->kind) {
            case 'I': note(a); errno = EINTR; return -1;
            case 'E': note(a); errno = (int)a->arg; return -1;
            case 'K': note(a); die();
            case 'S': if ((size_t)a->arg < n) { note(a); n = a->arg ? a->arg : 1; } break;
        }
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!ours(fd) || c <= 0) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (ours(fd) && fd != 0 && n > 0) {
        struct act *a = next('w');
        if (a) switch (a->kind) {
            case 'I': note(a); errno = EINTR; return -1;
            case 'E': note(a); errno = (int)a->arg; return -1;
            case 'K': note(a); die();
            case 'P':
                note(a);
                if ((size_t)a->arg < n) n = a->arg;
                if (n && syscall(SYS_write, fd, b, n) < 0) {}
                die();
            case 'S': if ((size_t)a->arg < n) { note(a); n = a->arg ? a->arg : 1; } break;
        }
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!ours(fd) || c <= 0) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
