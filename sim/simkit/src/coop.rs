//! Cooperative threads: real OS threads of which exactly one runs at a time.
//! A thread hands control back at every seam (an intercepted read, write or
//! flush); which thread continues is drawn from the run's `Src`.
//!
//! Where the code under test was compiled with a call at every basic block
//! (the wrapper `sim/rustc-blocks`), a thread can also be stopped after any
//! number of blocks, also drawn from the run's `Src`: see `run_fine`.

use crate::Src;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Running,
    Done,
    /// Running, but asleep away from any seam: blocked on something the
    /// simulator does not own, such as a lock that another thread holds.
    /// Another thread is scheduled meanwhile.
    Stuck,
}

struct Inner {
    st: Vec<St>,
    tid: Vec<i64>,
    /// Blocks each thread may run before it is stopped; negative: no limit.
    budget: Vec<i64>,
    /// Chosen, and not yet running.
    go: Vec<bool>,
    stops: u64,
    /// Stopped at a point, by `Fine::points`.
    at_point: Vec<bool>,
}

thread_local! {
    static BUDGET: Cell<i64> = const { Cell::new(-1) };
    static HERE: RefCell<Option<Seam>> = const { RefCell::new(None) };
    static RECORD: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}

/// One flag per block: 1 - stop here, 2 - seen while recording.
const MAX_BLOCKS: usize = 1 << 21;
static FLAGS: [AtomicU8; MAX_BLOCKS] = [const { AtomicU8::new(0) }; MAX_BLOCKS];

/// Called at every basic block of code compiled for it.
///
/// # Safety
/// `g` points to the block's number.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let _ = BUDGET.try_with(|b| {
        let v = b.get();
        if v < 0 {
            return;
        }
        let id = *g;
        let flag = FLAGS[id as usize & (MAX_BLOCKS - 1)].load(Ordering::Relaxed);
        if RECORD.with(|r| r.get()) {
            if flag & 2 == 0 {
                b.set(-1);
                FLAGS[id as usize & (MAX_BLOCKS - 1)].store(flag | 2, Ordering::Relaxed);
                SEEN.with(|s| s.borrow_mut().push(id));
                b.set(v);
            }
            return;
        }
        let point = flag & 1 != 0;
        if v > 0 && !point {
            b.set(v - 1);
            return;
        }
        b.set(-1);
        let s = HERE.try_with(|h| h.borrow().clone()).ok().flatten();
        if let Some(s) = s {
            s.stop(point);
        }
    });
}

/// # Safety
/// The numbers of all blocks lie between `a` and `e`.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, e: *mut u32) {
    static NEXT: AtomicU32 = AtomicU32::new(1);
    if a == e || *a != 0 {
        return;
    }
    let mut p = a;
    while p < e {
        *p = NEXT.fetch_add(1, Ordering::Relaxed);
        p = p.add(1);
    }
}

/// The blocks `f` runs through on this thread, in the order of their first
/// use; empty where nothing is compiled for it.
pub fn record<R>(f: impl FnOnce() -> R) -> (R, Vec<u32>) {
    RECORD.with(|r| r.set(true));
    BUDGET.with(|b| b.set(i64::MAX));
    let r = f();
    BUDGET.with(|b| b.set(-1));
    RECORD.with(|r| r.set(false));
    let v = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    for id in &v {
        FLAGS[*id as usize & (MAX_BLOCKS - 1)].fetch_and(!2, Ordering::Relaxed);
    }
    (r, v)
}

/// How threads are stopped between blocks.
#[derive(Clone, Default)]
pub struct Fine {
    /// How often in all.
    pub stops: u64,
    /// At most so many blocks apart; 0: only at the points.
    pub far: u64,
    /// Blocks to stop at whenever they are reached.
    pub points: Vec<u32>,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// Does the thread sleep in the kernel?
fn asleep(tid: i64) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')),
        Err(_) => false,
    }
}

struct Shared {
    m: Mutex<Inner>,
    cv: Condvar,
}

#[derive(Clone)]
pub struct Seam {
    sh: Arc<Shared>,
    id: usize,
}

impl Seam {
    /// Give control to the scheduler; returns when this thread is chosen.
    pub fn yield_now(&self) {
        BUDGET.with(|b| b.set(-1));
        let mut g = self.sh.m.lock().unwrap();
        g.st[self.id] = St::Ready;
        self.sh.cv.notify_all();
        while !g.go[self.id] {
            g = self.sh.cv.wait(g).unwrap();
        }
        g.go[self.id] = false;
        BUDGET.with(|b| b.set(g.budget[self.id]));
    }
    fn stop(&self, point: bool) {
        {
            let mut g = self.sh.m.lock().unwrap();
            g.stops += 1;
            g.at_point[self.id] = point;
        }
        self.yield_now();
    }
    fn wait_first(&self) {
        let mut g = self.sh.m.lock().unwrap();
        g.tid[self.id] = unsafe { syscall(186) };
        while !g.go[self.id] {
            g = self.sh.cv.wait(g).unwrap();
        }
        g.go[self.id] = false;
        HERE.with(|h| *h.borrow_mut() = Some(self.clone()));
        BUDGET.with(|b| b.set(g.budget[self.id]));
    }
    fn done(&self) {
        BUDGET.with(|b| b.set(-1));
        let mut g = self.sh.m.lock().unwrap();
        g.st[self.id] = St::Done;
        self.sh.cv.notify_all();
    }
}

pub type Job<T> = Box<dyn FnOnce(Seam) -> T + Send>;

/// Run the jobs to completion under a seeded schedule. Returns results in job
/// order and the schedule (which job ran at each step).
pub fn run<T: Send + 'static>(src: &mut Src, jobs: Vec<Job<T>>) -> (Vec<std::thread::Result<T>>, Vec<usize>) {
    let (r, s, _) = run_fine(src, jobs, None);
    (r, s)
}

/// As `run`; with `fine`, threads are also stopped between basic blocks. Also
/// returns how often that happened.
pub fn run_fine<T: Send + 'static>(
    src: &mut Src,
    jobs: Vec<Job<T>>,
    fine: Option<Fine>,
) -> (Vec<std::thread::Result<T>>, Vec<usize>, u64) {
    let n = jobs.len();
    let sh = Arc::new(Shared {
        m: Mutex::new(Inner {
            st: vec![St::Ready; n],
            tid: vec![0; n],
            budget: vec![-1; n],
            go: vec![false; n],
            stops: 0,
            at_point: vec![false; n],
        }),
        cv: Condvar::new(),
    });
    let mut handles = vec![];
    for (id, job) in jobs.into_iter().enumerate() {
        let seam = Seam {
            sh: sh.clone(),
            id,
        };
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    struct D(Seam);
                    impl Drop for D {
                        fn drop(&mut self) {
                            self.0.done();
                        }
                    }
                    let d = D(seam.clone());
                    seam.wait_first();
                    let r = job(seam);
                    drop(d);
                    r
                })
                .expect("spawn"),
        );
    }
    let mut schedule = vec![];
    // some runs switch at every seam, others let a job run on for a while
    let stay = src.below(4);
    let mut held = vec![false; n];
    if let Some(f) = &fine {
        for p in &f.points {
            FLAGS[*p as usize & (MAX_BLOCKS - 1)].store(1, Ordering::Relaxed);
        }
    }
    let mut last: Option<usize> = None;
    loop {
        let mut g = sh.m.lock().unwrap();
        let ready: Vec<usize> = (0..n).filter(|&i| g.st[i] == St::Ready).collect();
        if ready.is_empty() {
            if g.st.iter().all(|s| *s == St::Done) {
                break;
            }
            // only stuck threads left: wait for one to move
            let _ = sh.cv.wait_timeout(g, Duration::from_millis(5)).unwrap();
            continue;
        }
        // a thread stopped at a point may have to wait for a long while
        for &i in &ready {
            if g.at_point[i] {
                g.at_point[i] = false;
                if src.chance(1, 2) {
                    held[i] = true;
                }
            } else if held[i] && src.chance(1, 16) {
                held[i] = false;
            }
        }
        let free: Vec<usize> = ready.iter().copied().filter(|&i| !held[i]).collect();
        let ready = if free.is_empty() { ready } else { free };
        let pick = match last {
            Some(l) if ready.contains(&l) && stay > 0 && src.below(stay + 1) != 0 => l,
            _ => ready[src.idx(ready.len())],
        };
        last = Some(pick);
        schedule.push(pick);
        held[pick] = false;
        g.budget[pick] = match &fine {
            Some(f) if g.stops < f.stops => {
                if f.far == 0 {
                    i64::MAX
                } else {
                    // short and long stretches alike
                    let bits = 64 - f.far.leading_zeros() as u64;
                    let k = src.below(bits + 1);
                    let top = if k >= 63 { f.far } else { (1u64 << k).min(f.far) };
                    src.below(top.max(1)) as i64
                }
            }
            _ => -1,
        };
        g.st[pick] = St::Running;
        g.go[pick] = true;
        sh.cv.notify_all();
        // until it and every thread that was stuck is at a seam or asleep
        let mut calm = 0;
        while (0..n).any(|i| g.st[i] == St::Running || g.st[i] == St::Stuck) {
            let busy: Vec<usize> = (0..n).filter(|&i| matches!(g.st[i], St::Running | St::Stuck)).collect();
            let (g2, t) = sh.cv.wait_timeout(g, Duration::from_millis(2)).unwrap();
            g = g2;
            if !t.timed_out() || busy.iter().any(|&i| g.go[i] || !asleep(g.tid[i])) {
                calm = 0;
                continue;
            }
            calm += 1;
            if calm >= 3 {
                for i in busy {
                    if g.st[i] == St::Running {
                        g.st[i] = St::Stuck;
                    }
                }
                break;
            }
        }
    }
    if let Some(f) = &fine {
        for p in &f.points {
            FLAGS[*p as usize & (MAX_BLOCKS - 1)].store(0, Ordering::Relaxed);
        }
    }
    let stops = sh.m.lock().unwrap().stops;
    let res = handles.into_iter().map(|h| h.join()).collect();
    (res, schedule, stops)
}
