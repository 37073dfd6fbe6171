//! The stand-in for rustfmt: this binary, started under that name. What it
//! does is in SIM_FMT: fields `key=value` joined by `;`.

use std::io::{Read, Write};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn pause() -> i32;
    fn _exit(code: i32) -> !;
}

/// What a stub formatter does.
#[derive(Clone, Debug)]
pub struct Fmt {
    /// Bytes written before anything is read (kept below a pipe's capacity).
    pub pre: usize,
    /// Bytes read before it stops reading; None: everything.
    pub read: Option<usize>,
    pub close_stdin: bool,
    pub sleep: u64,
    /// Bytes of complaint on standard error before anything is read.
    pub err: usize,
    /// Size of the filler in the answer.
    pub pad: usize,
    /// The answer: 0 the code, 1 nothing, 2 blanks, 3 bytes that are no
    /// text, 4 something short, 5 the code with other line ends.
    pub kind: usize,
    /// Bytes of the answer that are written; None: all.
    pub part: Option<usize>,
    pub exit: i32,
    /// Signal that ends it instead.
    pub sig: i32,
}

impl Default for Fmt {
    fn default() -> Self {
        Fmt {
            pre: 0,
            read: None,
            close_stdin: false,
            sleep: 0,
            err: 0,
            pad: 0,
            kind: 0,
            part: None,
            exit: 0,
            sig: 0,
        }
    }
}

impl Fmt {
    pub fn spec(&self) -> String {
        let mut s = format!(
            "pre={};close={};sleep={};err={};pad={};kind={};exit={};sig={}",
            self.pre, self.close_stdin as u8, self.sleep, self.err, self.pad, self.kind, self.exit, self.sig
        );
        if let Some(r) = self.read {
            s.push_str(&format!(";read={r}"));
        }
        if let Some(r) = self.part {
            s.push_str(&format!(";part={r}"));
        }
        s
    }
    fn parse(s: &str) -> Fmt {
        let mut f = Fmt::default();
        for kv in s.split(';') {
            let mut it = kv.splitn(2, '=');
            let k = it.next().unwrap_or("");
            let v: usize = it.next().and_then(|v| v.parse().ok()).unwrap_or(0);
            match k {
                "pre" => f.pre = v,
                "read" => f.read = Some(v),
                "close" => f.close_stdin = v != 0,
                "sleep" => f.sleep = v as u64,
                "err" => f.err = v,
                "pad" => f.pad = v,
                "kind" => f.kind = v,
                "part" => f.part = Some(v),
                "exit" => f.exit = v as i32,
                "sig" => f.sig = v as i32,
                _ => {}
            }
        }
        f
    }
    /// The answer to `code`, including what was written before reading.
    pub fn answer(&self, code: &[u8]) -> Vec<u8> {
        let mut v = vec![b'\n'; self.pre];
        match self.kind {
            1 => return v,
            2 => v.extend_from_slice(b" \n\t\n"),
            3 => v.extend((0..=255u8).rev()),
            4 => v.extend_from_slice(b"mod a {}"),
            _ => {
                v.extend_from_slice(format!("// formatted {}\n", code.len()).as_bytes());
                if self.kind == 5 {
                    for &b in code {
                        v.push(b);
                        if b == b'{' || b == b';' {
                            v.extend_from_slice(b"\r\n");
                        }
                    }
                    v.extend_from_slice(b"\xef\xbb\xbf\0\r\n");
                } else {
                    v.extend_from_slice(code);
                    v.push(b'\n');
                }
            }
        }
        v.extend(std::iter::repeat(b' ').take(self.pad));
        v
    }
}

pub fn main() -> ! {
    let f = Fmt::parse(&std::env::var("SIM_FMT").unwrap_or_default());
    let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1) };
    let mut inp = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(0) };
    if f.sleep > 0 {
        std::thread::sleep(std::time::Duration::from_millis(f.sleep));
    }
    let _ = out.write_all(&vec![b'\n'; f.pre]);
    if f.err > 0 {
        let mut err = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(2) };
        let line = b"error: left behind trailing whitespace\n";
        let text: Vec<u8> = line.iter().copied().cycle().take(f.err).collect();
        let _ = err.write_all(&text);
        std::mem::forget(err);
    }
    let mut code = vec![];
    match f.read {
        None => {
            let _ = inp.read_to_end(&mut code);
        }
        Some(n) => {
            code = vec![0; n];
            let mut got = 0;
            while got < n {
                match inp.read(&mut code[got..]) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => got += k,
                }
            }
            code.truncate(got);
        }
    }
    if let Ok(p) = std::env::var("SIM_FMT_LOG") {
        let _ = std::fs::write(p, &code);
    }
    if f.close_stdin {
        drop(inp);
    } else {
        std::mem::forget(inp);
    }
    let ans = &f.answer(&code)[f.pre..];
    let n = f.part.unwrap_or(ans.len()).min(ans.len());
    let _ = out.write_all(&ans[..n]);
    unsafe {
        if f.sig != 0 {
            // the Rust runtime has handlers of its own for some signals
            signal(f.sig, 0);
            kill(getpid(), f.sig);
            loop {
                pause();
            }
        }
        _exit(f.exit)
    }
}
