//! Byte sources and sinks whose every step is decided by the run's `Src`.

use simkit::{Ctx, Src};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

pub type Shared = Rc<RefCell<Src>>;

/// Lend the source of decisions to boxed streams while `f` runs.
pub fn lend<T>(src: &mut Src, f: impl FnOnce(&Shared) -> T) -> T {
    let moved = std::mem::replace(src, Src::from_choices(vec![]));
    let rc = Rc::new(RefCell::new(moved));
    let r = f(&rc);
    std::mem::swap(src, &mut *rc.borrow_mut());
    r
}

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::WriteZero,
];

/// What the streams of one compile did.
#[derive(Default)]
pub struct Log {
    pub faults: Vec<&'static str>,
    pub events: Vec<String>,
    pub read_failed: bool,
    pub write_failed: bool,
    /// Bytes the sink accepted.
    pub content: Vec<u8>,
    /// Bytes that are safe: accepted and flushed (or accepted, when the sink
    /// does not buffer).
    pub durable: usize,
    pub flushes: u64,
    pub bad: Option<String>,
    steps: u64,
}

impl Log {
    fn ev(&mut self, s: impl FnOnce() -> String) {
        self.steps += 1;
        if self.events.len() < 300 {
            let t = s();
            self.events.push(t);
        }
    }
    pub fn report(&self, ctx: &mut Ctx) {
        for f in &self.faults {
            ctx.fault(f);
        }
        ctx.steps += self.steps;
        for e in &self.events {
            ctx.ev(|| e.clone());
        }
    }
}

pub type LogRc = Rc<RefCell<Log>>;

pub struct Source {
    pub src: Shared,
    pub log: LogRc,
    pub data: Vec<u8>,
    pub pos: usize,
    /// 0: whole, 1: byte by byte, 2: small pieces, 3: large pieces
    pub mode: u64,
    pub interrupts: bool,
    /// Fail once when this offset is reached.
    pub fail_at: Option<usize>,
    pub calls: u64,
}

fn piece(src: &Shared, mode: u64, calls: u64, left: usize) -> usize {
    if left == 0 {
        return 0;
    }
    let n = match mode {
        0 => left,
        1 if calls < 400 => 1,
        2 if calls < 120 => 1 + src.borrow_mut().idx(9),
        3 if calls < 60 => 1 + src.borrow_mut().idx(5000),
        _ => left,
    };
    n.min(left)
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.calls < 200 && self.src.borrow_mut().chance(1, 4) {
            let mut l = self.log.borrow_mut();
            l.faults.push("read interrupted");
            l.ev(|| "read: interrupted".into());
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = piece(&self.src, self.mode, self.calls, self.data.len() - self.pos).min(buf.len());
        if let Some(f) = self.fail_at {
            if self.pos == f {
                self.fail_at = None;
                let k = *self.src.borrow_mut().pick(&KINDS);
                let mut l = self.log.borrow_mut();
                l.read_failed = true;
                l.faults.push("read error");
                let p = self.pos;
                l.ev(|| format!("read: error {k:?} at byte {p}"));
                return Err(k.into());
            }
            if self.pos + n > f {
                n = f - self.pos;
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        let mut l = self.log.borrow_mut();
        if self.pos < self.data.len() && n > 0 && n < buf.len() {
            if l.faults.last() != Some(&"short read") {
                l.faults.push("short read");
            }
        }
        l.ev(|| format!("read: {n} bytes"));
        Ok(n)
    }
}

pub struct Sink {
    pub src: Shared,
    pub log: LogRc,
    pub want: Vec<u8>,
    pub mode: u64,
    pub interrupts: bool,
    pub fail_at: Option<usize>,
    /// The failure is "no byte accepted" rather than an error.
    pub zero: bool,
    pub fail_flush: bool,
    /// Accepted bytes are lost unless flushed.
    pub buffering: bool,
    pub calls: u64,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.calls < 200 && self.src.borrow_mut().chance(1, 4) {
            let mut l = self.log.borrow_mut();
            l.faults.push("write interrupted");
            l.ev(|| "write: interrupted".into());
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = piece(&self.src, self.mode, self.calls, buf.len());
        let at = self.log.borrow().content.len();
        if let Some(f) = self.fail_at {
            if at == f {
                self.fail_at = None;
                let mut l = self.log.borrow_mut();
                l.write_failed = true;
                if self.zero {
                    l.faults.push("sink accepts nothing");
                    l.ev(|| format!("write: 0 bytes accepted at byte {at}"));
                    return Ok(0);
                }
                let k = *self.src.borrow_mut().pick(&KINDS);
                l.faults.push("write error");
                l.ev(|| format!("write: error {k:?} at byte {at}"));
                return Err(k.into());
            }
            if at < f && at + n > f {
                n = f - at;
            }
        }
        let mut l = self.log.borrow_mut();
        if n < buf.len() && l.faults.last() != Some(&"short write") {
            l.faults.push("short write");
        }
        l.content.extend_from_slice(&buf[..n]);
        if !self.buffering {
            l.durable = l.content.len();
        }
        l.ev(|| format!("write: {n} of {} bytes", buf.len()));
        if !self.want.is_empty() && !self.want.starts_with(&l.content) && l.bad.is_none() {
            let d = l.content.iter().zip(&self.want).take_while(|(a, b)| a == b).count();
            l.bad = Some(format!(
                "after {} accepted bytes the sink no longer holds a prefix of the code (differs from byte {d} on, code has {} bytes)",
                l.content.len(),
                self.want.len()
            ));
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut l = self.log.borrow_mut();
        l.flushes += 1;
        if self.fail_flush {
            self.fail_flush = false;
            l.write_failed = true;
            l.faults.push("flush error");
            let k = *self.src.borrow_mut().pick(&KINDS);
            l.ev(|| format!("flush: error {k:?}"));
            return Err(k.into());
        }
        l.durable = l.content.len();
        l.ev(|| "flush".into());
        Ok(())
    }
}

/// Draw a sink with the faults this run wants.
pub fn draw_sink(sh: &Shared, log: &LogRc, want: &[u8], allow_fail: bool) -> Sink {
    let mut s = sh.borrow_mut();
    let mode = s.weighted(&[3, 1, 2, 2]) as u64;
    let interrupts = s.chance(1, 3);
    let buffering = s.chance(1, 2);
    let (mut fail_at, mut zero, mut fail_flush) = (None, false, false);
    if allow_fail && s.chance(2, 5) {
        match s.below(4) {
            0 | 1 => fail_at = Some(offset(&mut s, want.len())),
            2 => {
                fail_at = Some(offset(&mut s, want.len()));
                zero = true;
            }
            _ => fail_flush = true,
        }
    }
    drop(s);
    Sink {
        src: sh.clone(),
        log: log.clone(),
        want: want.to_vec(),
        mode,
        interrupts,
        fail_at,
        zero,
        fail_flush,
        buffering,
        calls: 0,
    }
}

/// An offset in 0..=len with a liking for the ends and for powers of two.
pub fn offset(s: &mut Src, len: usize) -> usize {
    let p = match s.below(5) {
        0 => 0,
        1 => len.saturating_sub(1 + s.idx(4)),
        2 => 1usize << s.below(18),
        _ => s.idx(len + 1),
    };
    p.min(len)
}
