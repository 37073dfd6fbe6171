//! Seeded simulation kit: one source of decisions, a batch search over many
//! worker processes, minimisation, replay files and evidence.

pub mod coop;
pub mod driver;
pub mod json;
pub mod mem;
pub mod src;

pub use json::{obj, J};
pub use driver::slow_run;
pub use src::{keep_small, mix, small, Src};

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A broken property. `class` identifies the kind of failure (used to keep
/// minimisation on the same failure); `detail` says what was observed.
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        detail: detail.into(),
    })
}

pub type RunResult = Result<(), Violation>;

/// Everything a run reports. Nothing here feeds back into the run.
#[derive(Default)]
pub struct Ctx {
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub trace_file: Option<std::fs::File>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hash: u64,
    pub steps: u64,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new(trace_on: bool) -> Self {
        Ctx {
            trace_on,
            hash: 0xcbf2_9ce4_8422_2325,
            ..Default::default()
        }
    }
    /// A fault that actually fired.
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_insert(0) += 1;
        self.nontrivial = true;
        self.mark_str(k);
    }
    /// A rare condition that was actually reached.
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn mark(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3);
        self.hash ^= self.hash >> 29;
    }
    pub fn mark_str(&mut self, s: &str) {
        for b in s.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
    pub fn mark_bytes(&mut self, s: &[u8]) {
        for b in s {
            self.hash = (self.hash ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn ev(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on && self.trace.len() < 4000 {
            let s = f();
            if let Some(t) = &mut self.trace_file {
                use std::io::Write;
                let _ = t.write_all(format!("{s}\n").as_bytes());
            }
            self.trace.push(s);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are data here: remember them, print nothing.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
    }));
}

/// Call into the system under test; an unwinding panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Like `guard`, but an unexpected panic is a violation of class `class`.
pub fn sut<T>(class: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    guard(f).map_err(|m| Violation {
        class: format!("{class}:panic"),
        detail: format!("unexpected panic in {class}: {m}"),
    })
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i == 400 {
            s.push_str("...");
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}
