//! The single source of every decision in a simulated run.
//!
//! A run is a pure function of the sequence of values drawn here. In search
//! mode the values come from a PRNG initialised from one integer; in replay
//! mode they come from a recorded (usually minimised) list, with 0 -- always
//! the simplest choice -- once the list is exhausted.

static SMALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// From now on values stay small: for runs on interpreted hosts.
pub fn keep_small() {
    SMALL.store(true, std::sync::atomic::Ordering::SeqCst);
}
pub fn small() -> bool {
    SMALL.load(std::sync::atomic::Ordering::SeqCst)
}

pub struct Src {
    rng: Option<[u64; 4]>,
    replay: Vec<u64>,
    pos: usize,
    pub log: Vec<u64>,
    /// Mirror of `log`, for runs that may take the process down.
    sink: Option<std::fs::File>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Combine integers into one seed.
pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x1234_5678_9abc_def0u64;
    for &p in parts {
        s ^= p.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        splitmix(&mut s);
        s = s.rotate_left(23);
    }
    splitmix(&mut s)
}

impl Src {
    pub fn from_seed(seed: u64) -> Self {
        let mut s = seed;
        let rng = [
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ];
        Src {
            rng: Some(rng),
            replay: vec![],
            pos: 0,
            log: vec![],
            sink: None,
        }
    }
    pub fn from_choices(v: Vec<u64>) -> Self {
        Src {
            rng: None,
            replay: v,
            pos: 0,
            log: vec![],
            sink: None,
        }
    }
    /// Also append every draw to a file.
    pub fn mirror(&mut self, path: &str) {
        self.sink = std::fs::File::create(path).ok();
    }
    fn record(&mut self, v: u64) {
        self.log.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
    }
    fn next(&mut self) -> u64 {
        match self.rng {
            Some(ref mut s) => {
                let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                result
            }
            None => 0,
        }
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if self.rng.is_some() {
            if n <= 1 {
                0
            } else {
                ((self.next() as u128 * n as u128) >> 64) as u64
            }
        } else {
            let v = self.replay.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v.min(n.saturating_sub(1))
        };
        self.record(v);
        v
    }
    /// Any u64.
    pub fn u64(&mut self) -> u64 {
        let v = if self.rng.is_some() {
            self.next()
        } else {
            let v = self.replay.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v
        };
        self.record(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Index chosen with the given weights; the first entry is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, &x) in w.iter().enumerate() {
            if v < x as u64 {
                return i;
            }
            v -= x as u64;
        }
        0
    }
    /// A size with a long tail: mostly small, sometimes up to max.
    pub fn size(&mut self, max: u64) -> u64 {
        let max = if small() { max.min(12) } else { max };
        match self.below(8) {
            0..=4 => self.below(max.min(4) + 1),
            5 | 6 => self.below(max.min(20) + 1),
            _ => self.below(max + 1),
        }
    }
}
