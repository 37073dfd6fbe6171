//! C03, the runtime's part: every reader of the runtime over damaged bytes.

use crate::damage::damage;
use crate::prog::*;
use butte::*;
use simkit::{guard, hex, mem::Fence, violation, Ctx, RunResult, Src};
use std::cell::RefCell;

thread_local! {
    static ARENA: RefCell<(Fence, Fence)> = RefCell::new((Fence::new(64), Fence::new(64)));
}

struct Walk {
    lo: usize,
    hi: usize,
    out: Vec<String>,
    left: u32,
    bad: Option<String>,
}

impl Walk {
    fn say(&mut self, s: String) {
        if self.out.len() < 4000 {
            self.out.push(s);
        }
    }
    /// Said only where little-endian hosts are among themselves.
    #[cfg(target_endian = "little")]
    fn say_le(&mut self, s: String) {
        if !simkit::small() {
            self.say(s);
        }
    }
    fn inside(&mut self, p: *const u8, n: usize, what: &str) {
        let a = p as usize;
        if n > 0 && (a < self.lo || a + n > self.hi) {
            self.bad = Some(format!("{what} lies outside the buffer"));
        }
    }
    fn text(&mut self, w: &str, r: Result<Option<&str>, Error>) {
        if let Ok(Some(s)) = r {
            self.inside(s.as_ptr(), s.len(), "string");
            if std::str::from_utf8(s.as_bytes()).is_err() {
                self.bad = Some("string is not UTF-8".into());
                return;
            }
        }
        self.say(format!("{w} {r:?}"));
    }
    fn plain<'a, T: SafeSliceAccess + std::fmt::Debug + Follow<'a> + 'a>(&mut self, w: &str, v: Vector<'a, T>)
    where
        T::Inner: std::fmt::Debug,
    {
        self.vec(w, v, |x| format!("{x:?}"));
        match v.safe_slice() {
            Ok(s) => {
                self.inside(s.as_ptr() as *const u8, std::mem::size_of_val(s), "slice");
                if s.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
                    self.bad = Some("misaligned slice".into());
                    return;
                }
                if Ok(s.len()) != v.len() {
                    self.bad = Some("slice of another length than the vector".into());
                }
                // touch both ends
                let _ = format!("{:?} {:?}", s.first(), s.last());
            }
            Err(_) => {}
        }
    }
    /// As `plain`, for items that can be seen as a slice on little-endian hosts only.
    #[cfg(target_endian = "little")]
    fn plain_le<'a, T: SafeSliceAccess + std::fmt::Debug + Follow<'a> + 'a>(&mut self, w: &str, v: Vector<'a, T>)
    where
        T::Inner: std::fmt::Debug,
    {
        self.plain(w, v)
    }
    #[cfg(target_endian = "big")]
    fn plain_le<'a, T: Follow<'a> + 'a>(&mut self, w: &str, v: Vector<'a, T>)
    where
        T::Inner: std::fmt::Debug,
    {
        self.vec(w, v, |x| format!("{x:?}"))
    }
    fn vec<'a, T: Follow<'a> + 'a>(&mut self, w: &str, v: Vector<'a, T>, show: impl Fn(T::Inner) -> String) {
        let l = v.len();
        self.say(format!("{w} len {l:?} empty {:?}", v.is_empty()));
        let mut it = v.iter();
        self.say(format!("{w} iter {}", it.len()));
        for _ in 0..5 {
            let x = it.next().map(|r| r.map(|x| show(x)));
            self.say(format!("{w} next {x:?}"));
        }
        for _ in 0..3 {
            let x = it.next_back().map(|r| r.map(|x| show(x)));
            self.say(format!("{w} back {x:?}"));
        }
        let x = it.nth(3).map(|r| r.map(|x| show(x)));
        self.say(format!("{w} nth {x:?}"));
        if let Ok(n) = l {
            if n > 0 {
                for i in [0, n / 2, n - 1] {
                    let x = v.get(i).map(|x| show(x));
                    self.say(format!("{w} get({i}) {x:?}"));
                }
            }
        }
    }
    /// A slice directly: little-endian hosts only.
    #[cfg(target_endian = "little")]
    fn slices(&mut self, t: Table<&[u8]>, s: u16) {
        match t.get::<ForwardsUOffset<&[u32]>>(s, None) {
            Ok(Some(x)) => {
                self.inside(x.as_ptr() as *const u8, std::mem::size_of_val(x), "slice");
                if x.as_ptr() as usize % 4 != 0 {
                    self.bad = Some("misaligned slice".into());
                }
            }
            Ok(None) => self.say_le(format!("slot {s} slice none")),
            Err(_) => {}
        }
        match t.get::<ForwardsUOffset<&[u8]>>(s, None) {
            Ok(Some(x)) => {
                self.inside(x.as_ptr(), x.len(), "byte slice");
                self.say_le(format!("slot {s} bytes {}", x.len()));
            }
            r => self.say_le(format!("slot {s} bytes {r:?}")),
        }
    }
    fn table(&mut self, t: Table<&[u8]>, depth: u32) {
        if self.left == 0 || depth > 5 {
            return;
        }
        self.left -= 1;
        let vt = t.vtable();
        let n = match &vt {
            Err(e) => {
                self.say(format!("vtable {e:?}"));
                0
            }
            Ok(v) => {
                self.say(format!("vtable {:?} {:?} {:?} {:?}", v.num_fields(), v.num_bytes(), v.object_inline_num_bytes(), v.as_bytes()));
                if let Ok(b) = v.as_bytes() {
                    self.inside(b.as_ptr(), b.len(), "vtable bytes");
                }
                for i in 0..12usize {
                    self.say(format!("field {i} {:?}", v.get_field(i)));
                }
                self.say(format!("field far {:?}", v.get_field(70_000)));
                v.num_fields().unwrap_or(0)
            }
        };
        for i in 0..(n.min(9) + 2) as u16 {
            let s = slot(i);
            self.say(format!("slot {s} bool {:?}", t.get::<bool>(s, Some(true))));
            self.say(format!("slot {s} u8 {:?}", t.get::<u8>(s, Some(7))));
            self.say(format!("slot {s} i16 {:?}", t.get::<i16>(s, None)));
            self.say(format!("slot {s} u32 {:?}", t.get::<u32>(s, Some(9))));
            self.say(format!("slot {s} i64 {:?}", t.get::<i64>(s, Some(9))));
            self.say(format!("slot {s} f32 {:?}", t.get::<f32>(s, None).map(|x| x.map(f32::to_bits))));
            self.say(format!("slot {s} f64 {:?}", t.get::<f64>(s, None).map(|x| x.map(f64::to_bits))));
            let r = t.get::<ForwardsUOffset<&str>>(s, None);
            self.text(&format!("slot {s} str"), r);
            for k in 0..7 {
                let w = format!("slot {s} vec{k}");
                macro_rules! v {
                    ($t:ty) => {
                        match t.get::<ForwardsUOffset<Vector<'_, $t>>>(s, None) {
                            Ok(Some(v)) => self.vec(&w, v, |x| format!("{x:?}")),
                            r => self.say(format!("{w} {:?}", r.map(|_| ()))),
                        }
                    };
                    (nested $t:ty) => {
                        match t.get::<ForwardsUOffset<Vector<'_, $t>>>(s, None) {
                            Ok(Some(v)) => self.vec(&w, v, |v| format!("{:?} {:?}", v.len(), v.iter().next())),
                            r => self.say(format!("{w} {:?}", r.map(|_| ()))),
                        }
                    };
                    (plain $t:ty) => {
                        match t.get::<ForwardsUOffset<Vector<'_, $t>>>(s, None) {
                            Ok(Some(v)) => self.plain_le(&w, v),
                            r => self.say(format!("{w} {:?}", r.map(|_| ()))),
                        }
                    };
                }
                match k {
                    0 => match t.get::<ForwardsUOffset<Vector<'_, u8>>>(s, None) {
                        Ok(Some(v)) => self.plain(&w, v),
                        r => self.say(format!("{w} {:?}", r.map(|_| ()))),
                    },
                    1 => v!(plain u16),
                    2 => v!(plain i32),
                    3 => v!(plain u64),
                    4 => v!(bool),
                    5 => v!(ForwardsUOffset<&str>),
                    _ => v!(nested ForwardsUOffset<Vector<'_, u16>>),
                }
            }
            #[cfg(target_endian = "little")]
            self.slices(t, s);
            match t.get::<ForwardsUOffset<At>>(s, None) {
                Ok(Some(loc)) => self.table(Table::new(t.buf, loc), depth + 1),
                r => self.say(format!("slot {s} table {r:?}")),
            }
        }
    }
}

struct At;
impl<'a> Follow<'a> for At {
    type Inner = usize;
    fn follow(_b: &'a [u8], loc: usize) -> Result<usize, Error> {
        Ok(loc)
    }
}

fn walk(buf: &[u8]) -> (Vec<String>, Option<String>) {
    walk_part(buf, 5)
}

fn walk_part(buf: &[u8], left: u32) -> (Vec<String>, Option<String>) {
    let lo = buf.as_ptr() as usize;
    let mut w = Walk {
        lo,
        hi: lo + buf.len(),
        out: vec![],
        left,
        bad: None,
    };
    w.say(format!("id {:?} {:?}", buffer_has_identifier(buf, "ABCD", false), buffer_has_identifier(buf, "ABCD", true)));
    match get_root::<Table<&[u8]>, _>(buf) {
        Ok(t) => {
            w.say(format!("root {}", t.loc.min(buf.len())));
            w.table(t, 0);
        }
        Err(e) => w.say(format!("root {e:?}")),
    }
    w.left += left.min(2);
    match get_size_prefixed_root::<Table<&[u8]>, _>(buf) {
        Ok(t) => {
            w.say(format!("prefixed root {}", t.loc.min(buf.len())));
            w.table(t, 3);
        }
        Err(e) => w.say(format!("prefixed root {e:?}")),
    }
    w.say(format!("{:?}", Table::get_root(buf).map(|t| t.loc.min(buf.len()))));
    w.say(format!("{:?}", Table::get_size_prefixed_root(buf).map(|t| t.loc.min(buf.len()))));
    // scalars anywhere, also across the end
    let n = buf.len();
    for loc in [0, 1, n / 2, n.saturating_sub(8), n.saturating_sub(7), n.saturating_sub(1), n, n + 1, n + 100] {
        w.say(format!(
            "at {loc} {:?} {:?} {:?} {:?} {:?} {:?}",
            read_scalar_at::<u8>(buf, loc),
            read_scalar_at::<u16>(buf, loc),
            read_scalar_at::<i32>(buf, loc),
            read_scalar_at::<u64>(buf, loc),
            read_scalar_at::<f64>(buf, loc).map(f64::to_bits),
            <&str>::follow(buf, loc).map(|s| s.len())
        ));
        w.say(format!("back {:?}", <BackwardsSOffset<At>>::follow(buf, loc).map(|l| l.min(n))));
        w.say(format!("fwd {:?}", <ForwardsVOffset<At>>::follow(buf, loc).map(|l| l.min(n))));
        w.say(format!("skip {:?}", <SkipFileIdentifier<u32>>::follow(buf, loc)));
        w.say(format!("skip {:?}", <SkipSizePrefix<SkipRootOffset<FileIdentifier>>>::follow(buf, loc).map(|x| x.to_vec())));
    }
    w.say(format!("{:?}", read_scalar::<u32>(buf)));
    (w.out, w.bad)
}

/// What every host must see alike in damaged bytes.
/// For an interpreter: is there anything wrong?
pub fn strict(buf: &[u8], left: u32) -> Option<String> {
    walk_part(buf, left).1
}

/// A finished message of the runtime.
pub fn some_message(src: &mut Src) -> Result<Vec<u8>, simkit::Violation> {
    let p = gen_prog(src, &mut Pool::default(), 4);
    let mut b = FB::new();
    let mut offs = vec![];
    let r = guard(|| {
        for op in &p.ops {
            let o = exec(&mut b, op, &offs);
            offs.push(o);
        }
        finish(&mut b, &p.fin, &offs);
    });
    match r {
        Ok(()) => Ok(b.finished_data().to_vec()),
        Err(m) => violation("build:panic", m).map(|_: ()| vec![]),
    }
}

pub fn portable(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let mut made = vec![];
    for _ in 0..2 {
        let p = gen_prog(src, &mut Pool::default(), 4);
        let mut b = FB::new();
        let mut offs = vec![];
        let r = guard(|| {
            for op in &p.ops {
                let o = exec(&mut b, op, &offs);
                offs.push(o);
            }
            finish(&mut b, &p.fin, &offs);
        });
        if let Err(m) = r {
            return violation("build:panic", m);
        }
        made.push(b.finished_data().to_vec());
    }
    ctx.mark_bytes(&made[0]);
    let mut bytes = made[0].clone();
    for _ in 0..src.below(3) {
        bytes = damage(src, ctx, bytes, &made[1]);
    }
    ctx.mark_bytes(&bytes);
    ctx.step();
    let left = 1 + src.below(2) as u32;
    match guard(|| walk_part(&bytes, left)) {
        Ok((out, None)) => {
            for o in &out {
                ctx.ev(|| o.clone());
                ctx.mark_str(o);
            }
            Ok(())
        }
        Ok((_, Some(b))) => violation("runtime:contract", format!("{b}: {}", hex(&bytes))),
        Err(m) => violation("runtime:panic", format!("reading {} bytes: {m}: {}", bytes.len(), hex(&bytes))),
    }
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let mut made = vec![];
    for _ in 0..2 {
        let p = gen_prog(src, &mut Pool::default(), 7);
        let mut b = FB::new();
        let mut offs = vec![];
        let r = guard(|| {
            for op in &p.ops {
                let o = exec(&mut b, op, &offs);
                offs.push(o);
            }
            finish(&mut b, &p.fin, &offs);
        });
        if let Err(m) = r {
            return violation("build:panic", m);
        }
        made.push(b.finished_data().to_vec());
    }
    let mut bytes = made[0].clone();
    for _ in 0..1 + src.below(3) {
        bytes = damage(src, ctx, bytes, &made[1]);
    }
    bytes.truncate(60 * 4096);
    ctx.mark_bytes(&bytes);
    let shift = src.idx(16);
    ctx.ev(|| format!("walk {} bytes: {}", bytes.len(), hex(&bytes)));
    ctx.step();
    let mut seen: Vec<(&str, Vec<String>)> = vec![];
    ARENA.with(|a| -> RunResult {
        let mut a = a.borrow_mut();
        for w in 0..3 {
            let (name, buf) = match w {
                0 => ("end of memory", a.0.at_end(&bytes, 0)),
                1 => ("shifted", a.1.at_start(&bytes, shift, 0xff)),
                _ => ("start of memory", a.1.at_start(&bytes, 0, 0)),
            };
            let (out, bad) = match guard(|| walk(buf)) {
                Ok(x) => x,
                Err(m) => return violation("runtime:panic", format!("reading {} damaged bytes ({name}): {m}: {}", bytes.len(), hex(&bytes))),
            };
            if let Some(b) = bad {
                return violation("runtime:contract", format!("reading {} damaged bytes ({name}): {b}: {}", bytes.len(), hex(&bytes)));
            }
            seen.push((name, out));
        }
        Ok(())
    })?;
    for i in 1..seen.len() {
        if seen[i].1 != seen[0].1 {
            let d = seen[i].1.iter().zip(&seen[0].1).find(|(a, b)| a != b);
            return violation(
                "runtime:placement",
                format!("reading depends on the place of the buffer ({} / {}): {d:?}: {}", seen[i].0, seen[0].0, hex(&bytes)),
            );
        }
    }
    Ok(())
}
