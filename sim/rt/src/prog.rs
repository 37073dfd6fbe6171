//! Random builder programs: what is done to a `FlatBufferBuilder`, as data.

use butte::{FlatBufferBuilder, Push, SafeSliceAccess, WIPOffset};
use simkit::{guard, Src};

pub type FB = FlatBufferBuilder<'static>;

/// A scalar: its type and its bits.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Sc {
    pub kind: u8,
    pub bits: u64,
}

pub const KINDS: u8 = 11;

impl Sc {
    pub fn size(self) -> usize {
        size_of_kind(self.kind)
    }
    pub fn bytes(self) -> Vec<u8> {
        self.bits.to_le_bytes()[..self.size()].to_vec()
    }
}

pub fn size_of_kind(k: u8) -> usize {
    [1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8][k as usize]
}

pub fn gen_sc(src: &mut Src, kind: u8) -> Sc {
    let sz = size_of_kind(kind);
    let bits = if kind == 0 {
        src.below(2)
    } else {
        match src.below(4) {
            0 => 0,
            1 => src.below(256),
            2 => u64::MAX,
            _ => src.u64(),
        }
    };
    let bits = if sz == 8 { bits } else { bits & ((1u64 << (8 * sz)) - 1) };
    Sc { kind, bits }
}

/// Bind `$x` to the value as its Rust type.
#[macro_export]
macro_rules! with_sc {
    ($s:expr, $x:ident, $e:expr) => {{
        let s = $s;
        match s.kind {
            0 => { let $x = s.bits != 0; $e }
            1 => { let $x = s.bits as u8; $e }
            2 => { let $x = s.bits as i8; $e }
            3 => { let $x = s.bits as u16; $e }
            4 => { let $x = s.bits as i16; $e }
            5 => { let $x = s.bits as u32; $e }
            6 => { let $x = s.bits as i32; $e }
            7 => { let $x = s.bits; $e }
            8 => { let $x = s.bits as i64; $e }
            9 => { let $x = f32::from_bits(s.bits as u32); $e }
            _ => { let $x = f64::from_bits(s.bits); $e }
        }
    }};
}

macro_rules! structs {
    ($(($n:ident, $a:literal, $s:literal)),*) => {
        $(
            #[derive(Clone, Copy, PartialEq, Debug)]
            #[repr(C, align($a))]
            pub struct $n(pub [u8; $s]);
            impl Push for $n {
                type Output = $n;
                fn push(&self, dst: &mut [u8], _rest: &[u8]) {
                    dst.copy_from_slice(&self.0);
                }
            }
            impl SafeSliceAccess for $n {}
        )*
    };
}
structs!((S1, 1, 3), (S2, 2, 6), (S4, 4, 12), (S8, 8, 24), (S16, 16, 16));
pub const STRUCTS: [(usize, usize); 5] = [(1, 3), (2, 6), (4, 12), (8, 24), (16, 16)];

/// A struct of kind `k` filled from `seed`.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct St {
    pub k: u8,
    pub seed: u8,
}
impl St {
    pub fn bytes(self) -> Vec<u8> {
        (0..STRUCTS[self.k as usize].1).map(|i| self.seed.wrapping_add(i as u8).max(1)).collect()
    }
}
fn arr<const N: usize>(s: St) -> [u8; N] {
    let mut a = [0u8; N];
    a.copy_from_slice(&s.bytes());
    a
}
macro_rules! with_st {
    ($s:expr, $x:ident, $e:expr) => {{
        let s = $s;
        match s.k {
            0 => { let $x = S1(arr(s)); $e }
            1 => { let $x = S2(arr(s)); $e }
            2 => { let $x = S4(arr(s)); $e }
            3 => { let $x = S8(arr(s)); $e }
            _ => { let $x = S16(arr(s)); $e }
        }
    }};
}

#[derive(Clone, PartialEq, Debug)]
pub enum Field {
    /// With a default: left out when equal to it.
    Sc(Sc, Option<Sc>),
    St(St),
    Off(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Str(String),
    Bytes(Vec<u8>),
    VStr(Vec<String>),
    VSc(u8, Vec<Sc>, u8),
    VSt(u8, Vec<St>, u8),
    VOff(Vec<usize>, u8),
    /// Fields in the order they are pushed: (index, field).
    Tab(Vec<(u16, Field)>),
    Raw(Sc),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Fin {
    pub root: usize,
    pub prefixed: bool,
    pub ident: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub ops: Vec<Op>,
    pub fin: Fin,
}

pub fn slot(i: u16) -> u16 {
    4 + 2 * i
}

fn gen_text(src: &mut Src) -> String {
    let n = src.size(70);
    (0..n)
        .map(|_| match src.below(10) {
            0 => '\u{20ac}',
            1 => '\u{0}',
            k => (b'a' + k as u8) as char,
        })
        .collect()
}

fn gen_fields(src: &mut Src, refs: &[usize]) -> Vec<(u16, Field)> {
    let n = src.size(24) as usize;
    let mut idx: Vec<u16> = (0..n as u16).collect();
    if src.chance(1, 2) {
        // gaps
        for (i, x) in idx.iter_mut().enumerate() {
            *x = i as u16 * 2 + src.below(2) as u16;
        }
    }
    if src.chance(1, 20) && n > 0 {
        idx[n - 1] = 500 + src.below(1500) as u16;
    }
    if src.chance(1, 2) {
        for i in (1..n).rev() {
            let j = src.idx(i + 1);
            idx.swap(i, j);
        }
    }
    // some tables look alike, so that vtables coincide
    let uniform = src.chance(1, 3);
    let k0 = src.below(KINDS as u64) as u8;
    idx.into_iter()
        .map(|i| {
            let f = match src.weighted(&[6, 2, if refs.is_empty() { 0 } else { 4 }]) {
                0 => {
                    let k = if uniform { k0 } else { src.below(KINDS as u64) as u8 };
                    let v = gen_sc(src, k);
                    let d = match src.below(4) {
                        0 | 1 => None,
                        2 => Some(Sc { kind: k, bits: 0 }),
                        _ => Some(v),
                    };
                    Field::Sc(v, d)
                }
                1 => Field::St(St {
                    k: src.below(5) as u8,
                    seed: src.below(255) as u8,
                }),
                _ => Field::Off(*src.pick(refs)),
            };
            (i, f)
        })
        .collect()
}

/// Values written before in this run: real messages repeat themselves, and so
/// may a builder that remembers what it wrote.
#[derive(Default)]
pub struct Pool(Vec<Op>);

impl Pool {
    fn keep(&mut self, op: &Op) {
        let free = match op {
            Op::Tab(fs) => fs.iter().all(|(_, f)| !matches!(f, Field::Off(_))),
            Op::VOff(..) | Op::Raw(_) => false,
            _ => true,
        };
        if free && self.0.len() < 40 {
            self.0.push(op.clone());
        }
    }
}

/// The same layout with other values.
fn same_shape(src: &mut Src, op: &Op) -> Op {
    match op {
        Op::Tab(fs) => Op::Tab(
            fs.iter()
                .map(|(i, f)| {
                    let g = match f {
                        Field::Sc(v, None) => Field::Sc(gen_sc(src, v.kind), None),
                        Field::St(s) => Field::St(St { k: s.k, seed: src.below(255) as u8 }),
                        other => other.clone(),
                    };
                    (*i, g)
                })
                .collect(),
        ),
        o => o.clone(),
    }
}

/// A message of many small tables in many layouts, each of which comes back
/// now and then.
fn gen_many_layouts(src: &mut Src) -> Vec<Op> {
    let n = 8 + src.size(120) as usize;
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let op = if !ops.is_empty() && src.chance(1, 3) {
            let t = src.idx(ops.len());
            let t = if src.chance(1, 3) { t / 4 } else { t };
            same_shape(src, &ops[t].clone())
        } else {
            let k = src.below(KINDS as u64) as u8;
            let set = src.below(64) as u16;
            let base = if src.chance(1, 4) { src.below(40) as u16 } else { 0 };
            let v = (0..6u16).filter(|b| set >> b & 1 == 1).map(|b| {
                let i = base + b;
                (i, Sc { kind: k, bits: 1 })
            });
            Op::Tab(v.map(|(i, s)| (i, Field::Sc(s, None))).collect())
        };
        ops.push(op);
    }
    ops
}

fn gen_fin(src: &mut Src, root: usize) -> Fin {
    Fin {
        root,
        prefixed: src.chance(1, 3),
        ident: match src.below(3) {
            0 => None,
            1 => Some("ABCD".into()),
            _ => Some("x\u{e9}1".into()),
        },
    }
}

pub fn gen_prog(src: &mut Src, pool: &mut Pool, max_ops: u64) -> Prog {
    if src.chance(1, 40) {
        let ops = gen_many_layouts(src);
        let root = src.idx(ops.len());
        return Prog { fin: gen_fin(src, root), ops };
    }
    let n = 1 + src.below(max_ops);
    let mut ops: Vec<Op> = vec![];
    let mut refs: Vec<usize> = vec![];
    let mut tabs: Vec<usize> = vec![];
    for i in 0..n as usize {
        let last = i + 1 == n as usize && tabs.is_empty();
        let w = if last { 6 } else { src.weighted(&[3, 1, 1, 3, 2, 2, 6, 1]) };
        let again = if last || pool.0.is_empty() || !src.chance(1, 6) {
            None
        } else if src.chance(1, 2) {
            pool.0.last().cloned()
        } else {
            Some(pool.0[src.idx(pool.0.len())].clone())
        };
        let op = match w {
            _ if again.is_some() => again.unwrap(),
            0 => Op::Str(gen_text(src)),
            1 if src.chance(1, 24) && !simkit::small() => {
                // larger than most buffers so far
                let n = (1usize << (8 + src.below(10))) + src.idx(40);
                let x = src.below(255) as u8;
                Op::Bytes((0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(x) | 1).collect())
            }
            1 => Op::Bytes((0..src.size(40)).map(|_| src.below(256) as u8).collect()),
            2 => Op::VStr((0..src.size(20)).map(|_| gen_text(src)).collect()),
            3 => {
                let k = src.below(KINDS as u64) as u8;
                Op::VSc(k, (0..src.size(60)).map(|_| gen_sc(src, k)).collect(), src.below(3) as u8)
            }
            4 => {
                let k = src.below(5) as u8;
                let v = (0..src.size(12)).map(|_| St { k, seed: src.below(255) as u8 }).collect();
                Op::VSt(k, v, src.below(3) as u8)
            }
            5 => {
                let v = if refs.is_empty() {
                    vec![]
                } else {
                    (0..src.size(10)).map(|_| *src.pick(&refs)).collect()
                };
                Op::VOff(v, src.below(2) as u8)
            }
            6 => {
                if !tabs.is_empty() && src.chance(1, 4) {
                    // the same shape again
                    let t = *src.pick(&tabs);
                    if src.chance(1, 2) {
                        same_shape(src, &ops[t].clone())
                    } else {
                        ops[t].clone()
                    }
                } else {
                    Op::Tab(gen_fields(src, &refs))
                }
            }
            _ => {
                let k = src.below(KINDS as u64) as u8;
                Op::Raw(gen_sc(src, k))
            }
        };
        pool.keep(&op);
        match op {
            Op::Tab(_) => {
                tabs.push(i);
                refs.push(i);
            }
            Op::Raw(_) => {}
            _ => refs.push(i),
        }
        ops.push(op);
    }
    let root = *src.pick(&tabs);
    Prog {
        ops,
        fin: gen_fin(src, root),
    }
}

fn push_field(b: &mut FB, i: u16, f: &Field, offs: &[u32]) {
    match f {
        Field::Sc(v, None) => with_sc!(*v, x, b.push_slot_always(slot(i), x)),
        Field::Sc(v, Some(d)) => match v.kind {
            0 => b.push_slot(slot(i), v.bits != 0, d.bits != 0),
            1 => b.push_slot(slot(i), v.bits as u8, d.bits as u8),
            2 => b.push_slot(slot(i), v.bits as i8, d.bits as i8),
            3 => b.push_slot(slot(i), v.bits as u16, d.bits as u16),
            4 => b.push_slot(slot(i), v.bits as i16, d.bits as i16),
            5 => b.push_slot(slot(i), v.bits as u32, d.bits as u32),
            6 => b.push_slot(slot(i), v.bits as i32, d.bits as i32),
            7 => b.push_slot(slot(i), v.bits, d.bits),
            8 => b.push_slot(slot(i), v.bits as i64, d.bits as i64),
            9 => b.push_slot(slot(i), f32::from_bits(v.bits as u32), f32::from_bits(d.bits as u32)),
            _ => b.push_slot(slot(i), f64::from_bits(v.bits), f64::from_bits(d.bits)),
        },
        Field::St(s) => with_st!(*s, x, b.push_slot_always(slot(i), x)),
        Field::Off(h) => b.push_slot_always(slot(i), WIPOffset::<()>::new(offs[*h])),
    }
}

/// Is the field in the table after all?
pub fn stored(f: &Field) -> bool {
    match f {
        Field::Sc(v, Some(d)) => match v.kind {
            9 => f32::from_bits(v.bits as u32) != f32::from_bits(d.bits as u32),
            10 => f64::from_bits(v.bits) != f64::from_bits(d.bits),
            _ => v.bits != d.bits,
        },
        _ => true,
    }
}

fn vec_of<T: Push<Output = T> + Copy + 'static>(b: &mut FB, xs: &[T], how: u8) -> u32 {
    if how == 0 {
        b.create_vector(xs).value()
    } else {
        b.start_vector::<T>(xs.len());
        for x in xs.iter().rev() {
            b.push(*x);
        }
        b.end_vector::<T>(xs.len()).value()
    }
}
/// As `vec_any`, for items that are copied directly on little-endian hosts only.
#[cfg(target_endian = "big")]
fn vec_le<T: Push<Output = T> + Copy + 'static>(b: &mut FB, xs: &[T], how: u8) -> u32 {
    if how == 2 {
        // refused in an unfinished builder, as the direct copy is
        let mut c = b.clone();
        c.start_table();
    }
    vec_of(b, xs, if how == 2 { 0 } else { how })
}
#[cfg(target_endian = "little")]
use vec_any as vec_le;
fn vec_any<T: Push<Output = T> + SafeSliceAccess + Copy + 'static>(b: &mut FB, xs: &[T], how: u8) -> u32 {
    if how == 2 {
        b.create_vector_direct(xs).value()
    } else {
        vec_of(b, xs, how)
    }
}

pub fn exec(b: &mut FB, op: &Op, offs: &[u32]) -> u32 {
    match op {
        Op::Str(s) => b.create_string(s).value(),
        Op::Bytes(s) => b.create_byte_string(s).value(),
        Op::VStr(v) => {
            let r: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            b.create_vector_of_strings(&r).value()
        }
        Op::VSc(k, v, how) => match k {
            0 => vec_of(b, &v.iter().map(|s| s.bits != 0).collect::<Vec<_>>(), *how),
            1 => vec_any(b, &v.iter().map(|s| s.bits as u8).collect::<Vec<_>>(), *how),
            2 => vec_any(b, &v.iter().map(|s| s.bits as i8).collect::<Vec<_>>(), *how),
            3 => vec_le(b, &v.iter().map(|s| s.bits as u16).collect::<Vec<_>>(), *how),
            4 => vec_le(b, &v.iter().map(|s| s.bits as i16).collect::<Vec<_>>(), *how),
            5 => vec_le(b, &v.iter().map(|s| s.bits as u32).collect::<Vec<_>>(), *how),
            6 => vec_le(b, &v.iter().map(|s| s.bits as i32).collect::<Vec<_>>(), *how),
            7 => vec_le(b, &v.iter().map(|s| s.bits).collect::<Vec<_>>(), *how),
            8 => vec_le(b, &v.iter().map(|s| s.bits as i64).collect::<Vec<_>>(), *how),
            9 => vec_le(b, &v.iter().map(|s| f32::from_bits(s.bits as u32)).collect::<Vec<_>>(), *how),
            _ => vec_le(b, &v.iter().map(|s| f64::from_bits(s.bits)).collect::<Vec<_>>(), *how),
        },
        Op::VSt(k, v, how) => match k {
            0 => vec_any(b, &v.iter().map(|s| S1(arr(*s))).collect::<Vec<_>>(), *how),
            1 => vec_any(b, &v.iter().map(|s| S2(arr(*s))).collect::<Vec<_>>(), *how),
            2 => vec_any(b, &v.iter().map(|s| S4(arr(*s))).collect::<Vec<_>>(), *how),
            3 => vec_any(b, &v.iter().map(|s| S8(arr(*s))).collect::<Vec<_>>(), *how),
            _ => vec_any(b, &v.iter().map(|s| S16(arr(*s))).collect::<Vec<_>>(), *how),
        },
        Op::VOff(v, how) => {
            let items: Vec<WIPOffset<()>> = v.iter().map(|h| WIPOffset::new(offs[*h])).collect();
            if *how == 0 {
                b.create_vector(&items).value()
            } else {
                b.start_vector::<WIPOffset<()>>(items.len());
                for x in items.iter().rev() {
                    b.push(*x);
                }
                b.end_vector::<WIPOffset<()>>(items.len()).value()
            }
        }
        Op::Tab(fs) => {
            let t = b.start_table();
            for (i, f) in fs {
                push_field(b, *i, f, offs);
            }
            let o = b.end_table(t);
            if let Some((i, _)) = fs.iter().find(|(_, f)| stored(f)) {
                b.required(o, slot(*i), "a stored field");
            }
            o.value()
        }
        Op::Raw(s) => with_sc!(*s, x, b.push(x).value()),
    }
}

pub fn finish(b: &mut FB, f: &Fin, offs: &[u32]) {
    let root = WIPOffset::<()>::new(offs[f.root]);
    match (f.prefixed, &f.ident) {
        (true, i) => b.finish_size_prefixed(root, i.as_deref()),
        (false, None) => b.finish_minimal(root),
        (false, i) => b.finish(root, i.as_deref()),
    }
}

/// Eight octets, aligned to eight on every host.
#[repr(align(8))]
pub struct Eight(#[allow(dead_code)] [u8; 8]);

/// A value whose write dies half way.
#[derive(Clone, Copy, PartialEq)]
pub struct Bomb(pub u8);
impl Push for Bomb {
    type Output = Eight;
    fn push(&self, dst: &mut [u8], _rest: &[u8]) {
        for d in dst.iter_mut().take(self.0 as usize) {
            *d = 0xaa;
        }
        panic!("simulated death inside a push");
    }
}

/// Earlier work that leaves a builder in some state. Returns what it did.
pub fn dirty(src: &mut Src, pool: &mut Pool, b: &mut FB) -> Vec<&'static str> {
    let mut did = vec![];
    for _ in 0..1 + src.below(3) {
        let p = gen_prog(src, pool, 8);
        let mut offs = vec![];
        let stop = src.idx(p.ops.len() + 1);
        let died = guard(|| {
            for op in &p.ops[..stop] {
                let o = exec(b, op, &offs);
                offs.push(o);
            }
        });
        if died.is_err() {
            // only possible when an earlier round left the builder nested
            did.push("work refused in an unfinished builder");
        }
        if stop == p.ops.len() && died.is_ok() && src.chance(1, 2) {
            if guard(|| finish(b, &p.fin, &offs)).is_ok() {
                did.push("finished message");
            }
            if src.chance(1, 4) {
                let _ = guard(|| finish(b, &p.fin, &offs));
                did.push("finished twice");
            }
        } else if stop < p.ops.len() {
            did.push("message abandoned between values");
        }
        match src.below(13) {
            0 => {}
            1 => {
                let fs = gen_fields(src, &[]);
                let _ = guard(|| {
                    b.start_table();
                    for (i, f) in &fs {
                        push_field(b, *i, f, &[]);
                    }
                });
                did.push("table abandoned half way");
            }
            2 => {
                let n = src.idx(30);
                let k = src.idx(n + 1);
                let _ = guard(|| {
                    b.start_vector::<u64>(n);
                    for i in 0..k {
                        b.push(i as u64 | 0x0101_0101_0000_0000);
                    }
                });
                did.push("vector abandoned half way");
            }
            3 => {
                let (i, k) = (src.below(9) as u16, src.below(9) as u8);
                let _ = guard(|| {
                    b.start_table();
                    b.push_slot_always(slot(i + 1), 0x7fu8);
                    b.push_slot_always(slot(i), Bomb(k));
                });
                did.push("died while writing a field");
            }
            4 => {
                let (n, k) = (1 + src.idx(6), src.below(9) as u8);
                let _ = guard(|| b.create_vector(&vec![Bomb(k); n]));
                did.push("died while writing a vector");
            }
            5 => {
                let _ = guard(|| {
                    b.start_table();
                    b.start_table();
                });
                did.push("nested table refused");
            }
            6 => {
                let i = src.below(9) as u16;
                let _ = guard(|| {
                    let t = b.start_table();
                    b.push_slot_always(slot(i), 1u32);
                    b.push_slot_always(slot(i), 2u32);
                    b.end_table(t);
                });
                did.push("field written twice refused");
            }
            7 => {
                let _ = guard(|| {
                    let t = b.start_table();
                    b.push_slot_always(slot(0), 5u16);
                    let o = b.end_table(t);
                    b.required(o, slot(7), "absent");
                });
                did.push("missing required field refused");
            }
            8 => {
                let _ = guard(|| {
                    let t = b.start_table();
                    b.push_slot_always(slot(0), 5u16);
                    let o = b.end_table(t);
                    b.finish(o, Some("toolong"));
                });
                did.push("bad identifier refused");
            }
            9 => {
                let n = (1usize << if simkit::small() { src.below(8) } else if src.chance(1, 8) { src.below(20) } else { src.below(14) }) + src.idx(8);
                let v = vec![0xffu8; n];
                let _ = guard(|| b.create_byte_string(&v));
                did.push("large value");
            }
            10 => {
                let _ = guard(|| b.reset());
                did.push("reset in between");
            }
            11 => {
                let c = b.clone();
                *b = c;
                did.push("replaced by its clone");
            }
            _ => {
                let k = src.below(9) as u8;
                let _ = guard(|| {
                    b.push(3u8);
                    b.push(Bomb(k))
                });
                did.push("died while writing a scalar");
            }
        }
    }
    did
}

pub fn capacity(src: &mut Src) -> usize {
    match src.below(6) {
        0 => 0,
        1 => 1 + src.below(16) as usize,
        2 => src.below(200) as usize,
        3 => 1 << src.below(12),
        4 => (1 << src.below(12)) + 1,
        _ => src.below(5000) as usize,
    }
}
