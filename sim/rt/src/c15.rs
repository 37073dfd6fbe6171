//! C15: messages around the largest size the format allows.

use butte::{ForwardsUOffset, Table, Vector};
use simkit::{guard, violation, Ctx, RunResult, Src};

type FB = butte::FlatBufferBuilder<'static>;

pub const LIMIT: usize = 1 << 31;
const ROOM: usize = LIMIT + (1 << 28);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// More zeros than a message can hold, at no cost: pages nobody wrote to.
fn zeros() -> &'static mut [u8] {
    use std::sync::OnceLock;
    static P: OnceLock<usize> = OnceLock::new();
    let p = *P.get_or_init(|| unsafe {
        let p = mmap(std::ptr::null_mut(), ROOM, 3, 0x4022, -1, 0);
        assert!(p as isize != -1, "mmap");
        p as usize
    });
    unsafe { std::slice::from_raw_parts_mut(p as *mut u8, ROOM) }
}

fn slot(i: usize) -> u16 {
    4 + 2 * i as u16
}

#[derive(Clone, Debug)]
enum Op {
    /// kind (0 bytes, 1 eight-byte items, 2 byte string), length in items, mark
    Big(u8, usize, u64),
    Text(String),
    Tab(u32),
    /// A vector of eight-byte items, item by item.
    Few(Vec<u64>),
}

impl Op {
    /// Bytes it certainly and at most adds.
    fn bytes(&self) -> (usize, usize) {
        let n = match self {
            Op::Big(0, n, _) => n + 4,
            Op::Big(1, n, _) => 8 * n + 4,
            Op::Big(_, n, _) => n + 5,
            Op::Text(s) => s.len() + 5,
            Op::Tab(_) => 8,
            Op::Few(v) => 4 + 8 * v.len(),
        };
        (n, n + 64)
    }
}

fn exec(b: &mut FB, op: &Op) -> u32 {
    match op {
        Op::Big(k, n, mark) => {
            let len = if *k == 1 { 8 * n } else { *n };
            let z = zeros();
            let m = mark.to_le_bytes();
            z[..8].copy_from_slice(&m);
            z[len - 8..len].copy_from_slice(&m);
            let r = guard(|| {
                let z = &z[..len];
                match k {
                    0 => b.create_vector_direct(z).value(),
                    #[cfg(target_endian = "little")]
                    1 => {
                        let w = unsafe { std::slice::from_raw_parts(z.as_ptr() as *const u64, *n) };
                        b.create_vector_direct(w).value()
                    }
                    _ => b.create_byte_string(z).value(),
                }
            });
            let z = zeros();
            z[..8].fill(0);
            z[len - 8..len].fill(0);
            match r {
                Ok(o) => o,
                Err(m) => panic!("{m}"),
            }
        }
        Op::Text(s) => b.create_string(s).value(),
        Op::Tab(x) => {
            let t = b.start_table();
            b.push_slot_always(slot(0), *x);
            b.push_slot_always(slot(2), 7u8);
            b.end_table(t).value()
        }
        Op::Few(v) => b.create_vector(v).value(),
    }
}

fn small(b: &mut FB, x: u32) -> Vec<u8> {
    let s = b.create_string("small again");
    let t = b.start_table();
    b.push_slot_always(slot(1), s);
    b.push_slot_always(slot(0), x);
    let t = b.end_table(t);
    b.finish_minimal(t);
    b.finished_data().to_vec()
}

fn read(data: &[u8], prefixed: bool, ops: &[Op]) -> Result<(), String> {
    let root = if prefixed { Table::get_size_prefixed_root(data) } else { Table::get_root(data) };
    let root = root.map_err(|e| format!("root: {e:?}"))?;
    for (i, op) in ops.iter().enumerate() {
        let e = |w: &str| format!("item {i} ({op:?}): {w}");
        match op {
            Op::Big(1, n, mark) => {
                let v = root.get::<ForwardsUOffset<Vector<u64>>>(slot(i), None).map_err(|x| e(&format!("{x:?}")))?;
                let v = v.ok_or_else(|| e("absent"))?;
                let ends = (v.len(), v.get(0), v.get(n - 1));
                if ends != (Ok(*n), Ok(*mark), Ok(*mark)) {
                    return Err(e(&format!("length and ends {ends:x?}")));
                }
                let it = (v.iter().len(), v.iter().nth(n - 1), v.iter().next_back());
                if it != (*n, Some(Ok(*mark)), Some(Ok(*mark))) {
                    return Err(e(&format!("iterates over {it:x?}")));
                }
            }
            Op::Big(_, n, mark) => {
                let v = root.get::<ForwardsUOffset<Vector<u8>>>(slot(i), None).map_err(|x| e(&format!("{x:?}")))?;
                let v = v.ok_or_else(|| e("absent"))?;
                let m = mark.to_le_bytes();
                let ends = (v.len(), v.get(1), v.get(n - 1), v.get(n / 2 + 8));
                if ends != (Ok(*n), Ok(m[1]), Ok(m[7]), Ok(if n / 2 + 8 >= n - 8 { m[8 + n / 2 + 8 - n] } else { 0 })) {
                    return Err(e(&format!("length and ends {ends:x?}")));
                }
                let s = v.safe_slice().map_err(|x| e(&format!("{x:?}")))?;
                if s.len() != *n || s[n - 8..] != m {
                    return Err(e(&format!("a slice of {}", s.len())));
                }
            }
            Op::Text(s) => {
                let v = root.get::<ForwardsUOffset<&str>>(slot(i), None).map_err(|x| e(&format!("{x:?}")))?;
                if v != Some(s.as_str()) {
                    return Err(e(&format!("{v:?}")));
                }
            }
            Op::Tab(x) => {
                let loc = match root.vtable().and_then(|v| v.get(slot(i))) {
                    Ok(Some(o)) => root.loc + o as usize,
                    o => return Err(e(&format!("{o:?}"))),
                };
                let off = u32::from_le_bytes([data[loc], data[loc + 1], data[loc + 2], data[loc + 3]]) as usize;
                let t = Table::new(data, loc + off);
                let got = (t.get::<u32>(slot(0), None), t.get::<u8>(slot(2), None), t.get::<u8>(slot(1), None));
                if got != (Ok(Some(*x)), Ok(Some(7)), Ok(None)) {
                    return Err(e(&format!("{got:?}")));
                }
            }
            Op::Few(w) => {
                let v = root.get::<ForwardsUOffset<Vector<u64>>>(slot(i), None).map_err(|x| e(&format!("{x:?}")))?;
                let got: Result<Vec<u64>, _> = v.ok_or_else(|| e("absent"))?.iter().collect();
                if got.as_ref() != Ok(w) {
                    return Err(e(&format!("{got:?}")));
                }
            }
        }
    }
    Ok(())
}

fn big(src: &mut Src, used: usize) -> Op {
    let k = src.below(3) as u8;
    let left = LIMIT.saturating_sub(used);
    let bytes = match src.weighted(&[2, 3, 3, 1, 1]) {
        // a good part of what is left
        0 => left / 16 * (1 + src.idx(15)),
        // just below or just above the limit
        1 => left.saturating_sub(src.idx(160)),
        2 => left.saturating_sub(120) + src.idx(160),
        // large by itself, and too large together with what is there
        3 => LIMIT - src.idx(100),
        // more than the limit
        _ => LIMIT + 1 + src.idx(100),
    }
    .clamp(64, ROOM - 64);
    let mark = (src.u64() | 0x0101_0101_0101_0101) & 0x7f7f_7f7f_7f7f_7f7f;
    Op::Big(k, if k == 1 { bytes / 8 } else { bytes }, mark)
}

/// Write a message of one large value with smaller ones around it.
fn message(b: &mut FB, ops: &[Op], prefixed: bool, ident: Option<&str>) {
    let offs: Vec<u32> = ops.iter().map(|op| exec(b, op)).collect();
    let t = b.start_table();
    for (i, o) in offs.iter().enumerate() {
        b.push_slot_always(slot(i), butte::WIPOffset::<&str>::new(*o));
    }
    let t = b.end_table(t);
    if prefixed {
        b.finish_size_prefixed(t, ident)
    } else {
        b.finish(t, ident)
    }
}

/// A message that fills the limit to the last byte, and one just beyond. How
/// long its large value must be follows from a small message of the same kind:
/// 64 bytes more of it are 64 bytes more of message.
fn exact(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    ctx.step();
    let prefixed = src.chance(1, 3);
    let ident = if src.chance(1, 3) { Some("SIMU") } else { None };
    let k = src.below(3) as u8;
    let unit = if k == 1 { 8 } else { 1 };
    let mark = (src.u64() | 0x0101_0101_0101_0101) & 0x7f7f_7f7f_7f7f_7f7f;
    let mut ops: Vec<Op> = vec![];
    let n = 1 + src.idx(3);
    let at = src.idx(n);
    for i in 0..n {
        ops.push(match src.below(3) {
            _ if i == at => Op::Big(k, 0, mark),
            0 => Op::Tab(src.u64() as u32),
            1 => Op::Text("text ".repeat(src.idx(20))),
            _ => Op::Few((0..src.below(6)).map(|_| src.u64()).collect()),
        });
    }
    let size = |ops: &[Op]| {
        guard(|| {
            let mut b = FB::new();
            message(&mut b, ops, prefixed, ident);
            b.finished_data().len()
        })
    };
    let mut found = None;
    for items in (64 / unit..256 / unit).rev() {
        ops[at] = Op::Big(k, items, mark);
        let len = match size(&ops) {
            Ok(l) => l,
            Err(m) => return violation("refused", format!("a small message {ops:?} was refused: {m}")),
        };
        if len % 64 == 0 {
            found = Some((items, len));
            break;
        }
    }
    // no length of the value fills the last byte of a multiple of 64
    let Some((items, len)) = found else { return Ok(()) };
    let over = src.chance(1, 3);
    let more = LIMIT - len + if over { 64 } else { 0 };
    ops[at] = Op::Big(k, items + more / unit, mark);
    let cap = match src.below(3) {
        0 => LIMIT,
        1 => 0,
        _ => src.idx(5000),
    };
    ctx.mark(mark ^ more as u64 ^ cap as u64);
    ctx.ev(|| format!("capacity {cap}, a message of {} bytes: {ops:?}", len + more));
    let mut b = FB::new_with_capacity(cap);
    match guard(|| message(&mut b, &ops, prefixed, ident)) {
        Err(_) if over => ctx.fault("message beyond the limit refused"),
        Err(m) => return violation("refused", format!("capacity {cap}: a message of {LIMIT} bytes was refused, {ops:?}: {m}")),
        Ok(()) => {
            let data = b.finished_data();
            if over || data.len() != LIMIT {
                return violation("beyond-the-limit", format!("a finished buffer of {} bytes, {} expected", data.len(), len + more));
            }
            match guard(|| read(data, prefixed, &ops)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) | Err(m) => return violation("read", format!("capacity {cap}, a message of {} bytes: {m}", data.len())),
            }
            ctx.probe("message of exactly the limit");
            ctx.nontrivial = true;
        }
    }
    if src.chance(1, 3) {
        return again(src, ctx, b);
    }
    Ok(())
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    if src.chance(1, 6) {
        return exact(src, ctx);
    }
    let cap = match src.below(8) {
        0 => LIMIT,
        1 => LIMIT - src.idx(64),
        2 => 1 << 30,
        3 => (1 << 30) + src.idx(64),
        4 => 3 << 29,
        5 => src.idx(5000),
        6 => 1 << (20 + src.below(11)),
        _ => LIMIT + 1 + src.idx(64),
    };
    ctx.mark(cap as u64);
    ctx.ev(|| format!("capacity {cap}"));
    let mut b = match guard(|| FB::new_with_capacity(cap)) {
        Ok(b) if cap <= LIMIT => b,
        Ok(_) => return violation("capacity", format!("a builder of {cap} bytes was created")),
        Err(m) if cap <= LIMIT => return violation("refused", format!("a builder of {cap} bytes was refused: {m}")),
        Err(_) => {
            ctx.fault("capacity beyond the limit refused");
            FB::new()
        }
    };
    let mut ops: Vec<Op> = vec![];
    let mut offs: Vec<u32> = vec![];
    let n = 2 + src.idx(4);
    let mut bigs = 0;
    for i in 0..n {
        ctx.step();
        let used = b.unfinished_data().len();
        let op = if bigs < 3 && (src.chance(1, 2) || i + 1 == n && bigs == 0) {
            bigs += 1;
            big(src, used)
        } else {
            match src.below(3) {
                0 => Op::Tab(src.u64() as u32),
                1 => Op::Text("text ".repeat(src.idx(20))),
                _ => Op::Few((0..src.below(6)).map(|_| src.u64()).collect()),
            }
        };
        let (least, most) = op.bytes();
        ctx.ev(|| format!("{used} bytes used; {op:?}"));
        ctx.mark(used as u64 ^ least as u64);
        match guard(|| exec(&mut b, &op)) {
            Err(m) => {
                if used + most <= LIMIT {
                    return violation("refused", format!("capacity {cap}, {used} bytes used: {op:?} was refused although it fits: {m}"));
                }
                ctx.fault("value beyond the limit refused");
                return again(src, ctx, b);
            }
            Ok(o) => {
                let now = b.unfinished_data().len();
                if used + least > LIMIT || now > LIMIT || now < used + least || now > used + most {
                    return violation("beyond-the-limit", format!("capacity {cap}, {used} bytes used: {op:?} was accepted; {now} bytes now"));
                }
                offs.push(o);
                ops.push(op);
            }
        }
    }
    let used = b.unfinished_data().len();
    let prefixed = src.chance(1, 3);
    let ident = if src.chance(1, 3) { Some("SIMU") } else { None };
    let done = guard(|| {
        let t = b.start_table();
        for (i, o) in offs.iter().enumerate() {
            b.push_slot_always(slot(i), butte::WIPOffset::<&str>::new(*o));
        }
        let t = b.end_table(t);
        if prefixed {
            b.finish_size_prefixed(t, ident)
        } else {
            b.finish(t, ident)
        }
    });
    if let Err(m) = done {
        if used + 4 * offs.len() + 100 <= LIMIT {
            return violation("refused", format!("capacity {cap}, {used} bytes used: finishing was refused although it fits: {m}"));
        }
        ctx.fault("finish beyond the limit refused");
        return again(src, ctx, b);
    }
    let data = b.finished_data();
    ctx.ev(|| format!("finished with {} bytes", data.len()));
    if data.len() > LIMIT {
        return violation("beyond-the-limit", format!("a finished buffer of {} bytes", data.len()));
    }
    if data.len() > LIMIT - 512 {
        ctx.probe("message within 512 bytes of the limit");
    }
    if prefixed {
        let p = u32::from_le_bytes([data[0], data[1], data[2], data[3]]) as usize;
        if p + 4 != data.len() {
            return violation("size-prefix", format!("size prefix {p} of a buffer of {} bytes", data.len()));
        }
    }
    match guard(|| read(data, prefixed, &ops)) {
        Ok(Ok(())) => {}
        Ok(Err(m)) => return violation("read", format!("capacity {cap}, a message of {} bytes: {m}", data.len())),
        Err(m) => return violation("read:panic", format!("capacity {cap}, a message of {} bytes: {m}", data.len())),
    }
    ctx.nontrivial = true;
    if src.chance(1, 3) {
        return again(src, ctx, b);
    }
    Ok(())
}

/// After all that, the builder is as good as new.
fn again(src: &mut Src, ctx: &mut Ctx, mut b: FB) -> RunResult {
    let x = src.u64() as u32;
    ctx.ev(|| "reset, then a small message".into());
    let got = match guard(|| {
        b.reset();
        small(&mut b, x)
    }) {
        Ok(g) => g,
        Err(m) => return violation("after:panic", format!("after a reset: {m}")),
    };
    if got != small(&mut FB::new(), x) {
        return violation("after", "after a reset a small message has other bytes than from a new builder");
    }
    Ok(())
}
