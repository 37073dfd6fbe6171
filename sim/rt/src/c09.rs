//! C09: cursors over a vector against a plain interval.

use butte::{Follow, ForwardsUOffset, Vector, VectorIter};
use simkit::{guard, violation, Ctx, RunResult, Src};

#[derive(Clone, PartialEq, Debug)]
pub enum El {
    Num(u64),
    Str(String),
    Tab(usize),
    Err,
}

struct Cur<'a, T: 'a> {
    it: VectorIter<'a, T>,
    lo: usize,
    hi: usize,
}

fn drive<'a, T: Follow<'a> + 'a>(
    src: &mut Src,
    ctx: &mut Ctx,
    v: Vector<'a, T>,
    want: &[El],
    see: fn(T::Inner) -> El,
) -> RunResult {
    let obs = |x: Option<Result<T::Inner, butte::Error>>| -> Option<El> {
        x.map(|r| match r {
            Ok(v) => see(v),
            Err(_) => El::Err,
        })
    };
    let n = want.len();
    let mut cs: Vec<Cur<'a, T>> = vec![Cur {
        it: match guard(|| v.iter()) {
            Ok(i) => i,
            Err(m) => return violation("iter:panic", m),
        },
        lo: 0,
        hi: n,
    }];
    if v.len() != Ok(n) || v.is_empty() != Ok(n == 0) {
        return violation("len", format!("vector of {n} reports {:?}, empty {:?}", v.len(), v.is_empty()));
    }
    let steps = 1 + src.below(40);
    for step in 0..steps {
        ctx.step();
        if cs.is_empty() {
            break;
        }
        let ci = src.idx(cs.len());
        let left = cs[ci].hi - cs[ci].lo;
        // distances around everything that matters
        let dist = |src: &mut Src| -> usize {
            match src.below(8) {
                0 => 0,
                1 => 1,
                2 => left,
                3 => left.saturating_sub(1),
                4 => left + 1,
                5 => usize::MAX - src.below(2) as usize,
                6 => (usize::MAX / 8).wrapping_add(src.below(8) as usize),
                _ => src.idx(n + 3),
            }
        };
        let op = src.weighted(&[6, 6, 4, 4, 2, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1]);
        ctx.mark(op as u64 * 64 + ci as u64);
        let fail = |what: String| violation::<()>("cursor", format!("step {step}, cursor {ci} over {left} left of {n}: {what}"));
        macro_rules! call {
            ($name:expr, $e:expr) => {
                match guard(|| $e) {
                    Ok(x) => x,
                    Err(m) => return violation("cursor:panic", format!("step {step}: {} on a cursor with {left} left of {n}: {m}", $name)),
                }
            };
        }
        match op {
            0 => {
                ctx.ev(|| format!("cursor {ci}: next"));
                let c = &mut cs[ci];
                let got = obs(call!("next", c.it.next()));
                let exp = if left > 0 { Some(want[c.lo].clone()) } else { None };
                if left > 0 {
                    c.lo += 1;
                } else {
                    ctx.probe("exhausted cursor asked again");
                }
                if got != exp {
                    return fail(format!("next gives {got:?}, expected {exp:?}"));
                }
            }
            1 => {
                ctx.ev(|| format!("cursor {ci}: next_back"));
                let c = &mut cs[ci];
                let got = obs(call!("next_back", c.it.next_back()));
                let exp = if left > 0 { Some(want[c.hi - 1].clone()) } else { None };
                if left > 0 {
                    c.hi -= 1;
                }
                if got != exp {
                    return fail(format!("next_back gives {got:?}, expected {exp:?}"));
                }
            }
            2 => {
                let k = dist(src);
                ctx.ev(|| format!("cursor {ci}: nth({k})"));
                let c = &mut cs[ci];
                let got = obs(call!("nth", c.it.nth(k)));
                let exp = if k < left {
                    c.lo += k + 1;
                    Some(want[c.lo - 1].clone())
                } else {
                    c.lo = c.hi;
                    ctx.probe("skipped past the end");
                    None
                };
                if got != exp {
                    return fail(format!("nth({k}) gives {got:?}, expected {exp:?}"));
                }
            }
            3 => {
                let k = dist(src);
                ctx.ev(|| format!("cursor {ci}: nth_back({k})"));
                let c = &mut cs[ci];
                let got = obs(call!("nth_back", c.it.nth_back(k)));
                let exp = if k < left {
                    c.hi -= k + 1;
                    Some(want[c.hi].clone())
                } else {
                    c.hi = c.lo;
                    None
                };
                if got != exp {
                    return fail(format!("nth_back({k}) gives {got:?}, expected {exp:?}"));
                }
            }
            4 => {
                if cs.len() < 5 {
                    ctx.ev(|| format!("cursor {ci}: clone"));
                    let c = Cur {
                        it: call!("clone", cs[ci].it.clone()),
                        lo: cs[ci].lo,
                        hi: cs[ci].hi,
                    };
                    cs.push(c);
                }
            }
            5 => {
                if cs.len() > 1 {
                    ctx.ev(|| format!("cursor {ci}: dropped"));
                    cs.remove(ci);
                    continue;
                }
            }
            6 => {
                if n > 0 {
                    let i = src.idx(n);
                    ctx.ev(|| format!("get({i})"));
                    let got = obs(Some(call!("get", v.get(i))));
                    if got.as_ref() != Some(&want[i]) {
                        return fail(format!("get({i}) gives {got:?}, expected {:?}", want[i]));
                    }
                }
            }
            7 => {
                ctx.ev(|| format!("cursor {ci}: rest from the front"));
                let c = call!("clone", cs[ci].it.clone());
                let got: Vec<El> = call!("collect", c.map(|x| obs(Some(x)).unwrap()).collect());
                if got != want[cs[ci].lo..cs[ci].hi] {
                    return fail(format!("the rest is {got:?}, expected {:?}", &want[cs[ci].lo..cs[ci].hi]));
                }
            }
            8 => {
                ctx.ev(|| format!("cursor {ci}: rest from the back"));
                let c = call!("clone", cs[ci].it.clone());
                let mut got: Vec<El> = call!("rev", c.rev().map(|x| obs(Some(x)).unwrap()).collect());
                got.reverse();
                if got != want[cs[ci].lo..cs[ci].hi] {
                    return fail(format!("the rest backwards is {got:?}, expected {:?}", &want[cs[ci].lo..cs[ci].hi]));
                }
            }
            9 => {
                let c = call!("clone", cs[ci].it.clone());
                let k = call!("count", c.count());
                let c = call!("clone", cs[ci].it.clone());
                let l = obs(call!("last", c.last()));
                let exp = if left > 0 { Some(want[cs[ci].hi - 1].clone()) } else { None };
                if k != left || l != exp {
                    return fail(format!("count {k}, last {l:?}"));
                }
            }
            10 => {
                let k = 1 + src.idx(4);
                let skip = dist(src);
                ctx.ev(|| format!("cursor {ci}: skip({skip}).step_by({k})"));
                let c = call!("clone", cs[ci].it.clone());
                let got: Vec<El> = call!("step_by", c.skip(skip).step_by(k).map(|x| obs(Some(x)).unwrap()).collect());
                let exp: Vec<El> = want[cs[ci].lo..cs[ci].hi].iter().skip(skip).step_by(k).cloned().collect();
                if got != exp {
                    return fail(format!("skip({skip}).step_by({k}) gives {got:?}, expected {exp:?}"));
                }
            }
            11 => {
                // a new cursor, through either conversion
                if cs.len() < 5 {
                    ctx.ev(|| "new cursor".into());
                    let it = if src.chance(1, 2) { v.into_iter() } else { (&v).into_iter() };
                    cs.push(Cur { it, lo: 0, hi: n });
                }
            }
            12 => {
                // the other ways to walk: folds in both directions, searches
                let rest = &want[cs[ci].lo..cs[ci].hi];
                let k = dist(src);
                ctx.ev(|| format!("cursor {ci}: folds, stopping after {k}"));
                let c = call!("clone", cs[ci].it.clone());
                let f = call!("fold", c.fold(vec![], |mut v, x| {
                    v.push(obs(Some(x)).unwrap());
                    v
                }));
                let c = call!("clone", cs[ci].it.clone());
                let mut r = call!("rfold", c.rfold(vec![], |mut v, x| {
                    v.push(obs(Some(x)).unwrap());
                    v
                }));
                r.reverse();
                let mut e = vec![];
                let c = call!("clone", cs[ci].it.clone());
                call!("for_each", c.for_each(|x| e.push(obs(Some(x)).unwrap())));
                if f != rest || r != rest || e != rest {
                    return fail(format!("fold {f:?}, rfold {r:?}, for_each {e:?}, expected {rest:?}"));
                }
                // searches stop where they find, and the rest is still there
                let mut left_over = k;
                let mut c = call!("clone", cs[ci].it.clone());
                let hit = call!("find", c.find(|_| {
                    let stop = left_over == 0;
                    left_over = left_over.wrapping_sub(1);
                    stop
                }));
                let (exp, from) = if k < left { (Some(rest[k].clone()), k + 1) } else { (None, left) };
                if obs(hit) != exp || c.len() != left - from || c.map(|x| obs(Some(x)).unwrap()).collect::<Vec<_>>() != rest[from..] {
                    return fail(format!("find, stopping after {k}, goes wrong"));
                }
                let mut left_over = k;
                let mut c = call!("clone", cs[ci].it.clone());
                let hit = call!("rfind", c.rfind(|_| {
                    let stop = left_over == 0;
                    left_over = left_over.wrapping_sub(1);
                    stop
                }));
                let (exp, to) = if k < left { (Some(rest[left - 1 - k].clone()), left - 1 - k) } else { (None, 0) };
                if obs(hit) != exp || c.len() != to || c.map(|x| obs(Some(x)).unwrap()).collect::<Vec<_>>() != rest[..to] {
                    return fail(format!("rfind, stopping after {k}, goes wrong"));
                }
            }
            13 => {
                // part of the walk through a borrowed cursor
                let k = dist(src);
                let back = src.chance(1, 2);
                ctx.ev(|| format!("cursor {ci}: {k} taken by reference, from the back: {back}"));
                let c = &mut cs[ci];
                let m = k.min(left);
                let (got, exp): (Vec<El>, Vec<El>) = if back {
                    let g = call!("by_ref.rev.take", c.it.by_ref().rev().take(k).map(|x| obs(Some(x)).unwrap()).collect());
                    c.hi -= m;
                    (g, want[c.hi..c.hi + m].iter().rev().cloned().collect())
                } else {
                    let g = call!("by_ref.take", c.it.by_ref().take(k).map(|x| obs(Some(x)).unwrap()).collect());
                    c.lo += m;
                    (g, want[c.lo - m..c.lo].to_vec())
                };
                if got != exp {
                    return fail(format!("taking {k} by reference gives {got:?}, expected {exp:?}"));
                }
            }
            _ => {
                let k = dist(src);
                ctx.ev(|| format!("cursor {ci}: rev().skip({k})"));
                let c = call!("clone", cs[ci].it.clone());
                let got: Vec<El> = call!("rev.skip", c.rev().skip(k).map(|x| obs(Some(x)).unwrap()).collect());
                let exp: Vec<El> = want[cs[ci].lo..cs[ci].hi].iter().rev().skip(k).cloned().collect();
                if got != exp {
                    return fail(format!("rev().skip({k}) gives {got:?}, expected {exp:?}"));
                }
            }
        }
        for (i, c) in cs.iter().enumerate() {
            let left = c.hi - c.lo;
            let l = call!("len", c.it.len());
            let h = call!("size_hint", c.it.size_hint());
            if l != left || h != (left, Some(left)) {
                return violation("remaining", format!("step {step}: cursor {i} reports {l} and {h:?} left, {left} are"));
            }
        }
    }
    // drain: exactly the rest, then nothing, for good
    for (i, c) in cs.iter_mut().enumerate() {
        let mut got = vec![];
        for _ in 0..c.hi - c.lo + 3 {
            match guard(|| c.it.next()) {
                Ok(x) => got.push(obs(x)),
                Err(m) => return violation("cursor:panic", format!("draining cursor {i}: {m}")),
            }
        }
        let mut exp: Vec<Option<El>> = want[c.lo..c.hi].iter().cloned().map(Some).collect();
        exp.extend([None, None, None]);
        if got != exp {
            return violation("drain", format!("cursor {i} drains to {got:?}, expected {exp:?}"));
        }
        match guard(|| (c.it.nth(0).is_none(), c.it.nth(5).is_none(), c.it.next_back().is_none(), c.it.nth_back(usize::MAX).is_none(), c.it.len())) {
            Ok((true, true, true, true, 0)) => {}
            r => return violation("revived", format!("exhausted cursor {i} comes back: {r:?}")),
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let kind = src.below(14);
    // lengths on both sides of what an octet or two can hold, at times
    let n = match src.below(20_000) {
        1..=62 if simkit::small() => 3,
        1..=60 => 240 + src.idx(40),
        61 | 62 if kind < 2 => 65_520 + src.idx(40),
        _ => src.size(30) as usize,
    };
    ctx.mark(kind * 64 + n as u64);
    let shift = src.idx(8);
    if kind < 11 {
        // plain elements, possibly with the end of the buffer missing
        let sz = [1usize, 1, 2, 2, 4, 4, 8, 8, 4, 1, 8][kind as usize];
        let vals: Vec<u64> = (0..n)
            .map(|i| {
                let v = if n > 200 { 77 } else { src.below(1 << 16) } * 2654435761 + i as u64;
                match kind {
                    8 => v & 0x3fff_ffff,
                    10 => v & 0x3fff_ffff_ffff_ffff,
                    9 => v & 1,
                    _ if sz == 8 => v,
                    _ => v & ((1u64 << (8 * sz)) - 1),
                }
            })
            .collect();
        let mut buf = vec![0xEEu8; shift];
        buf.extend_from_slice(&(n as u32).to_le_bytes());
        for v in &vals {
            buf.extend_from_slice(&v.to_le_bytes()[..sz]);
        }
        let full = buf.len();
        if n > 0 && src.chance(1, 5) {
            let cut = 1 + src.idx(n * sz);
            buf.truncate(full - cut);
            ctx.fault("buffer ends inside the vector");
        } else if src.chance(1, 2) {
            buf.extend_from_slice(&[0xCC; 9]);
        }
        let want: Vec<El> = (0..n)
            .map(|i| if shift + 4 + (i + 1) * sz <= buf.len() { El::Num(vals[i]) } else { El::Err })
            .collect();
        let buf = &buf[..];
        macro_rules! go {
            ($t:ty, $f:expr) => {
                drive::<$t>(src, ctx, Vector::new(buf, shift), &want, $f)
            };
        }
        ctx.ev(|| format!("vector of {n} elements of {sz} bytes (kind {kind}) in {} bytes", buf.len()));
        match kind {
            0 => go!(u8, |x| El::Num(x as u64)),
            1 => go!(i8, |x| El::Num(x as u8 as u64)),
            2 => go!(u16, |x| El::Num(x as u64)),
            3 => go!(i16, |x| El::Num(x as u16 as u64)),
            4 => go!(u32, |x| El::Num(x as u64)),
            5 => go!(i32, |x| El::Num(x as u32 as u64)),
            6 => go!(u64, |x| El::Num(x)),
            7 => go!(i64, |x| El::Num(x as u64)),
            8 => go!(f32, |x| El::Num(x.to_bits() as u64)),
            9 => go!(bool, |x| El::Num(x as u64)),
            _ => go!(f64, |x| El::Num(x.to_bits())),
        }
    } else {
        // built for real: strings and tables
        let mut b = butte::FlatBufferBuilder::new();
        let (off, want): (u32, Vec<El>) = if kind == 11 {
            let strs: Vec<String> = (0..n).map(|i| format!("{}#{i}", src.below(1000))).collect();
            let r: Vec<&str> = strs.iter().map(|s| s.as_str()).collect();
            let o = b.create_vector_of_strings(&r).value();
            (o, strs.into_iter().map(El::Str).collect())
        } else if kind == 12 {
            // a vector of vectors, seen by the sum of their elements
            let mut offs = vec![];
            let mut want = vec![];
            for _ in 0..n {
                let v: Vec<u16> = (0..src.size(6)).map(|_| src.below(1 << 16) as u16).collect();
                want.push(El::Num(v.iter().map(|x| *x as u64 + 1).sum()));
                offs.push(b.create_vector(&v));
            }
            (b.create_vector(&offs).value(), want)
        } else {
            let mut offs = vec![];
            for _ in 0..n {
                let t = b.start_table();
                b.push_slot_always(4, src.below(200) as u8);
                offs.push(b.end_table(t));
            }
            let o = b.create_vector(&offs).value();
            (o, offs.iter().map(|x| El::Tab(x.value() as usize)).collect())
        };
        let data = b.unfinished_data().to_vec();
        let loc = data.len() - off as usize;
        let len = data.len();
        ctx.ev(|| format!("vector of {n} {} in {len} bytes", ["strings", "vectors", "tables"][kind as usize - 11]));
        if kind == 12 {
            drive::<ForwardsUOffset<Vector<u16>>>(src, ctx, Vector::new(&data, loc), &want, |v| {
                El::Num(v.iter().map(|x| x.map_or(0, |x| x as u64 + 1)).sum())
            })
        } else if kind == 11 {
            drive::<ForwardsUOffset<&str>>(src, ctx, Vector::new(&data, loc), &want, |s| El::Str(s.to_string()))
        } else {
            let want: Vec<El> = want
                .into_iter()
                .map(|w| match w {
                    El::Tab(o) => El::Tab(len - o),
                    w => w,
                })
                .collect();
            drive::<ForwardsUOffset<Tab>>(src, ctx, Vector::new(&data, loc), &want, El::Tab)
        }
    }
}

/// Where a table lies.
struct Tab;
impl<'a> Follow<'a> for Tab {
    type Inner = usize;
    fn follow(_buf: &'a [u8], loc: usize) -> Result<usize, butte::Error> {
        Ok(loc)
    }
}
