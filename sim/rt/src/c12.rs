//! C12: finished buffers, seen by a decoder that shares no code with butte.

use crate::prog::*;
use simkit::{guard, hex, violation, Ctx, RunResult, Src};
use std::collections::{BTreeMap, BTreeSet};

struct Dec<'a> {
    d: &'a [u8],
    /// Which object owns a byte.
    owner: Vec<Option<u32>>,
    vtables: BTreeMap<usize, Vec<u8>>,
    max_align: usize,
}

type R<T> = Result<T, String>;

impl<'a> Dec<'a> {
    fn at(&self, off: u32) -> R<usize> {
        self.d.len().checked_sub(off as usize).ok_or_else(|| format!("object at {off} from the end lies before the buffer"))
    }
    fn u16(&self, p: usize) -> R<u16> {
        let s = self.d.get(p..p + 2).ok_or_else(|| format!("read past the end at {p}"))?;
        Ok(u16::from_le_bytes([s[0], s[1]]))
    }
    fn u32(&self, p: usize) -> R<u32> {
        let s = self.d.get(p..p + 4).ok_or_else(|| format!("read past the end at {p}"))?;
        Ok(u32::from_le_bytes([s[0], s[1], s[2], s[3]]))
    }
    fn aligned(&mut self, p: usize, a: usize, what: &str) -> R<()> {
        self.max_align = self.max_align.max(a);
        if (self.d.len() - p) % a != 0 {
            return Err(format!("{what} at {p} of {} is not aligned to {a} from the end", self.d.len()));
        }
        Ok(())
    }
    fn claim(&mut self, p: usize, n: usize, who: u32, what: &str) -> R<()> {
        if p + n > self.d.len() {
            return Err(format!("{what} at {p} reaches past the end"));
        }
        for i in p..p + n {
            if let Some(o) = self.owner[i] {
                return Err(format!("{what} (object {who}) at {p}+{n} overlaps object {o}"));
            }
            self.owner[i] = Some(who);
        }
        Ok(())
    }
    fn equal(&self, p: usize, want: &[u8], what: &str) -> R<()> {
        match self.d.get(p..p + want.len()) {
            Some(g) if g == want => Ok(()),
            g => Err(format!("{what} at {p}: {:?} instead of {}", g.map(hex), hex(want))),
        }
    }
    fn string(&mut self, off: u32, s: &[u8], who: u32) -> R<()> {
        let p = self.at(off)?;
        self.aligned(p, 4, "string")?;
        if self.u32(p)? as usize != s.len() {
            return Err(format!("string length {} instead of {}", self.u32(p)?, s.len()));
        }
        self.equal(p + 4, s, "string")?;
        self.equal(p + 4 + s.len(), &[0], "string terminator")?;
        self.claim(p, 4 + s.len() + 1, who, "string")
    }
    fn vector(&mut self, off: u32, elem_align: usize, elems: &[Vec<u8>], who: u32) -> R<()> {
        let p = self.at(off)?;
        self.aligned(p, 4, "vector length")?;
        self.aligned(p + 4, elem_align.max(4), "vector data")?;
        if self.u32(p)? as usize != elems.len() {
            return Err(format!("vector length {} instead of {}", self.u32(p)?, elems.len()));
        }
        let all: Vec<u8> = elems.concat();
        self.equal(p + 4, &all, "vector elements")?;
        self.claim(p, 4 + all.len(), who, "vector")
    }
    /// The offset stored at p leads to the object at `target` from the end.
    fn points(&self, p: usize, target: u32) -> R<()> {
        let o = self.u32(p)? as usize;
        let want = self.at(target)?;
        if p + o != want {
            return Err(format!("offset at {p} leads to {} instead of {want}", p + o));
        }
        Ok(())
    }
    fn table(&mut self, off: u32, fs: &[(u16, Field)], offs: &[u32], who: u32) -> R<()> {
        let p = self.at(off)?;
        self.aligned(p, 4, "table")?;
        let so = self.u32(p)? as i32 as i64;
        let vt = p as i64 - so;
        if vt < 0 || vt as usize + 4 > self.d.len() {
            return Err(format!("vtable of the table at {p} lies at {vt}"));
        }
        let vt = vt as usize;
        self.aligned(vt, 2, "vtable")?;
        let vlen = self.u16(vt)? as usize;
        let tlen = self.u16(vt + 2)? as usize;
        let last = fs.iter().filter(|(_, f)| stored(f)).map(|(i, _)| *i).max();
        let want = last.map_or(4, |m| slot(m) as usize + 2);
        if vlen != want {
            return Err(format!("vtable of {vlen} bytes instead of {want}"));
        }
        let bytes = self.d.get(vt..vt + vlen).ok_or("vtable reaches past the end")?.to_vec();
        if self.vtables.insert(vt, bytes).is_none() {
            self.claim(vt, vlen, u32::MAX, "vtable")?;
        }
        self.claim(p, tlen, who, "table")?;
        let mut inner = vec![false; tlen];
        let mut mark = |a: usize, n: usize| -> R<()> {
            for i in a..a + n {
                if i >= inner.len() {
                    return Err(format!("field bytes {a}+{n} outside the table of {tlen} bytes"));
                }
                if inner[i] {
                    return Err(format!("field bytes {a}+{n} overlap another field"));
                }
                inner[i] = true;
            }
            Ok(())
        };
        mark(0, 4)?;
        let have: BTreeMap<u16, &Field> = fs.iter().filter(|(_, f)| stored(f)).map(|(i, f)| (*i, f)).collect();
        for i in 0..(vlen - 4) as u16 / 2 {
            let fo = self.u16(vt + slot(i) as usize)? as usize;
            match have.get(&i) {
                None => {
                    if fo != 0 {
                        return Err(format!("field {i} was not written but has offset {fo}"));
                    }
                }
                Some(f) => {
                    if fo == 0 {
                        return Err(format!("field {i} was written but has no offset"));
                    }
                    let (bytes, align) = match f {
                        Field::Sc(s, _) => (Some(s.bytes()), s.size()),
                        Field::St(s) => (Some(s.bytes()), STRUCTS[s.k as usize].0),
                        Field::Off(_) => (None, 4),
                    };
                    self.aligned(p + fo, align, "field")?;
                    match (bytes, f) {
                        (Some(b), _) => {
                            self.equal(p + fo, &b, "field")?;
                            mark(fo, b.len())?;
                        }
                        (None, Field::Off(h)) => {
                            self.points(p + fo, offs[*h])?;
                            mark(fo, 4)?;
                        }
                        _ => {}
                    }
                }
            }
        }
        for (i, m) in inner.iter().enumerate() {
            if !m && self.d[p + i] != 0 {
                return Err(format!("padding byte {i} of the table at {p} is {:#x}", self.d[p + i]));
            }
        }
        Ok(())
    }
}

fn decode(d: &[u8], p: &Prog, offs: &[u32], vtables: usize) -> R<usize> {
    let mut x = Dec {
        d,
        owner: vec![None; d.len()],
        vtables: BTreeMap::new(),
        max_align: 4,
    };
    let mut at = 0;
    if p.fin.prefixed {
        let n = x.u32(0)? as usize;
        if n != d.len() - 4 {
            return Err(format!("size prefix says {n}, {} bytes follow", d.len() - 4));
        }
        x.claim(0, 4, 900_000, "size prefix")?;
        at = 4;
    }
    x.aligned(at, 4, "root offset")?;
    x.points(at, offs[p.fin.root])?;
    x.claim(at, 4, 900_001, "root offset")?;
    if let Some(i) = &p.fin.ident {
        x.equal(at + 4, i.as_bytes(), "file identifier")?;
        x.claim(at + 4, 4, 900_002, "file identifier")?;
    }
    for (i, op) in p.ops.iter().enumerate() {
        let who = i as u32;
        let off = offs[i];
        let r = match op {
            Op::Str(s) => x.string(off, s.as_bytes(), who),
            Op::Bytes(s) => x.string(off, s, who),
            Op::VSc(k, v, _) => {
                let e: Vec<Vec<u8>> = v.iter().map(|s| s.bytes()).collect();
                x.vector(off, size_of_kind(*k), &e, who)
            }
            Op::VSt(k, v, _) => {
                let e: Vec<Vec<u8>> = v.iter().map(|s| s.bytes()).collect();
                x.vector(off, STRUCTS[*k as usize].0, &e, who)
            }
            Op::VStr(v) => (|| {
                let q = x.at(off)?;
                x.aligned(q, 4, "vector of strings")?;
                if x.u32(q)? as usize != v.len() {
                    return Err(format!("{} strings instead of {}", x.u32(q)?, v.len()));
                }
                x.claim(q, 4 + 4 * v.len(), who, "vector of strings")?;
                for (k, s) in v.iter().enumerate() {
                    let e = q + 4 + 4 * k;
                    let t = e + x.u32(e)? as usize;
                    if t > d.len() {
                        return Err("string outside the buffer".to_string());
                    }
                    x.string((d.len() - t) as u32, s.as_bytes(), who)?;
                }
                Ok(())
            })(),
            Op::VOff(v, _) => (|| {
                let q = x.at(off)?;
                x.aligned(q, 4, "vector of offsets")?;
                if x.u32(q)? as usize != v.len() {
                    return Err(format!("{} offsets instead of {}", x.u32(q)?, v.len()));
                }
                x.claim(q, 4 + 4 * v.len(), who, "vector of offsets")?;
                for (k, h) in v.iter().enumerate() {
                    x.points(q + 4 + 4 * k, offs[*h])?;
                }
                Ok(())
            })(),
            Op::Tab(fs) => x.table(off, fs, offs, who),
            Op::Raw(s) => (|| {
                let q = x.at(off)?;
                x.aligned(q, s.size(), "scalar")?;
                x.equal(q, &s.bytes(), "scalar")?;
                x.claim(q, s.size(), who, "scalar")
            })(),
        };
        r.map_err(|e| format!("object {i} ({}): {e}", &format!("{op:?}").chars().take(120).collect::<String>()))?;
    }
    let distinct: BTreeSet<&Vec<u8>> = x.vtables.values().collect();
    if distinct.len() != x.vtables.len() {
        return Err(format!("{} vtables stored for {} different ones", x.vtables.len(), distinct.len()));
    }
    if vtables != x.vtables.len() {
        return Err(format!("num_written_vtables says {vtables}, {} are stored", x.vtables.len()));
    }
    for (i, o) in x.owner.iter().enumerate() {
        if o.is_none() && d[i] != 0 {
            return Err(format!("padding byte {i} is {:#x}", d[i]));
        }
    }
    if d.len() % x.max_align != 0 {
        return Err(format!("length {} is not a multiple of the widest alignment {}", d.len(), x.max_align));
    }
    Ok(x.vtables.len())
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let mut pool = Pool::default();
    let mut b = FB::new_with_capacity(capacity(src));
    let rounds = src.below(4);
    for _ in 0..rounds {
        if src.chance(1, 2) {
            for d in dirty(src, &mut pool, &mut b) {
                ctx.fault(d);
                ctx.ev(|| format!("history: {d}"));
            }
            if let Err(m) = guard(|| b.reset()) {
                return violation("reset:panic", m);
            }
        } else {
            one(src, ctx, &mut pool, &mut b)?;
            b.reset();
            ctx.probe("builder reused after a finished message");
        }
    }
    if !simkit::small() && src.chance(1, 1500) {
        widest(src, ctx, &mut b)?;
    }
    one(src, ctx, &mut pool, &mut b)
}

/// A table as wide as its vtable can describe, or a little wider: that must be
/// refused.
fn widest(src: &mut Src, ctx: &mut Ctx, b: &mut FB) -> RunResult {
    let (fs, size, vlen) = if src.chance(1, 3) {
        let last = 32760 + src.below(6) as u16;
        let mut fs = vec![(last, Field::Sc(Sc { kind: 1, bits: 7 }, None))];
        if src.chance(1, 2) {
            fs.push((0, Field::Sc(Sc { kind: 7, bits: 9 }, None)));
        }
        (fs, 32, 4 + 2 * last as usize + 2)
    } else {
        // 2, 4 and 8 octets wide
        let kind = *src.pick(&[7u8, 5, 3]);
        let w = size_of_kind(kind);
        let n = (65535 - 4) / w - 5 + src.idx(9);
        let n = n.min(32764);
        let skip = if src.chance(1, 3) { src.idx(5).min(32765 - n) } else { 0 };
        let fs = (0..n)
            .map(|i| {
                let v = Sc {
                    kind,
                    bits: (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1,
                };
                ((i + skip) as u16, Field::Sc(v, None))
            })
            .collect();
        (fs, 4 + n * w, 4 + 2 * (n + skip))
    };
    ctx.ev(|| format!("a table of {} fields, {size} bytes or a few more, vtable of {vlen}", fs.len()));
    let op = Op::Tab(fs);
    match guard(|| exec(b, &op, &[])) {
        Err(m) => {
            if size + 24 <= 0xffff && vlen <= 0xffff {
                return violation("wide:refused", format!("a table of {size} bytes, vtable of {vlen}: {m}"));
            }
            ctx.fault("table too wide for a vtable refused");
        }
        Ok(o) => {
            let p = Prog {
                ops: vec![op],
                fin: Fin {
                    root: 0,
                    prefixed: src.chance(1, 3),
                    ident: None,
                },
            };
            let vts = b.num_written_vtables();
            if let Err(m) = guard(|| finish(b, &p.fin, &[o])) {
                return violation("finish:panic", m);
            }
            let d = b.finished_data().to_vec();
            ctx.mark_bytes(&d[d.len() - 64..]);
            ctx.probe("table as wide as a vtable can describe");
            if let Err(e) = decode(&d, &p, &[o], vts) {
                return violation("wide:format", format!("a table of {size} bytes, vtable of {vlen}: {}", e.chars().take(400).collect::<String>()));
            }
        }
    }
    b.reset();
    Ok(())
}

fn one(src: &mut Src, ctx: &mut Ctx, pool: &mut Pool, b: &mut FB) -> RunResult {
    ctx.step();
    let p = gen_prog(src, pool, 14);
    let mut offs = vec![];
    for (i, op) in p.ops.iter().enumerate() {
        ctx.ev(|| format!("operation {i}: {op:?}").chars().take(200).collect());
        match guard(|| exec(b, op, &offs)) {
            Ok(o) => offs.push(o),
            Err(m) => return violation("op:panic", format!("operation {i} {op:?}: {m}")),
        }
    }
    let vts = b.num_written_vtables();
    if let Err(m) = guard(|| finish(b, &p.fin, &offs)) {
        return violation("finish:panic", m);
    }
    let d = b.finished_data().to_vec();
    ctx.mark_bytes(&d);
    ctx.nontrivial = true;
    ctx.ev(|| format!("finished: {:?} {}", p.fin, hex(&d)));
    let n = match decode(&d, &p, &offs, vts) {
        Ok(n) => n,
        Err(e) => return violation("format", format!("{e}; {:?}; bytes {}", p.fin, hex(&d))),
    };
    let tabs = p.ops.iter().filter(|o| matches!(o, Op::Tab(_))).count();
    if n < tabs {
        ctx.probe("vtable shared");
    }
    // readers look where the decoder looked
    let root = d.len() - offs[p.fin.root] as usize;
    let r = guard(|| {
        if p.fin.prefixed {
            butte::get_size_prefixed_root::<butte::Table<&[u8]>, _>(&d[..]).map(|t| t.loc)
        } else {
            butte::get_root::<butte::Table<&[u8]>, _>(&d[..]).map(|t| t.loc)
        }
    });
    if r != Ok(Ok(root)) {
        return violation("root", format!("root read at {r:?}, stored at {root}"));
    }
    if let Some(i) = &p.fin.ident {
        for (id, want) in [(i.as_str(), true), ("ZZZZ", false)] {
            let r = guard(|| butte::buffer_has_identifier(&d, id, p.fin.prefixed));
            if r != Ok(Ok(want)) {
                return violation("identifier", format!("buffer_has_identifier({id:?}) is {r:?}, {want} expected"));
            }
        }
    }
    Ok(())
}
