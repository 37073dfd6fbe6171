//! A simulated deployment: nodes that build messages with generated code, a
//! network and stores that carry them, and nodes that read them.

#[cfg(not(blocks))]
mod c14;
#[cfg(blocks)]
mod c17;
mod sup;

#[allow(warnings)]
mod generated {
    pub use crate::sup::Ver;
    include!(concat!(env!("SIM_GEN"), "/all.rs"));
}

use generated::{COUNT, REG, SEED};
use schema::*;
use simkit::driver::{self, Prop};
use simkit::{guard, hex, mem::Fence, violation, Ctx, RunResult, Src, Violation};
use std::cell::RefCell;
use std::collections::BTreeMap;
use sup::*;

thread_local! {
    static FAMS: RefCell<Vec<Option<Family>>> = RefCell::new(vec![None; COUNT]);
    static ARENA: RefCell<(Fence, Fence)> = RefCell::new((Fence::new(64), Fence::new(64)));
}

fn family(i: usize) -> Family {
    FAMS.with(|f| f.borrow_mut()[i].get_or_insert_with(|| nth_family(SEED, i)).clone())
}

struct Msg {
    id: usize,
    ver: usize,
    table: usize,
    val: TVal,
    bytes: Vec<u8>,
    fin: Fin,
}

enum Ev {
    Produce(usize),
    Deliver { msg: usize, to: usize, hops: u32 },
    /// Read everything the node stored.
    Recall(usize),
    Crash(usize),
    Restart(usize),
    Upgrade(usize),
    Cut,
    Heal,
}

struct Node {
    ver: usize,
    up: bool,
    builder: Option<FB>,
    /// Durable: message ids with the bytes as they were received.
    store: Vec<(usize, Vec<u8>)>,
    /// Arrived while the node was down; redelivered after restart.
    missed: Vec<usize>,
}

/// Run `f` on a copy of `bytes` placed `shift` bytes past a 16-byte boundary,
/// surrounded by `fill`.
fn placed<R>(bytes: &[u8], shift: usize, fill: u8, f: impl FnOnce(&[u8]) -> R) -> R {
    let mut arena: Vec<u8> = vec![fill; bytes.len() + 64];
    let base = arena.as_ptr() as usize;
    let at = (16 - base % 16) % 16 + 16 + shift;
    arena[at..at + bytes.len()].copy_from_slice(bytes);
    f(&arena[at..at + bytes.len()])
}

struct Sim<'a> {
    fam: usize,
    schemas: Vec<Schema>,
    msgs: Vec<Msg>,
    nodes: Vec<Node>,
    queue: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    now: u64,
    cut: Option<Vec<bool>>,
    reads: u64,
    delivered: Vec<Vec<bool>>,
    ctx: &'a mut Ctx,
}

impl<'a> Sim<'a> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.queue.insert((t, self.seq), e);
    }

    /// A node builds one message.
    fn produce(&mut self, src: &mut Src, n: usize) -> RunResult {
        let ver = self.nodes[n].ver;
        let s = self.schemas[ver].clone();
        let reg = &REG[self.fam][ver];
        // a message is of a type every version knows
        let tables = self.schemas[0].tables();
        // lean towards the last table, which refers to the others
        let table = if src.chance(1, 2) { *tables.last().unwrap() } else { *src.pick(&tables) };
        let mut budget = 20;
        let val = gen_table(src, &s, table, 3, &mut budget);
        let fin = Fin {
            prefixed: src.chance(1, 4),
            ident: if src.chance(1, 4) { Some("SIM1".into()) } else { None },
        };
        // where the builder comes from
        let kind = src.weighted(&[3, 2, 6, 4]);
        let mut b = match kind {
            0 => FB::new(),
            1 => {
                let cap = match src.below(3) {
                    0 => 1 + src.below(8),
                    1 => src.below(300),
                    _ => 1 << src.below(13),
                };
                FB::new_with_capacity(cap as usize)
            }
            _ => {
                let mut b = self.nodes[n].builder.take().unwrap_or_default();
                guard(|| b.reset()).map_err(|m| Violation {
                    class: "reset:panic".into(),
                    detail: m,
                })?;
                b
            }
        };
        if kind == 3 {
            // work that is abandoned half way: the writer of it dies
            let lose = *src.pick(&tables);
            let mut budget = 10;
            let junk = gen_table(src, &s, lose, 2, &mut budget);
            let die = 1 + src.below(12);
            let mut plan = Plan::new(std::mem::replace(src, Src::from_choices(vec![])), Some(die), false);
            let r = guard(|| (reg.build_loose)(lose, &mut b, &junk, &mut plan));
            *src = plan.src;
            match r {
                Err(m) if m.starts_with(DEATH) => self.ctx.fault("writer died mid-message"),
                Err(m) => return violation("build:panic", format!("building failed: {m}")),
                Ok(()) => {}
            }
            if let Err(m) = guard(|| b.reset()) {
                return violation("reset:panic", m);
            }
        }
        let share = src.chance(1, 3);
        // other values in the same buffer
        let loose = src.weighted(&[5, 1, 1]);
        let mut plan = Plan::new(std::mem::replace(src, Src::from_choices(vec![])), None, share);
        let r = guard(|| {
            for _ in 0..loose {
                let t = *plan.src.pick(&tables);
                let mut budget = 4;
                let junk = gen_table(&mut plan.src, &s, t, 1, &mut budget);
                (reg.build_loose)(t, &mut b, &junk, &mut plan);
            }
            (reg.build)(table, &mut b, &val, &mut plan, fin.clone());
        });
        *src = plan.src;
        if loose > 0 {
            self.ctx.probe("unreferenced values in the buffer");
        }
        if let Err(m) = r {
            return violation("build:panic", format!("building a valid value failed: {m}"));
        }
        let bytes = b.finished_data().to_vec();
        if src.chance(1, 8) {
            // the owned form of the same bytes
            let (v, head) = b.clone().collapse();
            if v[head..] != bytes[..] {
                return violation("collapse", "collapse gives other bytes than finished_data");
            }
        }
        self.nodes[n].builder = Some(b);
        let id = self.msgs.len();
        self.ctx.mark_bytes(&bytes);
        self.ctx.ev(|| format!("t={} node {n} (v{ver}) builds message {id}: table {} {} bytes{}", self.now, s.full_name(table), bytes.len(), if fin.prefixed { ", size-prefixed" } else { "" }));
        self.msgs.push(Msg {
            id,
            ver,
            table,
            val,
            bytes,
            fin,
        });
        let mut d = vec![false; self.nodes.len()];
        d[n] = true;
        self.delivered.push(d);
        // the writer's own copy
        let bytes = self.msgs[id].bytes.clone();
        self.nodes[n].store.push((id, bytes));
        for to in 0..self.nodes.len() {
            if to == n {
                continue;
            }
            self.send(src, id, to, 0);
        }
        Ok(())
    }

    fn send(&mut self, src: &mut Src, msg: usize, to: usize, hops: u32) {
        let mut t = self.now + 1 + src.below(20);
        if src.chance(1, 6) {
            self.ctx.fault("message delayed");
            t += src.below(200);
        }
        if src.chance(1, 8) {
            self.ctx.fault("message lost (sent again later)");
            t += 150;
        }
        if src.chance(1, 8) {
            self.ctx.fault("message duplicated");
            let t2 = self.now + 1 + src.below(100);
            self.at(t2, Ev::Deliver { msg, to, hops });
        }
        self.at(t, Ev::Deliver { msg, to, hops });
    }

    /// A node reads the bytes of message `id`.
    fn read(&mut self, src: &mut Src, n: usize, id: usize, bytes: &[u8], what: &str) -> RunResult {
        let ver = self.nodes[n].ver;
        let m = &self.msgs[id];
        let want = project(&self.schemas[m.ver], &self.schemas[ver], m.table, &m.val);
        let shift = if src.chance(1, 3) { src.idx(16) } else { 0 };
        let how = if m.fin.prefixed {
            How::Prefixed
        } else if src.chance(1, 4) {
            How::Owned
        } else {
            How::Slice
        };
        let mode = src.below(5);
        let fill = *src.pick(&[0u8, 0xff, 0x5a]);
        let table = m.table;
        let f = REG[self.fam][ver].read;
        let r = placed(bytes, shift, fill, |buf| {
            let mut rd = Rd::new(buf, mode);
            let r = guard(|| f(table, buf, &mut rd, how));
            (r, rd.bad, rd.calls)
        });
        self.reads += 1;
        if m.ver != ver {
            self.ctx.probe(if m.ver < ver { "older message read by newer node" } else { "newer message read by older node" });
        }
        if shift != 0 {
            self.ctx.probe("buffer at an odd address");
        }
        let desc = || {
            format!(
                "family {} {what}: message {id} written on v{} read on v{ver} ({how:?}, offset {shift}), table {}",
                self.fam,
                m.ver,
                self.schemas[ver].full_name(table)
            )
        };
        let (got, bad) = match r {
            (Err(p), _, _) => return violation("read:panic", format!("{}: panic: {p}", desc())),
            (Ok(o), bad, _) => (o, bad),
        };
        if let Some(b) = bad {
            return violation("read:contract", format!("{}: {b}", desc()));
        }
        if let Some(d) = differs(&want, &got) {
            return violation("read:differs", format!("{}: at{d}; bytes {}", desc(), hex(bytes)));
        }
        if want.has_err() {
            self.ctx.probe("accessor error expected and seen");
        }
        self.ctx.mark(mode + 8 * shift as u64);
        Ok(())
    }

    fn reachable(&self, a: usize, b: usize) -> bool {
        match &self.cut {
            Some(side) => side[a] == side[b],
            None => true,
        }
    }
}

/// Enum numbers and names are part of what other readers rely on.
fn check_numbers(fam: usize, ver: usize, s: &Schema) -> RunResult {
    for (i, d) in s.types.iter().enumerate() {
        if let Kind::Enum(_, _, vs) = &d.kind {
            let got = match guard(|| (REG[fam][ver].numbers)(i)) {
                Ok(g) => g,
                Err(m) => return violation("enum:panic", m),
            };
            for (v, (num, back, name)) in vs.iter().zip(&got) {
                let same = *name == v.name || name.trim_end_matches('_') == v.name || (v.name == "type" && *name == "ty");
                if *num != v.value || *back != Some(true) || !same {
                    return violation(
                        "enum:number",
                        format!(
                            "family {fam} v{ver}: {}.{} declared as {}, generated as {num} (decodes back: {back:?}, name {name:?})",
                            s.full_name(i),
                            v.name,
                            v.value
                        ),
                    );
                }
            }
        }
    }
    Ok(())
}

fn deployment(src: &mut Src, ctx: &mut Ctx, mixed: bool) -> RunResult {
    let fam = src.idx(COUNT);
    let f = family(fam);
    let nv = f.versions.len();
    let nn = 2 + src.idx(3);
    let base = if mixed { 0 } else { src.idx(nv) };
    for (v, s) in f.versions.iter().enumerate() {
        if mixed || v == base {
            check_numbers(fam, v, s)?;
        }
    }
    ctx.mark(fam as u64);
    let mut sim = Sim {
        fam,
        schemas: f.versions,
        msgs: vec![],
        nodes: (0..nn)
            .map(|_| Node {
                ver: base,
                up: true,
                builder: None,
                store: vec![],
                missed: vec![],
            })
            .collect(),
        queue: BTreeMap::new(),
        seq: 0,
        now: 0,
        cut: None,
        reads: 0,
        delivered: vec![],
        ctx,
    };
    if mixed {
        for n in &mut sim.nodes {
            n.ver = src.idx(nv);
        }
    }
    let msgs = 2 + src.idx(5);
    for _ in 0..msgs {
        let t = src.below(100);
        let n = src.idx(nn);
        sim.at(t, Ev::Produce(n));
    }
    for _ in 0..src.below(3) {
        let t = 10 + src.below(150);
        let n = src.idx(nn);
        sim.at(t, Ev::Crash(n));
    }
    if src.chance(1, 3) {
        let t = src.below(100);
        sim.at(t, Ev::Cut);
        let d = 1 + src.below(100);
        sim.at(t + d, Ev::Heal);
    }
    if mixed {
        for _ in 0..1 + src.below(4) {
            let t = src.below(200);
            let n = src.idx(nn);
            sim.at(t, Ev::Upgrade(n));
        }
    }
    for _ in 0..1 + src.below(3) {
        let t = 50 + src.below(300);
        let n = src.idx(nn);
        sim.at(t, Ev::Recall(n));
    }
    // every node looks at everything it has once things are quiet
    for n in 0..nn {
        sim.at(100_000 + n as u64, Ev::Recall(n));
    }
    let mut events = 0u64;
    while let Some((&k, _)) = sim.queue.iter().next() {
        let e = sim.queue.remove(&k).unwrap();
        sim.now = k.0;
        events += 1;
        sim.ctx.step();
        if events > 5000 {
            return violation("liveness", "the deployment did not become quiet");
        }
        match e {
            Ev::Produce(n) => {
                if sim.nodes[n].up {
                    sim.produce(src, n)?;
                } else {
                    let t = sim.now + 60;
                    sim.at(t, Ev::Produce(n));
                }
            }
            Ev::Deliver { msg, to, hops } => {
                let from = sim.delivered[msg].iter().position(|d| *d).unwrap_or(0);
                if !sim.reachable(from, to) {
                    sim.ctx.fault("message held up by a partition");
                    let t = sim.now + 40;
                    sim.at(t, Ev::Deliver { msg, to, hops });
                    continue;
                }
                if !sim.nodes[to].up {
                    sim.ctx.fault("message arrived at a stopped node");
                    sim.nodes[to].missed.push(msg);
                    continue;
                }
                let bytes = sim.msgs[msg].bytes.clone();
                sim.ctx.mark((to * 1000 + msg) as u64);
                let m = &sim.msgs[msg];
                let (mid, mv) = (m.id, m.ver);
                let (now, ver) = (sim.now, sim.nodes[to].ver);
                sim.ctx.ev(|| format!("t={now} node {to} (v{ver}) receives message {mid} (v{mv}) after {hops} relays"));
                sim.read(src, to, msg, &bytes, "on arrival")?;
                sim.delivered[msg][to] = true;
                if !sim.nodes[to].store.iter().any(|(i, _)| *i == msg) {
                    sim.nodes[to].store.push((msg, bytes));
                }
                if hops < 2 && src.chance(1, 6) {
                    let next = src.idx(nn);
                    if next != to {
                        sim.ctx.fault("message relayed by another node");
                        sim.send(src, msg, next, hops + 1);
                    }
                }
            }
            Ev::Recall(n) => {
                if !sim.nodes[n].up {
                    let t = sim.now + 50;
                    sim.at(t, Ev::Recall(n));
                    continue;
                }
                let (now, ver) = (sim.now, sim.nodes[n].ver);
                sim.ctx.ev(|| format!("t={now} node {n} (v{ver}) reads its store"));
                for i in 0..sim.nodes[n].store.len() {
                    let (id, bytes) = sim.nodes[n].store[i].clone();
                    sim.read(src, n, id, &bytes, "from the store")?;
                }
            }
            Ev::Crash(n) => {
                if sim.nodes[n].up {
                    sim.ctx.fault("node crashed");
                    let now = sim.now;
                    sim.ctx.ev(|| format!("t={now} node {n} crashes"));
                    sim.nodes[n].up = false;
                    sim.nodes[n].builder = None;
                    let t = sim.now + 1 + src.below(100);
                    sim.at(t, Ev::Restart(n));
                }
            }
            Ev::Restart(n) => {
                sim.nodes[n].up = true;
                if mixed && src.chance(1, 2) {
                    sim.nodes[n].ver = src.idx(nv);
                    sim.ctx.fault("node restarted on another version");
                }
                let (now, ver) = (sim.now, sim.nodes[n].ver);
                sim.ctx.ev(|| format!("t={now} node {n} restarts on v{ver}"));
                for m in std::mem::take(&mut sim.nodes[n].missed) {
                    sim.send(src, m, n, 0);
                }
                let t = sim.now + 1;
                sim.at(t, Ev::Recall(n));
            }
            Ev::Upgrade(n) => {
                let v = src.idx(nv);
                let (now, old) = (sim.now, sim.nodes[n].ver);
                if v != old {
                    sim.ctx.fault(if v > old { "node upgraded" } else { "node downgraded" });
                }
                sim.nodes[n].ver = v;
                sim.ctx.ev(|| format!("t={now} node {n} moves from v{old} to v{v}"));
            }
            Ev::Cut => {
                let side: Vec<bool> = (0..nn).map(|_| src.chance(1, 2)).collect();
                sim.cut = Some(side);
                let now = sim.now;
                sim.ctx.ev(|| format!("t={now} network partitioned"));
            }
            Ev::Heal => {
                sim.cut = None;
                let now = sim.now;
                sim.ctx.ev(|| format!("t={now} network healed"));
            }
        }
    }
    for (i, d) in sim.delivered.iter().enumerate() {
        if d.iter().any(|x| !x) {
            return violation("liveness", format!("message {i} never reached every node"));
        }
    }
    let r = sim.reads;
    sim.ctx.nontrivial |= r > 0;
    Ok(())
}

fn c01(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    deployment(src, ctx, false)
}

fn c04(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    deployment(src, ctx, true)
}

fn c03(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    match src.below(6000) {
        #[cfg(not(blocks))]
        5999 if std::env::var_os("SIM_HOSTS").is_some() => return c14::strict(src, ctx),
        k if k >= 4000 => return rt::c03::run(src, ctx),
        _ => {}
    }
    let fam = src.idx(COUNT);
    let f = family(fam);
    let wv = src.idx(f.versions.len());
    let s = &f.versions[wv];
    let tables = s.tables();
    let mut made: Vec<(usize, Vec<u8>, bool)> = vec![];
    for _ in 0..2 {
        let table = if src.chance(1, 2) { *tables.last().unwrap() } else { *src.pick(&tables) };
        let mut budget = 12;
        let val = gen_table(src, s, table, 3, &mut budget);
        let fin = Fin {
            prefixed: src.chance(1, 5),
            ident: None,
        };
        let mut b = FB::new();
        let mut plan = Plan::new(std::mem::replace(src, Src::from_choices(vec![])), None, false);
        let r = guard(|| (REG[fam][wv].build)(table, &mut b, &val, &mut plan, fin.clone()));
        *src = plan.src;
        if let Err(m) = r {
            return violation("build:panic", format!("building a valid value failed: {m}"));
        }
        made.push((table, b.finished_data().to_vec(), fin.prefixed));
    }
    let (table, bytes, prefixed) = made[0].clone();
    ctx.mark(fam as u64);
    let rounds = 1 + src.below(3);
    let mut bytes = bytes;
    for _ in 0..rounds {
        bytes = rt::damage::damage(src, ctx, bytes, &made[1].1);
    }
    if bytes.len() > 60 * 4096 {
        bytes.truncate(60 * 4096);
    }
    ctx.mark_bytes(&bytes);
    for _ in 0..1 + src.below(3) {
        ctx.step();
        let ver = src.idx(f.versions.len());
        let rs = &f.versions[ver];
        let as_table = if src.chance(1, 5) { *src.pick(&rs.tables()) } else { table };
        let as_table = if rs.tables().contains(&as_table) { as_table } else { rs.tables()[0] };
        let how = if prefixed && src.chance(3, 4) || src.chance(1, 8) { How::Prefixed } else { How::Slice };
        let mode = src.below(5);
        ctx.ev(|| format!("read {} bytes as {} (v{ver}, {how:?}): {}", bytes.len(), rs.full_name(as_table), hex(&bytes)));
        let f = REG[fam][ver].read;
        let desc = |w: &str| {
            format!(
                "family {fam}: {} damaged bytes read as {} on v{ver} ({how:?}, {w}): {}",
                bytes.len(),
                rs.full_name(as_table),
                hex(&bytes)
            )
        };
        let shift = src.idx(16);
        let mut seen: Vec<(&str, Obs)> = vec![];
        ARENA.with(|a| -> RunResult {
            let mut a = a.borrow_mut();
            for w in 0..4 {
                let (name, r, bad) = match w {
                    0 => {
                        let buf = a.0.at_end(&bytes, 0x00);
                        let mut rd = Rd::limited(buf, mode);
                        let r = guard(|| f(as_table, buf, &mut rd, how));
                        ("end of memory", r, rd.bad)
                    }
                    1 => {
                        let buf = a.1.at_start(&bytes, shift, 0xff);
                        let mut rd = Rd::limited(buf, mode);
                        let r = guard(|| f(as_table, buf, &mut rd, how));
                        ("shifted", r, rd.bad)
                    }
                    2 => {
                        let buf = a.1.at_start(&bytes, 0, 0x00);
                        let mut rd = Rd::limited(buf, mode);
                        let r = guard(|| f(as_table, buf, &mut rd, how));
                        ("start of memory", r, rd.bad)
                    }
                    _ => {
                        if how == How::Prefixed {
                            continue;
                        }
                        let mut rd = Rd::limited(&bytes, mode);
                        let r = guard(|| f(as_table, &bytes, &mut rd, How::Owned));
                        ("owned copy", r, rd.bad)
                    }
                };
                let o = match r {
                    Err(m) => return violation("damaged:panic", format!("{}: panic: {m}", desc(name))),
                    Ok(o) => o,
                };
                if let Some(b) = bad {
                    return violation("damaged:contract", format!("{}: {b}", desc(name)));
                }
                if o.has_err() {
                    ctx.probe("error reported for damaged bytes");
                }
                seen.push((name, o));
            }
            Ok(())
        })?;
        for i in 1..seen.len() {
            if let Some(d) = differs(&seen[0].1, &seen[i].1) {
                return violation(
                    "damaged:placement",
                    format!("{}: differs from reading at {} at{d}", desc(seen[i].0), seen[0].0),
                );
            }
        }
    }
    Ok(())
}

pub fn main() {
    #[cfg(not(blocks))]
    if std::env::args().nth(1).as_deref() == Some("host") {
        return c14::host();
    }
    #[cfg(blocks)]
    driver::main(&[c17::PROP]);
    #[cfg(not(blocks))]
    driver::main(&[
        c14::PROP,
        Prop {
            id: "C01",
            run: c01,
            quick: 120_000,
            thorough: 15_000_000,
            batch: 2000,
            rule: "a run draws a schema family (one with every kind of field, the others random), 2-4 nodes on one version, values, builder histories, and a schedule of deliveries, crashes, partitions and store reads; non-trivial: at least one message was read back through generated accessors",
            measure: "hash over message bytes, delivery order, read placement and injected faults",
            time_unit: "events of the simulated deployment",
            real: &["butte runtime", "butte-build compiler (schemas to code)", "generated code"],
            stub: &["network", "durable store", "processes (nodes share one process)", "clock"],
            assumptions: &["schemas and values are drawn from the generator's subset", "the reference model of expected readings is right"],
        },
        Prop {
            id: "C03",
            run: c03,
            quick: 400_000,
            thorough: 50_000_000,
            batch: 5000,
            rule: "a run builds a message through generated code, damages it 1-3 times (truncate, tear, flip, zero, splice, shift, junk), and reads every accessor at four placements incl. against inaccessible pages - one run in 6000 instead has 6-15 messages read by Miri, which stops at the first undefined operation - one run in three does the same with the readers of the runtime itself; every run is non-trivial as damage fired",
            measure: "hash over the damaged bytes and the damage applied",
            time_unit: "complete reads of a damaged buffer",
            real: &["butte runtime", "butte-build compiler", "generated code"],
            stub: &["network and disk that damage the bytes", "memory placement"],
            assumptions: &["reading stops at a depth of 7 and 1500 values", "undefined behaviour that has no visible effect is seen only in the runs that are interpreted, and for misaligned access, which the debug build reports"],
        },
        Prop {
            id: "C04",
            run: c04,
            quick: 120_000,
            thorough: 15_000_000,
            batch: 2000,
            rule: "as C01, with every node on its own schema version, upgrades and downgrades at any time and restarts on other versions; non-trivial: at least one message was read back",
            measure: "hash over message bytes, delivery order, read placement and injected faults",
            time_unit: "events of the simulated deployment",
            real: &["butte runtime", "butte-build compiler (schemas to code)", "generated code of every version"],
            stub: &["network", "durable store", "processes (nodes share one process)", "clock"],
            assumptions: &["schemas and values are drawn from the generator's subset", "the reference model of expected readings is right"],
        },
    ])
}
