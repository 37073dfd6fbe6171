//! Builders and readers on several threads. Exactly one thread runs at a time
//! and may be stopped after any basic block of the runtime and of the
//! generated code; the run's seed decides where and who goes on.

use crate::generated::{COUNT, REG};
use crate::sup::*;
use crate::{family, DEATH};
use schema::*;
use simkit::coop::{self, Job, Seam};
use simkit::driver::Prop;
use simkit::{guard, hex, violation, Ctx, RunResult, Src};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 60_000,
    thorough: 6_000_000,
    batch: 1000,
    rule: "a run gives 2-4 threads lists of messages to build with builders of their own, and finished buffers and root objects to read in common; the seed decides after which basic block of the runtime or generated code a thread is stopped and which goes on, and which writer dies; bytes are compared with those of the same program run alone, readings with the reference model; non-trivial: at least one switch between blocks",
    measure: "hash over message bytes, the schedule and injected faults",
    time_unit: "stretches between two switches",
    real: &["butte runtime", "butte-build compiler (schemas to code)", "generated code", "threads (one runs at a time)"],
    stub: &["scheduler"],
    assumptions: &["switches happen between basic blocks and memory is sequentially consistent: effects of weaker memory orders are not seen"],
};

#[derive(Clone)]
struct Build {
    fam: usize,
    ver: usize,
    table: usize,
    val: TVal,
    fin: Fin,
    share: bool,
    choices: Vec<u64>,
    want: Vec<u8>,
    die: Option<u64>,
    reuse: bool,
}

#[derive(Clone)]
struct Shared {
    fam: usize,
    ver: usize,
    table: usize,
    prefixed: bool,
    bytes: Arc<Vec<u8>>,
    want: Obs,
    /// The one root object all threads use.
    root: Option<&'static (dyn Fn(&mut Rd) -> Obs + Sync)>,
}

#[derive(Clone)]
enum Act {
    Build(Build),
    Read { which: usize, mode: u64, how: How, root: bool },
}

/// All of these may be handed to and used from other threads; this does not
/// compile otherwise.
#[allow(dead_code)]
fn free_to_move() {
    fn ok<T: Send + Sync>() {}
    ok::<FB>();
    ok::<butte::Table<&[u8]>>();
    ok::<butte::Table<Vec<u8>>>();
    ok::<butte::Vector<'static, u32>>();
    ok::<butte::Vector<'static, butte::ForwardsUOffset<&'static str>>>();
    ok::<butte::VectorIter<'static, u32>>();
    ok::<butte::WIPOffset<&'static str>>();
    ok::<butte::Error>();
}

fn put(b: &mut FB, a: &Build, die: Option<u64>) -> Result<(), String> {
    let mut plan = Plan::new(Src::from_choices(a.choices.clone()), die, a.share);
    guard(|| (REG[a.fam][a.ver].build)(a.table, b, &a.val, &mut plan, a.fin.clone()))
}

fn look(s: &Shared, mode: u64, how: How, root: bool) -> Result<(), String> {
    let mut rd = Rd::new(&s.bytes, mode);
    let r = match (&s.root, root) {
        (Some(f), true) => guard(|| f(&mut rd)),
        _ => guard(|| (REG[s.fam][s.ver].read)(s.table, &s.bytes, &mut rd, how)),
    };
    let o = r.map_err(|m| format!("reading panics: {m}"))?;
    if let Some(b) = rd.bad {
        return Err(b);
    }
    match differs(&s.want, &o) {
        Some(d) => Err(format!("reading differs at{d}")),
        None => Ok(()),
    }
}

/// One thread's work; the error says what went wrong.
fn work(acts: Vec<Act>, shared: Vec<Shared>, mut keep: Option<FB>, seam: Seam) -> Result<(), String> {
    for (i, a) in acts.iter().enumerate() {
        match a {
            Act::Build(a) => {
                let mut b = match keep.take() {
                    Some(mut b) if a.reuse => {
                        b.reset();
                        b
                    }
                    _ => FB::new(),
                };
                if a.die.is_some() {
                    match put(&mut b, a, a.die) {
                        Err(m) if m.starts_with(DEATH) => {}
                        Err(m) => return Err(format!("step {i}: building panics: {m}")),
                        Ok(()) => {}
                    }
                    b.reset();
                }
                put(&mut b, a, None).map_err(|m| format!("step {i}: building panics: {m}"))?;
                seam.yield_now();
                let got = b.finished_data();
                if got != &a.want[..] {
                    return Err(format!("step {i}: built {}, alone {}", hex(got), hex(&a.want)));
                }
                keep = Some(b);
            }
            Act::Read { which, mode, how, root } => {
                look(&shared[*which], *mode, *how, *root).map_err(|m| format!("step {i}: message {which}: {m}"))?;
            }
        }
        seam.yield_now();
    }
    Ok(())
}

/// Draw a message and build it alone.
fn draw(src: &mut Src, fams: &[(usize, Family)]) -> Result<(Build, Obs), simkit::Violation> {
    let (fam, f) = src.pick(fams);
    let ver = src.idx(f.versions.len());
    let s = &f.versions[ver];
    let tables = s.tables();
    let table = if src.chance(1, 2) { *tables.last().unwrap() } else { *src.pick(&tables) };
    let mut budget = 12;
    let val = gen_table(src, s, table, 3, &mut budget);
    let fin = Fin {
        prefixed: src.chance(1, 4),
        ident: if src.chance(1, 4) { Some("SIM1".into()) } else { None },
    };
    let share = src.chance(1, 3);
    let from = src.log.len();
    let mut plan = Plan::new(std::mem::replace(src, Src::from_choices(vec![])), None, share);
    let mut b = FB::new();
    let r = guard(|| (REG[*fam][ver].build)(table, &mut b, &val, &mut plan, fin.clone()));
    *src = plan.src;
    if let Err(m) = r {
        return violation("build:panic", format!("building a valid value alone failed: {m}"));
    }
    let want = project(s, s, table, &val);
    Ok((
        Build {
            fam: *fam,
            ver,
            table,
            val,
            fin,
            share,
            choices: src.log[from..].to_vec(),
            want: b.finished_data().to_vec(),
            die: None,
            reuse: false,
        },
        want,
    ))
}

fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let mut fams = vec![];
    for _ in 0..1 + src.idx(2) {
        let i = src.idx(COUNT);
        fams.push((i, family(i)));
    }
    let mut shared: Vec<Shared> = vec![];
    for _ in 0..1 + src.idx(2) {
        let (m, want) = draw(src, &fams)?;
        ctx.mark_bytes(&m.want);
        shared.push(Shared {
            fam: m.fam,
            ver: m.ver,
            table: m.table,
            prefixed: m.fin.prefixed,
            bytes: Arc::new(m.want),
            want,
            root: None,
        });
    }
    let n = 2 + src.idx(3);
    let mut lists: Vec<Vec<Act>> = vec![];
    let mut all: Vec<Build> = vec![];
    for _ in 0..n {
        let mut l = vec![];
        for _ in 0..1 + src.idx(3) {
            if src.chance(1, 2) {
                let which = src.idx(shared.len());
                let how = if shared[which].prefixed {
                    How::Prefixed
                } else if src.chance(1, 4) {
                    How::Owned
                } else {
                    How::Slice
                };
                l.push(Act::Read {
                    which,
                    mode: src.below(5),
                    how,
                    root: src.chance(1, 2),
                });
            } else {
                // equal messages on several threads are frequent
                let mut m = if !all.is_empty() && src.chance(1, 2) { src.pick(&all).clone() } else { draw(src, &fams)?.0 };
                m.reuse = src.chance(1, 2);
                m.die = if src.chance(1, 6) { Some(1 + src.below(12)) } else { None };
                if m.die.is_some() {
                    ctx.fault("writer died mid-message");
                }
                ctx.mark_bytes(&m.want);
                all.push(m.clone());
                l.push(Act::Build(m));
            }
        }
        ctx.ev(|| {
            let d: Vec<String> = l
                .iter()
                .map(|a| match a {
                    Act::Build(m) => format!("build f{}v{} table {} ({} bytes)", m.fam, m.ver, m.table, m.want.len()),
                    Act::Read { which, how, root, .. } => format!("read message {which} {how:?}{}", if *root { " through the common object" } else { "" }),
                })
                .collect();
            format!("thread {}: {}", lists.len(), d.join(", "))
        });
        lists.push(l);
    }
    with_roots(src, ctx, shared, 0, &mut |src, ctx, shared| {
        let jobs: Vec<Job<Result<(), String>>> = lists
            .iter()
            .cloned()
            .map(|l| {
                let shared = shared.to_vec();
                // some threads get a builder another thread has used
                let keep = if src.chance(1, 3) && !all.is_empty() {
                    let mut b = FB::new();
                    let a = src.pick(&all);
                    let _ = put(&mut b, a, Some(1 + src.below(9)));
                    ctx.fault("builder with abandoned work handed to a thread");
                    Some(b)
                } else {
                    None
                };
                Box::new(move |seam: Seam| work(l, shared, keep, seam)) as Job<_>
            })
            .collect();
        let mut fine = coop::Fine {
            stops: 4 + src.below(60),
            far: if src.chance(1, 2) { 0 } else { 1 << 13 },
            points: vec![],
        };
        if fine.far == 0 || src.chance(1, 3) {
            let (_, seen) = coop::record(|| {
                for a in &all {
                    let _ = put(&mut FB::new(), a, None);
                }
                for s in shared {
                    let how = if s.prefixed { How::Prefixed } else { How::Slice };
                    let _ = look(s, 0, how, false);
                }
            });
            for _ in 0..if seen.is_empty() { 0 } else { 1 + src.below(8) } {
                fine.points.push(*src.pick(&seen));
            }
        }
        let (res, sched, stops) = coop::run_fine(src, jobs, Some(fine));
        for s in &sched {
            ctx.mark(*s as u64);
            ctx.step();
        }
        if stops > 0 {
            ctx.nontrivial = true;
            ctx.probe("threads switched between two blocks");
        }
        ctx.ev(|| format!("schedule {sched:?}, {stops} switches between blocks"));
        for (i, r) in res.into_iter().enumerate() {
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return violation("thread", format!("thread {i} of {n}, schedule {sched:?}: {m}")),
                Err(_) => return violation("thread:panic", format!("thread {i} of {n} died, schedule {sched:?}")),
            }
        }
        // afterwards all is as before
        for (i, s) in shared.iter().enumerate() {
            for root in [false, true] {
                let how = if s.prefixed { How::Prefixed } else { How::Slice };
                if let Err(m) = look(s, 0, how, root) {
                    return violation("after", format!("after all threads ended, message {i}: {m}"));
                }
            }
        }
        for a in &all {
            let mut b = FB::new();
            if let Err(m) = put(&mut b, a, None) {
                return violation("after:panic", m);
            }
            if b.finished_data() != &a.want[..] {
                return violation("after:bytes", format!("built {} after the threads ended, {} before", hex(b.finished_data()), hex(&a.want)));
            }
        }
        Ok(())
    })
}

/// Open a root object for each message, then go on. All threads are joined
/// before the objects go away.
fn with_roots(
    src: &mut Src,
    ctx: &mut Ctx,
    mut shared: Vec<Shared>,
    at: usize,
    k: &mut dyn FnMut(&mut Src, &mut Ctx, &[Shared]) -> RunResult,
) -> RunResult {
    while at < shared.len() {
        if shared[at].prefixed {
            return with_roots(src, ctx, shared, at + 1, k);
        }
        let s = shared[at].clone();
        let mut out = Ok(());
        (REG[s.fam][s.ver].share)(s.table, &s.bytes, &mut |f| {
            let f: &'static (dyn Fn(&mut Rd) -> Obs + Sync) = unsafe { std::mem::transmute(f) };
            let mut v = std::mem::take(&mut shared);
            v[at].root = Some(f);
            out = with_roots(src, ctx, v, at + 1, k);
        });
        return out;
    }
    k(src, ctx, &shared)
}
