//! C14: hosts of another byte order or word size.
//!
//! A run is a deployment of two hosts: this one and an interpreted one (the
//! same program under Miri, for another target). Both execute the same
//! histories - builders, generated code, cursors, damaged messages - and must
//! write the same bytes and see the same things in them.

use crate::generated::{COUNT, REG, SEED};
use crate::sup::*;
use schema::*;
use simkit::driver::Prop;
use simkit::{guard, hex, violation, Ctx, RunResult, Src};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 220,
    thorough: 20_000,
    batch: 2,
    rule: "a run executes 2-7 histories (builder programs, messages built and read through generated code, cursor operations, damaged messages) on this host and on an interpreted host of another byte order or word size and compares the bytes written and everything seen in them; non-trivial: the interpreted host answered",
    measure: "hash over host, histories, bytes and observations",
    time_unit: "histories executed on both hosts",
    real: &["butte runtime", "butte-build compiler (schemas to code)", "generated code"],
    stub: &["the other host: Miri interpreting the same program for its target"],
    assumptions: &["the interpreter implements its targets rightly", "values stay small", "slices of items wider than an octet exist on little-endian hosts only"],
};

fn family_of(i: usize) -> Rc<Family> {
    thread_local! {
        static F: RefCell<BTreeMap<usize, Rc<Family>>> = RefCell::new(BTreeMap::new());
    }
    F.with(|f| f.borrow_mut().entry(i).or_insert_with(|| Rc::new(nth_family(SEED, i))).clone())
}

/// A message through generated code.
fn message(fam: usize, src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let f = family_of(fam);
    let wv = src.idx(f.versions.len());
    let s = &f.versions[wv];
    let tables = s.tables();
    ctx.step();
    let mut made = vec![];
    for _ in 0..2 {
        let table = if src.chance(1, 2) { *tables.last().unwrap() } else { *src.pick(&tables) };
        let mut budget = 8;
        let val = gen_table(src, s, table, 2, &mut budget);
        let fin = Fin {
            prefixed: src.chance(1, 5),
            ident: if src.chance(1, 4) { Some("SIM1".into()) } else { None },
        };
        let mut b = FB::new_with_capacity(src.size(400) as usize);
        let share = src.chance(1, 3);
        let mut plan = Plan::new(std::mem::replace(src, Src::from_choices(vec![])), None, share);
        let r = guard(|| (REG[fam][wv].build)(table, &mut b, &val, &mut plan, fin.clone()));
        *src = plan.src;
        if let Err(m) = r {
            return violation("build:panic", m);
        }
        let bytes = b.finished_data().to_vec();
        ctx.ev(|| format!("message {}", hex(&bytes)));
        ctx.mark_bytes(&bytes);
        made.push((table, bytes, fin.prefixed));
    }
    let (table, mut bytes, prefixed) = made[0].clone();
    for _ in 0..src.weighted(&[2, 1, 1]) {
        bytes = rt::damage::damage(src, ctx, bytes, &made[1].1);
    }
    ctx.ev(|| format!("read {}", hex(&bytes)));
    ctx.mark_bytes(&bytes);
    let ver = src.idx(f.versions.len());
    let rs = &f.versions[ver];
    let table = if rs.tables().contains(&table) { table } else { rs.tables()[0] };
    let how = if prefixed {
        How::Prefixed
    } else if src.chance(1, 4) {
        How::Owned
    } else {
        How::Slice
    };
    let mut rd = Rd::limited(&bytes, src.below(5));
    match guard(|| (REG[fam][ver].read)(table, &bytes, &mut rd, how)) {
        Err(m) => violation("read:panic", format!("{m}: {}", hex(&bytes))),
        Ok(o) => {
            if let Some(b) = rd.bad {
                return violation("read:contract", format!("{b}: {}", hex(&bytes)));
            }
            let o = format!("{o:?}");
            ctx.ev(|| o.clone());
            ctx.mark_str(&o);
            Ok(())
        }
    }
}

fn history(kind: usize, fam: usize, src: &mut Src, ctx: &mut Ctx) -> RunResult {
    match kind {
        0 => message(fam, src, ctx),
        1 => rt::c12::run(src, ctx),
        2 => rt::c03::portable(src, ctx),
        _ => rt::c09::run(src, ctx),
    }
}

/// Outcome of a history on one host.
fn outcome(kind: usize, fam: usize, src: &mut Src, trace: bool) -> (String, Ctx) {
    let mut ctx = Ctx::new(trace);
    let r = history(kind, fam, src, &mut ctx);
    let class = match r {
        Ok(()) => "ok".to_string(),
        Err(v) => {
            if trace {
                ctx.trace.push(v.detail.clone());
            }
            v.class
        }
    };
    (format!("{:016x} {} {class}", ctx.hash, ctx.steps), ctx)
}

/// The other host: a line of choices in, a line of outcome out.
pub fn host() {
    simkit::install_panic_hook();
    simkit::keep_small();
    // a sign of life for whoever built this
    println!("| READY");
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let mut it = l.split(' ');
        let first = it.next();
        if first == Some("r") {
            let a: Vec<&str> = it.collect();
            println!("{}", strict_read(&a));
            continue;
        }
        let trace = first == Some("t");
        let kind = it.next().unwrap().parse().unwrap();
        let fam = it.next().unwrap().parse().unwrap();
        let choices = it.map(|x| x.parse().unwrap()).collect();
        let (o, t) = outcome(kind, fam, &mut Src::from_choices(choices), trace);
        let mut text = String::new();
        for x in t.trace {
            text.push_str(&format!("| {}\n", x.replace('\n', " ")));
        }
        text.push_str(&o);
        text.push('\n');
        std::io::stdout().write_all(text.as_bytes()).unwrap();
    }
}

/// Bytes made elsewhere, read here: `family version table how mode bytes`.
fn strict_read(a: &[&str]) -> String {
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    let bytes: Vec<u8> = (0..a[5].len() / 2).map(|i| u8::from_str_radix(&a[5][2 * i..2 * i + 2], 16).unwrap()).collect();
    let how = [How::Slice, How::Owned, How::Prefixed][n(3)];
    let r = if n(0) == COUNT {
        guard(|| rt::c03::strict(&bytes, n(4) as u32))
    } else {
        let mut rd = Rd::limited(&bytes, n(4) as u64);
        rd.left = 150;
        guard(|| (REG[n(0)][n(1)].read)(n(2), &bytes, &mut rd, how)).map(|_| rd.bad)
    };
    match r {
        Ok(None) => "ok".into(),
        Ok(Some(b)) => format!("contract {b}"),
        Err(m) => format!("panic {m}").replace('\n', " "),
    }
}

/// Damaged messages read by an interpreter that stops at the first undefined
/// operation (C03).
pub fn strict(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let hosts = hosts();
    let mut lines = String::new();
    let mut what = vec![];
    // the readers of the runtime look at every place: once per run
    let count = 6 + src.idx(10);
    let all = if src.chance(1, 2) { count - 1 } else { count };
    for i in 0..count {
        let mut made = vec![];
        let (to, max) = if i == all {
            for _ in 0..2 {
                made.push(rt::c03::some_message(src)?);
            }
            let left = 1 + src.idx(2);
            (format!("{COUNT} 0 0 0 {left}"), 240)
        } else {
            let fam = src.idx(COUNT);
            let f = crate::family(fam);
            let wv = src.idx(f.versions.len());
            let s = &f.versions[wv];
            let mut table = 0;
            let mut prefixed = false;
            for i in 0..2 {
                let t = *src.pick(&s.tables());
                let mut budget = 8;
                let val = gen_table(src, s, t, 2, &mut budget);
                let fin = Fin {
                    prefixed: src.chance(1, 5),
                    ident: None,
                };
                if i == 0 {
                    table = t;
                    prefixed = fin.prefixed;
                }
                let mut b = FB::new();
                let mut plan = Plan::new(std::mem::replace(src, Src::from_choices(vec![])), None, false);
                let r = guard(|| (REG[fam][wv].build)(t, &mut b, &val, &mut plan, fin));
                *src = plan.src;
                if let Err(m) = r {
                    return violation("build:panic", format!("building a valid value failed: {m}"));
                }
                made.push(b.finished_data().to_vec());
            }
            let ver = src.idx(f.versions.len());
            let rs = &f.versions[ver];
            let table = if rs.tables().contains(&table) { table } else { rs.tables()[0] };
            let how = if prefixed { 2 } else { src.idx(2) };
            (format!("{fam} {ver} {table} {how} {}", src.below(5)), 1200)
        };
        let mut bytes = made[0].clone();
        for _ in 0..1 + src.below(3) {
            bytes = rt::damage::damage(src, ctx, bytes, &made[1]);
        }
        bytes.truncate(max);
        ctx.step();
        ctx.mark_str(&to);
        ctx.mark_bytes(&bytes);
        let l = format!("r {to} {}", bytes.iter().map(|b| format!("{b:02x}")).collect::<String>());
        ctx.ev(|| format!("strict host: {l}"));
        lines.push_str(&l);
        lines.push('\n');
        what.push(l);
    }
    ctx.probe("read on an interpreted host");
    simkit::slow_run();
    let (out, err, _) = ask(&hosts[0].1, &lines);
    let answers: Vec<&str> = out.lines().filter(|l| !l.starts_with("| ")).collect();
    for (i, w) in what.iter().enumerate() {
        match answers.get(i) {
            Some(&"ok") => {}
            Some(a) => return violation("strict:wrong", format!("{w}: {a}")),
            None => {
                let e: Vec<&str> = err.lines().filter(|l| l.starts_with("error")).collect();
                let e = e.join("; ");
                if e.contains("unsupported operation") || e.is_empty() {
                    panic!("the interpreter gave no answer: {err}");
                }
                return violation("strict:undefined", format!("{w}: {e}"));
            }
        }
    }
    Ok(())
}

/// (name, program and arguments that start it)
fn hosts() -> Vec<(String, Vec<String>)> {
    let v = std::env::var("SIM_HOSTS").expect("SIM_HOSTS");
    v.split(';')
        .map(|h| {
            let mut p = h.split(' ').map(|x| x.to_string());
            (p.next().unwrap(), p.collect())
        })
        .collect()
}

fn ask(cmd: &[String], lines: &str) -> (String, String, bool) {
    use std::process::{Command, Stdio};
    let mut c = Command::new(&cmd[0])
        .args(&cmd[1..])
        .arg("host")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("the interpreter does not start");
    let mut i = c.stdin.take().unwrap();
    let l = lines.to_string();
    let t = std::thread::spawn(move || {
        let _ = i.write_all(l.as_bytes());
    });
    let o = c.wait_with_output().expect("the interpreter");
    let _ = t.join();
    (
        String::from_utf8_lossy(&o.stdout).into_owned(),
        String::from_utf8_lossy(&o.stderr).into_owned(),
        o.status.success(),
    )
}

fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    simkit::keep_small();
    let hosts = hosts();
    let h = src.idx(hosts.len());
    let (name, cmd) = &hosts[h];
    ctx.mark(h as u64);
    ctx.probe(&format!("other host is {name}"));
    // drawing a family is the dear part over there: one for the whole run,
    // and rarely the wide one
    let fam = match src.below(12) {
        11 => 1,
        k => [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11].into_iter().filter(|f| *f < COUNT).cycle().nth(k as usize).unwrap_or(0),
    };
    let n = 2 + src.idx(6);
    let mut lines = String::new();
    let mut mine = vec![];
    for _ in 0..n {
        let kind = src.weighted(&[8, 7, 3, 2]);
        let from = src.log.len();
        let (o, t) = outcome(kind, fam, src, ctx.trace_on);
        lines.push_str(if ctx.trace_on { "t " } else { "f " });
        lines.push_str(&format!("{kind} {fam}"));
        for c in &src.log[from..] {
            lines.push_str(&format!(" {c}"));
        }
        lines.push('\n');
        ctx.mark_str(&o);
        ctx.step();
        for (k, v) in &t.faults {
            *ctx.faults.entry(k.clone()).or_insert(0) += v;
        }
        mine.push((kind, o, t.trace));
    }
    let (out, err, ok) = ask(cmd, &lines);
    let mut theirs = vec![];
    let mut trace = vec![];
    for l in out.lines() {
        match l.strip_prefix("| ") {
            Some("READY") => {}
            Some(t) => trace.push(t.to_string()),
            None => theirs.push((l.to_string(), std::mem::take(&mut trace))),
        }
    }
    for (i, (kind, o, t)) in mine.iter().enumerate() {
        let what = ["a message through generated code", "builder history", "damaged message", "cursor history"][*kind];
        let Some((p, u)) = theirs.get(i) else {
            let e: Vec<&str> = err.lines().filter(|l| l.starts_with("error")).collect();
            let e = e.join("; ");
            if e.contains("unsupported operation") || e.is_empty() && ok {
                panic!("the interpreter gave no answer: {err}");
            }
            return violation("host:died", format!("{what}: host {name} died: {e}"));
        };
        ctx.ev(|| format!("{what}: here {o}, on {name} {p}"));
        if o != p {
            let mut d = String::new();
            for (a, b) in t.iter().zip(u) {
                if a != b {
                    d = format!(": here {a:?}, there {b:?}");
                    break;
                }
            }
            if d.is_empty() && t.len() != u.len() {
                d = format!(": then {:?} / {:?}", t.get(u.len()), u.get(t.len()));
            }
            let class = p.split(' ').nth(2).unwrap_or("");
            return violation(format!("differs:{kind}:{class}"), format!("{what}: here {o}, on {name} {p}{}", d.chars().take(1500).collect::<String>()));
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
