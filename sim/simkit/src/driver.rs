//! Batch search, minimisation, replay and evidence.

use crate::{guard, install_panic_hook, json::obj, mix, Ctx, RunResult, Src, Violation, J};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
#[cfg(target_has_atomic = "64")]
use std::sync::atomic::AtomicU64;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> RunResult,
    pub quick: u64,
    pub thorough: u64,
    pub batch: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub time_unit: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<String> {
        self.0
            .iter()
            .position(|a| a == k)
            .and_then(|i| self.0.get(i + 1).cloned())
    }
    fn u64(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    fn has(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
}

fn run_seed(prop: &Prop, seed: u64, idx: u64) -> u64 {
    let mut p: u64 = 0;
    for b in prop.id.bytes() {
        p = p * 257 + b as u64;
    }
    mix(&[p, seed, idx])
}

enum Outcome {
    Ok,
    Violated(Violation),
    Harness(String),
}

fn execute(prop: &Prop, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match guard(|| (prop.run)(src, ctx)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(v)) => Outcome::Violated(v),
        Err(m) => Outcome::Harness(m),
    }
}

/// A known finding suppresses only a violation whose class is listed exactly.
fn known_list(path: Option<String>) -> Vec<(String, String, String)> {
    let mut out = vec![];
    if let Some(p) = path {
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                // known: property=C01 class=<class> what fails
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut it = r.splitn(3, ' ');
                    let id = it.next().unwrap_or("").to_string();
                    let class = it.next().unwrap_or("").trim_start_matches("class=").to_string();
                    let what = it.next().unwrap_or("").to_string();
                    out.push((id, class, what));
                }
            }
        }
    }
    out
}

/// Entry point of a simulator binary.
pub fn main(props: &[Prop]) -> ! {
    let args = Args(std::env::args().skip(1).collect());
    let mode = args.0.first().cloned().unwrap_or_default();
    let pid = args.get("--prop").unwrap_or_default();
    let prop = match props.iter().find(|p| p.id == pid) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {pid:?}");
            std::process::exit(2)
        }
    };
    let code = match mode.as_str() {
        "worker" => worker(prop, &args),
        "one" => one(prop, &args),
        "run" => master(prop, &args),
        "replay" => replay(prop, &args),
        _ => {
            eprintln!("usage: run|worker|one|replay --prop ID ...");
            2
        }
    };
    std::process::exit(code)
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// Runs that need gigabytes each: few at once.
fn gigabytes(prop: &Prop) -> bool {
    prop.id == "C15"
}

/// Bound the memory of a process that runs code under test.
fn limit_memory(prop: &Prop) {
    let gib = if gigabytes(prop) { 9u64 } else { 12 };
    let lim = [gib << 30, gib << 30];
    unsafe {
        setrlimit(9, &lim); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // no core files
    }
}

/// For interpreted hosts without wide atomics; they never get here.
#[cfg(not(target_has_atomic = "64"))]
struct AtomicU64(Mutex<u64>);
#[cfg(not(target_has_atomic = "64"))]
impl AtomicU64 {
    const fn new(v: u64) -> Self {
        AtomicU64(Mutex::new(v))
    }
    fn load(&self, _: Ordering) -> u64 {
        *self.0.lock().unwrap()
    }
    fn store(&self, v: u64, _: Ordering) {
        *self.0.lock().unwrap() = v
    }
    fn fetch_add(&self, v: u64, _: Ordering) -> u64 {
        let mut g = self.0.lock().unwrap();
        *g += v;
        *g - v
    }
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static SLOW: AtomicU64 = AtomicU64::new(u64::MAX);

/// The current run waits for an interpreter: it may take four times the limit.
pub fn slow_run() {
    SLOW.store(CURRENT.load(Ordering::SeqCst), Ordering::SeqCst);
}

/// End the process when one run takes longer than `limit`: that run hangs.
fn watchdog(limit: Duration) {
    std::thread::spawn(move || {
        let mut seen = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let c = CURRENT.load(Ordering::SeqCst);
            if c != seen {
                seen = c;
                since = Instant::now();
            } else if c != u64::MAX && since.elapsed() > limit * if SLOW.load(Ordering::SeqCst) == c { 4 } else { 1 } {
                println!("HANG {c}");
                let _ = std::io::stdout().flush();
                std::process::exit(97);
            }
        }
    });
}

/// Runs that talk to an interpreter: slow.
fn interpreted(prop: &Prop) -> bool {
    prop.id == "C14"
}

fn run_limit(prop: &Prop, args: &Args) -> Duration {
    Duration::from_secs(args.u64("--run-limit", if interpreted(prop) { 150 } else { 40 }))
}

fn worker(prop: &Prop, args: &Args) -> i32 {
    install_panic_hook();
    limit_memory(prop);
    watchdog(run_limit(prop, args));
    let seed = args.u64("--seed", 1);
    let from = args.u64("--from", 0);
    let count = args.u64("--count", 1);
    let careful = args.has("--careful");
    let samples = args.u64("--samples", 0);
    let known = known_list(args.get("--known"));
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut steps = 0u64;
    let mut runs = 0u64;
    let mut hashes = String::new();
    let mut sample_out = vec![];
    let mut found = J::Null;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut all_hash = 0u64;
    for idx in from..from + count {
        CURRENT.store(idx, Ordering::SeqCst);
        if careful {
            println!("@{idx}");
            let _ = std::io::stdout().flush();
        }
        let mut src = Src::from_seed(run_seed(prop, seed, idx));
        let mut ctx = Ctx::new(runs < samples);
        let r = execute(prop, &mut src, &mut ctx);
        runs += 1;
        steps += ctx.steps;
        for (k, v) in &ctx.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &ctx.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        all_hash = all_hash.rotate_left(7) ^ ctx.hash ^ (src.log.len() as u64);
        if ctx.nontrivial {
            hashes.push_str(&format!("{:016x}", ctx.hash));
        }
        if ctx.trace_on {
            let mut t = ctx.trace.clone();
            t.truncate(40);
            sample_out.push(obj(vec![
                ("run", J::U(idx)),
                ("draws", J::U(src.log.len() as u64)),
                ("trace", J::from(t)),
            ]));
        }
        match r {
            Outcome::Ok => {}
            Outcome::Violated(v) => {
                if known.iter().any(|(p, c, _)| p == prop.id && *c == v.class) {
                    *known_hits.entry(v.class.clone()).or_insert(0) += 1;
                    continue;
                }
                found = obj(vec![
                    ("kind", "violation".into()),
                    ("run", J::U(idx)),
                    ("class", v.class.into()),
                    ("detail", v.detail.into()),
                ]);
                break;
            }
            Outcome::Harness(m) => {
                found = obj(vec![
                    ("kind", "harness".into()),
                    ("run", J::U(idx)),
                    ("class", "harness".into()),
                    ("detail", m.into()),
                ]);
                break;
            }
        }
    }
    CURRENT.store(u64::MAX, Ordering::SeqCst);
    let out = obj(vec![
        ("runs", J::U(runs)),
        ("steps", J::U(steps)),
        ("faults", (&faults).into()),
        ("probes", (&probes).into()),
        ("hashes", hashes.into()),
        ("all_hash", format!("{all_hash:016x}").into()),
        ("samples", J::A(sample_out)),
        ("found", found),
        ("known", (&known_hits).into()),
    ]);
    println!("RESULT {}", out.line());
    0
}

/// One run from a choices file, result on stdout.
fn one(prop: &Prop, args: &Args) -> i32 {
    install_panic_hook();
    limit_memory(prop);
    watchdog(run_limit(prop, args));
    CURRENT.store(0, Ordering::SeqCst);
    let mut src = if let Some(f) = args.get("--choices") {
        let t = std::fs::read_to_string(f).expect("choices");
        Src::from_choices(
            t.split_ascii_whitespace()
                .map(|x| x.parse().expect("choice"))
                .collect(),
        )
    } else {
        Src::from_seed(run_seed(prop, args.u64("--seed", 1), args.u64("--from", 0)))
    };
    let trace = args.has("--trace");
    let mut ctx = Ctx::new(trace);
    if let Some(f) = args.get("--drawlog") {
        src.mirror(&f);
        ctx.trace_file = std::fs::File::create(format!("{f}.trace")).ok();
    }
    let r = execute(prop, &mut src, &mut ctx);
    CURRENT.store(u64::MAX, Ordering::SeqCst);
    let (kind, class, detail) = match r {
        Outcome::Ok => ("ok", String::new(), String::new()),
        Outcome::Violated(v) => ("violation", v.class, v.detail),
        Outcome::Harness(m) => ("harness", "harness".to_string(), m),
    };
    let out = obj(vec![
        ("kind", kind.into()),
        ("class", class.into()),
        ("detail", detail.into()),
        ("hash", format!("{:016x}", ctx.hash).into()),
        ("log", J::from(src.log)),
        ("trace", J::from(ctx.trace)),
    ]);
    println!("RESULT {}", out.line());
    0
}

fn wait_timeout(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    let mut nap = Duration::from_micros(200);
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if start.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(nap);
        nap = (nap * 2).min(Duration::from_millis(20));
    }
}

struct SubOut {
    stdout: String,
    status: Option<std::process::ExitStatus>,
}

thread_local! {
    /// Use the binary without debug assertions and overflow checks.
    static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// That binary.
fn plain_exe() -> Option<String> {
    std::env::var("SIM_PLAIN").ok().filter(|p| !p.is_empty())
}

/// Is this run one of those that it executes?
fn is_plain(run: u64, batch: u64) -> bool {
    plain_exe().is_some() && (run / batch) % 3 == 2
}

fn sub(args: &[String], limit: Duration) -> SubOut {
    let exe = if PLAIN.get() {
        plain_exe().expect("SIM_PLAIN").into()
    } else {
        std::env::current_exe().expect("exe")
    };
    let mut c = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let mut so = c.stdout.take().unwrap();
    let buf = Arc::new(Mutex::new(Vec::new()));
    let b2 = buf.clone();
    let h = std::thread::spawn(move || {
        let mut tmp = [0u8; 65536];
        loop {
            match so.read(&mut tmp) {
                Ok(0) => break,
                Ok(n) => b2.lock().unwrap().extend_from_slice(&tmp[..n]),
                Err(_) => break,
            }
        }
    });
    let status = wait_timeout(&mut c, limit);
    let _ = h.join();
    let out = String::from_utf8_lossy(&buf.lock().unwrap()).into_owned();
    SubOut {
        stdout: out,
        status,
    }
}

fn result_line(s: &str) -> Option<J> {
    s.lines()
        .rev()
        .find_map(|l| l.strip_prefix("RESULT "))
        .and_then(|l| J::parse(l).ok())
}

fn hang_line(s: &str) -> Option<u64> {
    s.lines().find_map(|l| l.strip_prefix("HANG ")).and_then(|l| l.parse().ok())
}

fn crash_class(status: Option<std::process::ExitStatus>) -> (String, String) {
    match status {
        None => ("hang".into(), "the run did not finish within its time limit".into()),
        Some(s) => match s.signal() {
            Some(sig) => (format!("crash:signal{sig}"), format!("the process was ended by signal {sig}")),
            None if s.code() == Some(97) => ("hang".into(), "the run did not finish within its time limit".into()),
            None => (
                format!("crash:exit{}", s.code().unwrap_or(-1)),
                "the process ended without a result".into(),
            ),
        },
    }
}

fn read_drawlog(path: &str) -> (Vec<u64>, Vec<String>) {
    let draws = std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.parse().ok())
        .collect();
    let tp = format!("{path}.trace");
    let trace = std::fs::read_to_string(&tp)
        .unwrap_or_default()
        .lines()
        .map(|l| l.to_string())
        .collect();
    let _ = std::fs::remove_file(path);
    let _ = std::fs::remove_file(&tp);
    (draws, trace)
}

/// Run one choice list in a fresh process.
fn try_choices(prop: &Prop, choices: &[u64], tmp: &str, trace: bool, limit: Duration) -> J {
    let f = format!("{tmp}/choices-{}-{:?}", std::process::id(), std::thread::current().id());
    let text: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    std::fs::write(&f, text.join(" ")).expect("write choices");
    let mut a = vec![
        "one".to_string(),
        "--prop".into(),
        prop.id.into(),
        "--choices".into(),
        f.clone(),
    ];
    let dl = format!("{f}.draws");
    if trace {
        a.push("--trace".into());
        a.push("--drawlog".into());
        a.push(dl.clone());
    }
    if limit < Duration::from_secs(40) {
        a.push("--run-limit".into());
        a.push(limit.as_secs().to_string());
    }
    let o = sub(&a, limit + Duration::from_secs(20));
    let _ = std::fs::remove_file(&f);
    let lost = read_drawlog(&dl);
    match result_line(&o.stdout) {
        Some(j) => j,
        None => {
            let (class, detail) = crash_class(o.status);
            obj(vec![
                ("kind", "violation".into()),
                ("class", class.into()),
                ("detail", detail.into()),
                ("hash", "".into()),
                ("log", J::from(choices.to_vec())),
                ("trace", J::from(lost.1)),
            ])
        }
    }
}

fn class_of(j: &J) -> String {
    if j.get("kind").and_then(J::str) == Some("violation") {
        j.get("class").and_then(J::str).unwrap_or("").to_string()
    } else {
        String::new()
    }
}

fn log_of(j: &J) -> Vec<u64> {
    j.get("log").map(|l| l.arr().iter().filter_map(J::u64).collect()).unwrap_or_default()
}

fn minimise(prop: &Prop, start: Vec<u64>, class: &str, tmp: &str, budget: Duration, per: Duration) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut tries = 0u64;
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut test = |cand: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
        if t0.elapsed() > budget || !seen.insert(cand.to_vec()) {
            return None;
        }
        *tries += 1;
        let j = try_choices(prop, cand, tmp, false, per);
        if class_of(&j) == class {
            let mut l = log_of(&j);
            while l.last() == Some(&0) {
                l.pop();
            }
            Some(l)
        } else {
            None
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                match test(&c, &mut tries) {
                    Some(l) if (l.len(), &l) < (best.len(), &best) => best = l,
                    _ => i += k,
                }
                if t0.elapsed() > budget {
                    return (best, tries);
                }
            }
            k /= 2;
        }
        // zero blocks, then shrink single values
        let mut k = 8usize;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..e] {
                        *v = 0;
                    }
                    if let Some(l) = test(&c, &mut tries) {
                        if (l.len(), &l) < (best.len(), &best) {
                            best = l;
                        }
                    }
                }
                i += k;
            }
            k /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut step = best[i];
            while step > 0 && i < best.len() && t0.elapsed() < budget {
                step /= 2;
                if best[i] == 0 {
                    break;
                }
                let mut c = best.clone();
                c[i] = if step == 0 { best[i] - 1 } else { step.min(best[i] - 1) };
                match test(&c, &mut tries) {
                    Some(l) if (l.len(), &l) < (best.len(), &best) => {
                        best = l;
                        if i < best.len() {
                            step = best[i];
                        }
                    }
                    _ => {}
                }
            }
        }
        if best == before || t0.elapsed() > budget {
            return (best, tries);
        }
    }
}

fn master(prop: &Prop, args: &Args) -> i32 {
    let t0 = Instant::now();
    let seed = args.u64("--seed", 1);
    let tier = args.get("--tier").unwrap_or_else(|| "quick".into());
    let evidence = args.get("--evidence").expect("--evidence");
    let replays = args.get("--replays").expect("--replays");
    let tmp = args.get("--tmp").expect("--tmp");
    let known_file = args.get("--known");
    let total = args.u64("--runs", if tier == "thorough" { prop.thorough } else { prop.quick });
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let workers = args.u64("--workers", cores as u64).max(1).min(if gigabytes(prop) { 3 } else { 1 << 20 });
    let deadline = Duration::from_secs(args.u64("--deadline", if tier == "thorough" { 7200 } else { 420 }));
    let batch_limit = Duration::from_secs(args.u64("--batch-limit", if interpreted(prop) || prop.id == "C03" { 320 } else { 180 }));
    let batch = prop.batch.min((total / workers).max(1));
    let _ = std::fs::create_dir_all(&replays);
    let _ = std::fs::create_dir_all(&tmp);
    println!("property={} tier={tier} seed={seed} runs={total} workers={workers}", prop.id);

    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let results: Arc<Mutex<Vec<(u64, u64, Result<J, (String, String, u64)>)>>> = Arc::new(Mutex::new(vec![]));
    std::thread::scope(|s| {
        for w in 0..workers {
            let next = next.clone();
            let stop = stop.clone();
            let results = results.clone();
            let known_file = known_file.clone();
            s.spawn(move || loop {
                if stop.load(Ordering::SeqCst) || t0.elapsed() > deadline {
                    break;
                }
                let from = next.fetch_add(batch, Ordering::SeqCst);
                if from >= total {
                    break;
                }
                let count = batch.min(total - from);
                PLAIN.set(is_plain(from, batch));
                let mk = |careful: bool| {
                    let mut a: Vec<String> = vec![
                        "worker".into(),
                        "--prop".into(),
                        prop.id.into(),
                        "--seed".into(),
                        seed.to_string(),
                        "--from".into(),
                        from.to_string(),
                        "--count".into(),
                        count.to_string(),
                        "--samples".into(),
                        if from == 0 { "2".into() } else { "0".into() },
                    ];
                    if let Some(k) = &known_file {
                        a.push("--known".into());
                        a.push(k.clone());
                    }
                    if careful {
                        a.push("--careful".into());
                    }
                    a
                };
                let mut o = sub(&mk(false), batch_limit);
                if hang_line(&o.stdout).is_some() && result_line(&o.stdout).is_none() {
                    // a busy machine, or a run that hangs? only the latter
                    // happens again
                    o = sub(&mk(false), batch_limit);
                }
                let r = match result_line(&o.stdout) {
                    Some(j) => {
                        if j.get("found") != Some(&J::Null) {
                            stop.store(true, Ordering::SeqCst);
                        }
                        Ok(j)
                    }
                    None if hang_line(&o.stdout).is_some() => {
                        stop.store(true, Ordering::SeqCst);
                        let l = hang_line(&o.stdout).unwrap_or(from);
                        Err(("hang".into(), "the run did not finish within its time limit".into(), l))
                    }
                    None => {
                        // find the run that took the process down
                        let o2 = sub(&mk(true), batch_limit);
                        let last = o2
                            .stdout
                            .lines()
                            .filter_map(|l| l.strip_prefix('@'))
                            .filter_map(|l| l.parse::<u64>().ok())
                            .last();
                        match (result_line(&o2.stdout), last) {
                            (None, Some(l)) => {
                                stop.store(true, Ordering::SeqCst);
                                let (c, d) = crash_class(o2.status);
                                Err((c, d, l))
                            }
                            (Some(j), _) => {
                                if j.get("found") != Some(&J::Null) {
                                    stop.store(true, Ordering::SeqCst);
                                }
                                Ok(j)
                            }
                            _ => Err(("lost-worker".into(), "worker produced nothing".into(), from)),
                        }
                    }
                };
                let _ = w;
                results.lock().unwrap().push((from, count, r));
            });
        }
    });

    // merge
    let mut res = results.lock().unwrap();
    res.sort_by_key(|r| r.0);
    let mut runs = 0u64;
    let mut plain_runs = 0u64;
    let mut steps = 0u64;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut first: Option<(u64, String, String, String)> = None; // run, kind, class, detail
    let mut sample_batches: Vec<(u64, u64, String)> = vec![];
    for (from, count, r) in res.iter() {
        match r {
            Ok(j) => {
                runs += j.get("runs").and_then(J::u64).unwrap_or(0);
                if is_plain(*from, batch) {
                    plain_runs += j.get("runs").and_then(J::u64).unwrap_or(0);
                }
                steps += j.get("steps").and_then(J::u64).unwrap_or(0);
                for (name, into) in [("faults", &mut faults), ("probes", &mut probes), ("known", &mut known_hits)] {
                    if let Some(m) = j.get(name) {
                        for (k, v) in m.fields() {
                            *into.entry(k.clone()).or_insert(0) += v.u64().unwrap_or(0);
                        }
                    }
                }
                if let Some(h) = j.get("hashes").and_then(J::str) {
                    let b = h.as_bytes();
                    for c in b.chunks(16) {
                        distinct.insert(u64::from_str_radix(&String::from_utf8_lossy(c), 16).unwrap_or(0));
                    }
                }
                if let Some(s) = j.get("samples") {
                    samples.extend(s.arr().iter().cloned());
                }
                if let Some(f) = j.get("found") {
                    if *f != J::Null {
                        let run = f.get("run").and_then(J::u64).unwrap_or(0);
                        let g = |k: &str| f.get(k).and_then(J::str).unwrap_or("").to_string();
                        if first.as_ref().map_or(true, |x| run < x.0) {
                            first = Some((run, g("kind"), g("class"), g("detail")));
                        }
                    } else {
                        sample_batches.push((
                            *from,
                            *count,
                            j.get("all_hash").and_then(J::str).unwrap_or("").to_string(),
                        ));
                    }
                }
            }
            Err((c, d, l)) => {
                if first.as_ref().map_or(true, |x| *l < x.0) {
                    let kind = if c == "lost-worker" { "harness" } else { "violation" };
                    first = Some((*l, kind.into(), c.clone(), d.clone()));
                }
            }
        }
    }
    drop(res);

    // determinism: repeat some batches in fresh processes and compare the
    // hash over every run's event log
    let mut det_checked = 0u64;
    let mut det_mismatch = 0u64;
    if first.is_none() {
        let pick: Vec<_> = {
            let n = sample_batches.len();
            let want = (if gigabytes(prop) { 2 } else { 4 }).min(n);
            (0..want).map(|i| sample_batches[i * n / want.max(1)].clone()).collect()
        };
        let out = Mutex::new((0u64, 0u64));
        std::thread::scope(|s| {
            for (from, count, h) in &pick {
                let out = &out;
                s.spawn(move || {
                    PLAIN.set(is_plain(*from, batch));
                    let o = sub(
                        &[
                            "worker".into(),
                            "--prop".into(),
                            prop.id.into(),
                            "--seed".into(),
                            seed.to_string(),
                            "--from".into(),
                            from.to_string(),
                            "--count".into(),
                            count.to_string(),
                        ],
                        batch_limit,
                    );
                    let same = result_line(&o.stdout)
                        .and_then(|j| j.get("all_hash").and_then(J::str).map(|x| x == h))
                        .unwrap_or(false);
                    let mut g = out.lock().unwrap();
                    g.0 += count;
                    if !same {
                        g.1 += 1;
                    }
                });
            }
        });
        let g = out.lock().unwrap();
        det_checked = g.0;
        det_mismatch = g.1;
    }

    let search_s = t0.elapsed().as_secs_f64();
    let known = known_list(known_file);
    for (p, c, what) in &known {
        if p == prop.id {
            println!("KNOWN-FINDING: property={} {} (class {}, hit {} times)", p, what, c, known_hits.get(c).copied().unwrap_or(0));
        }
    }

    let mut code = 0;
    let mut violations = 0u64;
    let mut replay_info = J::Null;
    if let Some((run, kind, class, detail)) = first {
        if kind == "harness" {
            println!("HARNESS-ERROR property={} run={run} {detail}", prop.id);
            code = 2;
        } else {
            violations = 1;
            code = 1;
            PLAIN.set(is_plain(run, batch));
            let per = Duration::from_secs(if interpreted(prop) { 150 } else if class == "hang" { 10 } else { 60 });
            // recover the full choice list of the failing run
            let dl = format!("{tmp}/draws-{}", std::process::id());
            let o = sub(
                &[
                    "one".into(),
                    "--prop".into(),
                    prop.id.into(),
                    "--seed".into(),
                    seed.to_string(),
                    "--from".into(),
                    run.to_string(),
                    "--drawlog".into(),
                    dl.clone(),
                ],
                batch_limit,
            );
            let lost = read_drawlog(&dl);
            let (full, reproducible) = match result_line(&o.stdout) {
                Some(j) => (log_of(&j), class_of(&j) == class),
                // the process died: the draws it mirrored are the list
                None => (lost.0, crash_class(o.status).0 == class),
            };
            let (best, tries) = if !full.is_empty() && reproducible {
                minimise(prop, full.clone(), &class, &tmp, Duration::from_secs(args.u64("--shrink", 60)), per)
            } else {
                (full.clone(), 0)
            };
            let fin = if best.is_empty() && full.is_empty() {
                None
            } else {
                Some(try_choices(prop, &best, &tmp, true, per))
            };
            let confirmed = fin.as_ref().map_or(false, |f| class_of(f) == class);
            let again = if confirmed {
                let h1 = fin.as_ref().and_then(|f| f.get("hash").cloned());
                let f2 = try_choices(prop, &best, &tmp, true, per);
                class_of(&f2) == class && f2.get("hash").cloned() == h1
            } else {
                false
            };
            let path = format!("{replays}/{}-s{seed}-r{run}.json", prop.id);
            let det = fin
                .as_ref()
                .filter(|_| confirmed)
                .and_then(|f| f.get("detail").and_then(J::str))
                .unwrap_or(&detail)
                .to_string();
            let doc = obj(vec![
                ("property", prop.id.into()),
                ("seed", J::U(seed)),
                (
                    "families",
                    std::env::var("SIM_FAMILIES").ok().and_then(|v| v.parse().ok()).map_or(J::Null, J::U),
                ),
                ("run", J::U(run)),
                ("build", if PLAIN.get() { "plain".into() } else { "checked".into() }),
                ("class", class.clone().into()),
                ("detail", det.clone().into()),
                ("replay", if confirmed { "choices".into() } else { "seed".into() }),
                ("choices", if confirmed { J::from(best.clone()) } else { J::A(vec![]) }),
                ("original_choices", J::U(full.len() as u64)),
                ("minimise_tries", J::U(tries)),
                ("replayed_identically", again.into()),
                (
                    "trace",
                    fin.as_ref().filter(|_| confirmed).and_then(|f| f.get("trace").cloned()).unwrap_or(J::A(vec![])),
                ),
                ("how_to_replay", format!("cd /verif && ./check {} --replay {path}", prop.id).into()),
            ]);
            std::fs::write(&path, doc.pretty()).expect("write replay");
            println!("run {run}: {class}: {det}");
            if let Some(t) = doc.get("trace") {
                for l in t.arr().iter().take(60) {
                    println!("  {}", l.str().unwrap_or(""));
                }
            }
            println!("VIOLATION property={} replay={path}", prop.id);
            replay_info = obj(vec![
                ("path", path.into()),
                ("class", class.into()),
                ("choices", J::U(best.len() as u64)),
                ("from", J::U(full.len() as u64)),
            ]);
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let seeds_per_hour = if search_s > 0.0 { runs as f64 * 3600.0 / search_s } else { 0.0 };
    let ev = obj(vec![
        ("property", prop.id.into()),
        ("tier", tier.as_str().into()),
        ("seed", J::U(seed)),
        ("level", "exploration".into()),
        (
            "coverage",
            obj(vec![
                ("evaluations", J::U(runs)),
                ("distinct_nontrivial", J::U(distinct.len() as u64)),
                ("rule", prop.rule.into()),
                ("samples", J::A(samples)),
                ("runs_planned", J::U(total)),
                ("runs_without_debug_assertions", J::U(plain_runs)),
                ("seeds_per_hour", J::F(seeds_per_hour)),
                ("simulated_steps", J::U(steps)),
                ("simulated_time_unit", prop.time_unit.into()),
                ("faults_injected", (&faults).into()),
                ("rare_conditions_hit", (&probes).into()),
                ("distinct_measure", prop.measure.into()),
                (
                    "real_components",
                    J::A(prop.real.iter().map(|s| J::from(*s)).collect()),
                ),
                (
                    "stub_components",
                    J::A(prop.stub.iter().map(|s| J::from(*s)).collect()),
                ),
                ("determinism_runs_repeated", J::U(det_checked)),
                ("determinism_batches_differing", J::U(det_mismatch)),
                ("worker_processes", J::U(workers)),
                ("known_findings_hit", (&known_hits).into()),
                ("violation", replay_info),
            ]),
        ),
        (
            "assumptions",
            J::A(prop.assumptions.iter().map(|s| J::from(*s)).collect()),
        ),
        ("wall_s", J::F(wall)),
        ("violations", J::U(violations)),
    ]);
    if let Some(dir) = std::path::Path::new(&evidence).parent() {
        let _ = std::fs::create_dir_all(dir);
    }
    std::fs::write(&evidence, ev.pretty()).expect("write evidence");
    println!(
        "runs={runs} distinct={} steps={steps} wall={wall:.1}s faults={:?}",
        distinct.len(),
        faults
    );
    if !probes.is_empty() {
        println!("probes={probes:?}");
    }
    if det_mismatch > 0 {
        println!("warning: {det_mismatch} repeated batches differed");
    }
    code
}

fn replay(prop: &Prop, args: &Args) -> i32 {
    let path = args.get("--file").expect("--file");
    let tmp = args.get("--tmp").expect("--tmp");
    let _ = std::fs::create_dir_all(&tmp);
    let doc = J::parse(&std::fs::read_to_string(&path).expect("replay file")).expect("replay json");
    let class = doc.get("class").and_then(J::str).unwrap_or("").to_string();
    let limit = Duration::from_secs(if interpreted(prop) { 200 } else { 60 });
    PLAIN.set(doc.get("build").and_then(J::str) == Some("plain"));
    let j = if doc.get("replay").and_then(J::str) == Some("choices") {
        let ch: Vec<u64> = doc.get("choices").map(|c| c.arr().iter().filter_map(J::u64).collect()).unwrap_or_default();
        try_choices(prop, &ch, &tmp, true, limit)
    } else {
        let o = sub(
            &[
                "one".into(),
                "--prop".into(),
                prop.id.into(),
                "--trace".into(),
                "--seed".into(),
                doc.get("seed").and_then(J::u64).unwrap_or(1).to_string(),
                "--from".into(),
                doc.get("run").and_then(J::u64).unwrap_or(0).to_string(),
            ],
            limit,
        );
        result_line(&o.stdout).unwrap_or_else(|| {
            let (c, d) = crash_class(o.status);
            obj(vec![("kind", "violation".into()), ("class", c.into()), ("detail", d.into())])
        })
    };
    if let Some(t) = j.get("trace") {
        for l in t.arr() {
            println!("  {}", l.str().unwrap_or(""));
        }
    }
    let got = class_of(&j);
    println!("recorded class: {class}\nreplayed class: {got}");
    println!("{}", j.get("detail").and_then(J::str).unwrap_or(""));
    if got == class && !got.is_empty() {
        println!("VIOLATION property={} replay={path}", prop.id);
        1
    } else {
        println!("the recorded violation did not occur");
        0
    }
}

/// Read lines helper kept public for stubs.
pub fn read_lines(r: impl Read) -> Vec<String> {
    BufReader::new(r).lines().map_while(Result::ok).collect()
}
