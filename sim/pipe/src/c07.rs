use crate::c11::Rec;
use crate::sys;
use crate::util::*;
use schema::*;
use simkit::coop::{self, Job, Seam};
use simkit::{violation, Ctx, RunResult, Src};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// What surrounds a process.
#[derive(Clone, Default)]
pub struct World {
    pub clock: i64,
    pub env: Option<Vec<(String, String)>>,
    pub cwd: Option<&'static str>,
}

/// A moment between 1970 and 2100.
fn moment(src: &mut Src) -> i64 {
    src.below(4_100_000_000) as i64
}

/// Another machine, user and moment; names of the schema turn up in the
/// environment too, as they do in a build script.
fn world(src: &mut Src, text: &[u8]) -> World {
    const VARS: [&str; 26] = [
        "CARGO_PKG_NAME", "CARGO_PKG_VERSION", "CARGO_MANIFEST_DIR", "CARGO_CRATE_NAME", "OUT_DIR", "PROFILE", "DEBUG", "OPT_LEVEL", "TARGET", "HOST",
        "NUM_JOBS", "RUST_BACKTRACE", "RUST_LOG", "RUSTFLAGS", "HOME", "USER", "LOGNAME", "HOSTNAME", "LANG", "LC_ALL", "TZ", "TERM", "PWD", "TMPDIR",
        "SOURCE_DATE_EPOCH", "NO_COLOR",
    ];
    let t = String::from_utf8_lossy(text);
    let words: Vec<&str> = t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).collect();
    let mut env = vec![];
    for v in VARS {
        if src.chance(1, 2) {
            let x = match src.below(6) {
                0 => "1".to_string(),
                1 => "/nonexistent/dir".into(),
                2 => "release".into(),
                3 => "de_DE.UTF-8".into(),
                _ if !words.is_empty() => words[src.idx(words.len())].to_string(),
                _ => String::new(),
            };
            env.push((v.to_string(), x));
        }
    }
    World {
        clock: moment(src),
        env: Some(env),
        cwd: *src.pick(&[None, Some("/"), Some("/tmp"), Some("/proc/self")]),
    }
}

/// The code a fresh process produces, and nothing else ran there.
pub fn fresh(text: &[u8], gen: bool, key: u64, w: &World) -> Out {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("compile").arg(key.to_string()).arg(if gen { "gen" } else { "nogen" }).arg(w.clock.to_string());
    if let Some(v) = &w.env {
        c.env_clear().envs(v.iter().cloned());
    }
    if let Some(d) = &w.cwd {
        c.current_dir(d);
    }
    let mut ch = c
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn self");
    let mut i = ch.stdin.take().unwrap();
    i.write_all(text).expect("feed");
    drop(i);
    let mut o = vec![];
    ch.stdout.take().unwrap().read_to_end(&mut o).expect("read");
    let st = ch.wait().expect("wait");
    match o.split_first() {
        Some((b'C', r)) if st.success() => Out::Code(r.to_vec()),
        Some((b'E', r)) if st.success() => Out::Err(String::from_utf8_lossy(r).into_owned()),
        Some((b'P', r)) if st.success() => Out::Panic(String::from_utf8_lossy(r).into_owned()),
        _ => Out::Panic(format!("the process ended with {st}")),
    }
}

pub fn fresh_main(args: &[String]) -> ! {
    simkit::install_panic_hook();
    let key: u64 = args[0].parse().unwrap_or(0);
    let gen = args[1] == "gen";
    let mut t = vec![];
    std::io::stdin().read_to_end(&mut t).expect("stdin");
    sys::set_hash_seed(key);
    sys::set_clock(args[2].parse().unwrap_or(0));
    let o = compile(&t, if gen { Some(Box::new(Rec::plain())) } else { None });
    let mut out = std::io::stdout();
    let (k, b) = match o {
        Out::Code(c) => (b'C', c),
        Out::Err(e) => (b'E', e.into_bytes()),
        Out::Panic(e) => (b'P', e.into_bytes()),
    };
    out.write_all(&[k]).and_then(|_| out.write_all(&b)).and_then(|_| out.flush()).expect("stdout");
    std::process::exit(0)
}

/// What a job on a simulated thread does.
#[derive(Clone)]
pub struct Task {
    pub text: Vec<u8>,
    pub gen: bool,
    /// 0: works; 1: reading fails; 2: the sink fails; 3: the sink panics;
    /// 4: the generator panics
    pub fault: u8,
    pub seed: u64,
    /// Wall clock when it starts.
    pub clock: i64,
    /// Which schema of the run.
    pub which: usize,
}

struct In {
    d: Vec<u8>,
    pos: usize,
    seam: Option<Seam>,
    fail: bool,
    step: usize,
}
impl Read for In {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if let Some(s) = &self.seam {
            s.yield_now();
        }
        if self.fail && self.pos * 2 >= self.d.len() {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = (self.d.len() - self.pos).min(b.len()).min(self.step);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct OutS {
    m: MemSink,
    seam: Option<Seam>,
    fault: u8,
}
impl Write for OutS {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let Some(s) = &self.seam {
            s.yield_now();
        }
        match self.fault {
            2 => Err(std::io::ErrorKind::Other.into()),
            3 => panic!("injected: the sink dies"),
            _ => self.m.write(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn perform(t: &Task, seam: Option<Seam>, rec: Option<Rec>) -> Out {
    let m = MemSink::default();
    let inp = In {
        d: t.text.clone(),
        pos: 0,
        seam: seam.clone(),
        fail: t.fault == 1,
        step: (t.text.len() / 3).max(1),
    };
    let out = OutS {
        m: m.clone(),
        seam: seam.clone(),
        fault: t.fault,
    };
    let gen: Option<Box<dyn butte_build::codegen::RpcGenerator>> = if t.gen {
        let mut r = rec.unwrap_or_else(Rec::plain);
        r.seam = seam;
        if t.fault == 4 {
            r.die_at = Some(0);
        }
        Some(Box::new(r))
    } else {
        None
    };
    match simkit::guard(|| {
        butte_build::compile_fbs_generic(true, gen, Box::new(inp), Box::new(out)).map_err(|e| format!("{e:#}"))
    }) {
        Ok(Ok(())) => Out::Code(std::mem::take(&mut *m.0.lock().unwrap())),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

/// Switch at reads, writes and generator calls, and - three times in four -
/// also between basic blocks of the compiler: after any number of them, or at
/// some of those that compiling `sample` runs through.
pub fn interleave(src: &mut Src, jobs: Vec<Job<Out>>, sample: &Task) -> (Vec<std::thread::Result<Out>>, Vec<usize>, u64) {
    let mut fine = match src.below(4) {
        0 => None,
        1 => Some(coop::Fine {
            stops: 1 + src.below(100),
            far: 1 << (4 + src.below(17)),
            points: vec![],
        }),
        k => Some(coop::Fine {
            stops: 10 + src.below(90),
            far: if k == 2 { 0 } else { 1 << 20 },
            points: vec![],
        }),
    };
    if let Some(f) = fine.as_mut().filter(|f| f.far == 0 || f.far == 1 << 20) {
        let t = sample.clone();
        let seen = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                sys::set_hash_seed(t.seed);
                sys::set_clock(t.clock);
                coop::record(|| perform(&t, None, None)).1
            })
            .expect("spawn")
            .join()
            .unwrap_or_default();
        if !seen.is_empty() {
            for _ in 0..1 + src.below(12) {
                f.points.push(*src.pick(&seen));
            }
        }
    }
    coop::run_fine(src, jobs, fine)
}

const WORDS_OF_THE_LANGUAGE: [&str; 36] = [
    "table", "enum", "union", "struct", "rpc_service", "namespace", "root_type", "required", "streaming", "client", "server", "bidi", "string",
    "bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "int8", "uint8", "int16", "uint16", "int32",
    "uint32", "int64", "uint64", "float32", "float64", "true", "false",
];

/// The same text with some names spelled differently: names that meet again
/// when they are turned into snake case or camel case.
fn recase(src: &mut Src, t: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut words: Vec<String> = vec![];
    let mut i = 0;
    let word = |c: char| c.is_alphanumeric() || c == '_';
    while i < b.len() {
        let a = i;
        while i < b.len() && word(b[i]) {
            i += 1;
        }
        if i > a {
            let w: String = b[a..i].iter().collect();
            if w.chars().next().map_or(false, |c| c.is_alphabetic()) && !WORDS_OF_THE_LANGUAGE.contains(&w.as_str()) && !words.contains(&w) {
                words.push(w);
            }
        } else {
            i += 1;
        }
    }
    if words.is_empty() {
        return t.to_string();
    }
    let mut map = std::collections::BTreeMap::new();
    for _ in 0..1 + src.idx(4) {
        let w = src.pick(&words).clone();
        let n = match src.below(6) {
            0 => w.to_lowercase(),
            1 => w.to_uppercase(),
            2 => w.replace('_', ""),
            3 => format!("{w}_"),
            4 => {
                let mut c = w.chars();
                let f = c.next().unwrap();
                let f: String = if f.is_uppercase() { f.to_lowercase().collect() } else { f.to_uppercase().collect() };
                f + c.as_str()
            }
            _ => {
                let k = src.idx(w.chars().count());
                w.chars().enumerate().map(|(i, c)| if i == k { c.to_uppercase().to_string() } else { c.to_string() }).collect()
            }
        };
        map.insert(w, n);
    }
    let mut out = String::new();
    i = 0;
    while i < b.len() {
        let a = i;
        while i < b.len() && word(b[i]) {
            i += 1;
        }
        if i > a {
            let w: String = b[a..i].iter().collect();
            out.push_str(map.get(&w).unwrap_or(&w));
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// Schemas that share names: versions of one family, cut and renamed copies,
/// and texts that are no schema.
fn texts(src: &mut Src) -> Vec<(Vec<u8>, bool)> {
    let mut v = vec![];
    let opts = Opts {
        versions: 1 + src.idx(3),
        tables: 1 + src.below(4),
        fields: 1 + src.below(6),
        services: src.below(3),
        odd_names: src.chance(1, 3),
        namespaces: 1 + src.below(3),
    };
    let f = gen_family(src, opts);
    for s in &f.versions {
        let noise = src.chance(1, 3);
        let t = render(src, s, noise);
        if src.chance(1, 3) {
            // the same names, other types and defaults
            let u = t.s.replace(":int;", ":short;").replace(": string", ": [ubyte]").replace(":ulong", ":ubyte");
            v.push((u.into_bytes(), true));
        }
        if src.chance(1, 3) {
            v.push((recase(src, &t.s).into_bytes(), true));
        }
        if src.chance(1, 3) {
            let at = src.idx(t.s.len().max(1));
            v.push((t.s.as_bytes()[..at].to_vec(), false));
        }
        v.push((t.s.into_bytes(), true));
    }
    if src.chance(1, 2) {
        v.push((src.pick::<&str>(&NOT_A_SCHEMA).as_bytes().to_vec(), false));
    }
    if src.chance(1, 3) {
        let s = draw_schema(src, 1);
        let t = render(src, &s, false);
        v.push((t.s.into_bytes(), true));
    }
    v
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let ts = texts(src);
    let gen = src.chance(1, 2);
    for (t, _) in &ts {
        ctx.mark_bytes(t);
    }
    let key0 = src.u64();
    let here = World {
        clock: moment(src),
        ..World::default()
    };
    let base: Vec<Out> = ts.iter().map(|(t, _)| fresh(t, gen, key0, &here)).collect();
    for (i, b) in base.iter().enumerate() {
        ctx.ev(|| format!("schema {i}, {} bytes, in a new process: {}", ts[i].0.len(), b.short()));
    }
    if src.chance(1, 2) {
        // another new process, other hash seed
        let i = src.idx(ts.len());
        let k = src.u64();
        let w = world(src, &ts[i].0);
        let o = fresh(&ts[i].0, gen, k, &w);
        ctx.fault("hash seed changed");
        ctx.fault("clock jumped");
        ctx.fault("other environment and directory");
        same(&ts[i].0, &base[i], &o, "a second new process with another hash seed, clock, environment and directory")?;
    }
    let steps = 1 + src.idx(4);
    let mut hist = String::new();
    for _ in 0..steps {
        ctx.step();
        let draw = |src: &mut Src, ctx: &mut Ctx| {
            let which = src.idx(ts.len());
            let fault = src.weighted(&[6, 1, 1, 1, 1]) as u8;
            match fault {
                1 => ctx.fault("another compile's input fails"),
                2 => ctx.fault("another compile's sink fails"),
                3 => ctx.fault("another compile's sink panics"),
                4 if gen => ctx.fault("another compile's generator panics"),
                _ => {}
            }
            if !ts[which].1 {
                ctx.fault("another compile fails");
            }
            Task {
                text: ts[which].0.clone(),
                gen,
                fault,
                seed: src.u64(),
                clock: moment(src),
                which,
            }
        };
        if src.chance(1, 2) {
            // several compiles at once
            let n = 2 + src.idx(3);
            let tasks: Vec<Task> = (0..n).map(|_| draw(src, ctx)).collect();
            let jobs: Vec<Job<Out>> = tasks
                .iter()
                .cloned()
                .map(|t| {
                    Box::new(move |seam: Seam| {
                        sys::set_hash_seed(t.seed);
                        sys::set_clock(t.clock);
                        perform(&t, Some(seam), None)
                    }) as Job<Out>
                })
                .collect();
            let (res, sched, stops) = interleave(src, jobs, &tasks[0]);
            for s in &sched {
                ctx.mark(*s as u64);
            }
            if stops > 0 {
                ctx.probe("compiles switched between two blocks");
            }
            ctx.nontrivial = true;
            ctx.probe("compiles interleaved");
            hist.push_str(&format!("{n} at once (schedule {sched:?}): "));
            for (t, r) in tasks.iter().zip(res) {
                hist.push_str(&format!("[schema {} fault {}] ", t.which, t.fault));
                ctx.ev(|| hist.clone());
                let o = match r {
                    Ok(o) => o,
                    Err(_) => Out::Panic("thread died".into()),
                };
                judge(t, &base, &o, &hist)?;
            }
        } else {
            // one after the other on one thread of its own
            let n = 1 + src.idx(4);
            let tasks: Vec<Task> = (0..n).map(|_| draw(src, ctx)).collect();
            let t2 = tasks.clone();
            let outs = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    sys::set_hash_seed(t2[0].seed);
                    t2.iter()
                        .map(|t| {
                            sys::set_clock(t.clock);
                            perform(t, None, None)
                        })
                        .collect::<Vec<_>>()
                })
                .expect("spawn")
                .join()
                .unwrap_or_default();
            ctx.fault("hash seed changed");
            for (i, t) in tasks.iter().enumerate() {
                hist.push_str(&format!("[schema {} fault {}] ", t.which, t.fault));
                ctx.mark((t.which * 8 + t.fault as usize) as u64);
                ctx.ev(|| hist.clone());
                let o = outs.get(i).cloned().unwrap_or(Out::Panic("thread died".into()));
                judge(t, &base, &o, &hist)?;
            }
        }
        hist.push('\n');
    }
    Ok(())
}

fn judge(t: &Task, base: &[Out], o: &Out, hist: &str) -> RunResult {
    match t.fault {
        0 => same(&t.text, &base[t.which], o, hist),
        _ => Ok(()),
    }
}

fn same(text: &[u8], want: &Out, got: &Out, hist: &str) -> RunResult {
    let t = crate::c05::clip(&String::from_utf8_lossy(text));
    match (want, got) {
        (Out::Code(a), Out::Code(b)) if a == b => Ok(()),
        (Out::Err(_), Out::Err(_)) => Ok(()),
        // the same text crashes every time: another property's business
        (Out::Panic(_), Out::Panic(_)) => Ok(()),
        (Out::Code(a), Out::Code(b)) => violation(
            "code-differs",
            format!("the same schema gave different code: {}\nhistory: {hist}\nschema:\n{t}", first_diff(a, b)),
        ),
        _ => violation(
            "outcome-differs",
            format!("the same schema: {} in a new process, {} here\nhistory: {hist}\nschema:\n{t}", want.short(), got.short()),
        ),
    }
}
