//! The command-line tool and the build-script entry point as processes under
//! a simulated file system: an interposed libc layer (io.c) decides the
//! outcome of every open, read and write.

use crate::c05::clip;
use crate::stub::Fmt;
use crate::util::*;
use schema::*;
use simkit::{violation, Ctx, RunResult, Src};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// The process that calls the build-script entry point.
pub fn entry_main(args: &[String]) -> ! {
    match butte_build::compile_fbs(&args[0]) {
        Ok(()) => std::process::exit(0),
        Err(_) => std::process::exit(1),
    }
}

struct Act {
    s: String,
}

/// Draw what the file system does to one process.
fn draw_io(src: &mut Src, code: usize) -> Act {
    let mut v: Vec<String> = vec![];
    let mode = src.below(4);
    if mode == 0 {
        return Act { s: String::new() };
    }
    for cls in ['r', 'w'] {
        if src.chance(1, 2) {
            for i in 0..src.size(30) {
                match src.below(4) {
                    0 => {}
                    1 => v.push(format!("{cls}{i}:I")),
                    _ => {
                        let n = if src.chance(1, 2) { 1 + src.below(8) } else { 1 + src.below(3000) };
                        v.push(format!("{cls}{i}:S{n}"));
                    }
                }
            }
        }
    }
    if src.chance(1, 6) {
        v.push(format!("o{}:I", src.below(2)));
    }
    if mode >= 2 {
        // one thing that cannot be worked around
        let i = if src.chance(2, 3) { src.below(3) } else { src.size(20) };
        match src.below(8) {
            0 => v.insert(0, format!("o{}:E{}", src.below(2), src.pick(&[2, 13, 28, 24, 30, 5]))),
            1 | 2 => v.insert(0, format!("r{}:E{}", i / 2, src.pick(&[5, 21, 116]))),
            3 | 4 => v.insert(0, format!("w{i}:E{}", src.pick(&[28, 5, 122, 32, 27]))),
            5 => v.insert(0, format!("w{i}:K")),
            6 => v.insert(0, format!("w{i}:P{}", src.idx(code + 1))),
            _ => v.insert(0, format!("{}{}:K", src.pick(&["r", "o"]), src.below(3))),
        }
    }
    Act { s: v.join(",") }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tool {
    /// both streams standard
    Pipe,
    /// input file, standard output
    InFile,
    /// both files
    Files,
    /// build-script entry point
    Entry,
}

#[derive(Debug)]
struct Done {
    code: Option<i32>,
    sig: Option<i32>,
    out: Vec<u8>,
    /// What the formatter was given.
    given: Option<Vec<u8>>,
    fired: Vec<String>,
    hung: bool,
}

fn wait(mut ch: std::process::Child, dir: &Path) -> (Option<i32>, Option<i32>, bool) {
    let t = Instant::now();
    let mut nap = 200;
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => return (st.code(), st.signal(), false),
            None => {
                if t.elapsed() > Duration::from_secs(30) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    let _ = dir;
                    return (None, None, true);
                }
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(5000);
            }
        }
    }
}

struct World {
    dir: PathBuf,
    inp: PathBuf,
    out: PathBuf,
    cli: PathBuf,
    so: PathBuf,
}

fn launch(w: &World, tool: Tool, ugly: bool, io: &str, fmt: &Fmt, path: &Path, stdout: Option<Stdio>) -> Done {
    let logf = w.dir.join("io.log");
    let _ = std::fs::remove_file(&logf);
    let given = w.dir.join("given");
    let _ = std::fs::remove_file(&given);
    let mut c = match tool {
        Tool::Entry => {
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.arg("entry").arg(&w.inp).env("OUT_DIR", w.out.parent().unwrap());
            c
        }
        _ => {
            let mut c = Command::new(&w.cli);
            if ugly {
                c.arg("--ugly");
            }
            c
        }
    };
    match tool {
        Tool::Pipe => {
            match std::fs::File::open(&w.inp) {
                Ok(f) => c.stdin(f),
                Err(_) => c.stdin(Stdio::null()),
            };
        }
        Tool::InFile => {
            c.arg(&w.inp).stdin(Stdio::null());
        }
        Tool::Files => {
            c.arg(&w.inp).arg(&w.out).stdin(Stdio::null());
        }
        Tool::Entry => {
            c.stdin(Stdio::null());
        }
    }
    let so_file = w.dir.join("stdout");
    let _ = std::fs::remove_file(&so_file);
    match stdout {
        Some(s) => c.stdout(s),
        None => c.stdout(std::fs::File::create(&so_file).expect("stdout file")),
    };
    c.stderr(Stdio::null())
        .env("PATH", search(path))
        .env("SIM_FMT", fmt.spec())
        .env("SIM_FMT_LOG", &given)
        .env("SIM_IO", io)
        .env("SIM_IO_DIR", w.dir.join("data"))
        .env("SIM_IO_LOG", &logf)
        .env("LD_PRELOAD", &w.so);
    let ch = c.spawn().expect("spawn the tool");
    let (code, sig, hung) = wait(ch, &w.dir);
    let out = match tool {
        Tool::Files | Tool::Entry => std::fs::read(&w.out).unwrap_or_default(),
        _ => std::fs::read(&so_file).unwrap_or_default(),
    };
    let fired = std::fs::read_to_string(&logf).unwrap_or_default().lines().map(|s| s.to_string()).collect();
    Done {
        code,
        sig,
        out,
        given: std::fs::read(&given).ok(),
        fired,
        hung,
    }
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let dir = scratch();
    let r = world(src, ctx, dir);
    clean_scratch();
    r
}

fn world(src: &mut Src, ctx: &mut Ctx, dir: PathBuf) -> RunResult {
    let data_dir = dir.join("data");
    let od = data_dir.join("out");
    std::fs::create_dir_all(&od).expect("mkdir");
    let exe = std::env::current_exe().unwrap();
    let stem = *src.pick(&["some_file", "a", "some.file", "m.v1", "v1.0.2", "two words", "Upper-Case", "mixed.Fbs", "über", ".hidden", "rs"]);
    let mut ext = *src.pick(&[".fbs", ".fbs", ".fbs", ".FBS", ".txt", ".bfbs", ""]);
    if stem.contains('.') && ext.is_empty() {
        ext = ".fbs";
    }
    let w = World {
        inp: data_dir.join(format!("{stem}{ext}")),
        out: od.join(format!("{stem}.rs")),
        cli: exe.parent().unwrap().join("butte"),
        so: exe.parent().unwrap().join("simio.so"),
        dir: dir.clone(),
    };
    assert!(w.cli.exists() && w.so.exists(), "the tool and the file system layer must be built");
    let s = draw_schema(src, 1);
    let noise = src.chance(1, 3);
    let mut t = render(src, &s, noise);
    pad(src, &mut t);
    let mut s = s;
    if src.chance(1, 8) {
        // code so small that it may sit in a buffer until the end
        t.decls.clear();
        t.s = src.pick::<&str>(&["namespace a;\n", "namespace a.b;\n", "rpc_service S { M(a.T):a.T; }\nnamespace a;\ntable T {}\n", ""]).to_string();
        s = Schema::default();
        ctx.probe("tiny code");
    }
    let good = t.clone();
    let valid = t.s.into_bytes();
    let reference = match compile(&valid, None) {
        Out::Code(c) => c,
        // the schema is at fault, or the compiler on plain streams
        _ => return Ok(()),
    };
    if let Some(n) = crate::c05::missing_name(&s, &reference) {
        return violation("incomplete-code", format!("no code for {n}"));
    }
    ctx.mark_bytes(&valid);
    // other outputs in the same directory
    let mut others: Vec<PathBuf> = ["some.rs", "m.rs", "v1.rs", "some_file.rs.bak", "a.rs", "two.rs", "mixed.rs", "lib.rs"]
        .iter()
        .map(|n| od.join(n))
        .filter(|p| *p != w.out)
        .collect();
    others.truncate(src.idx(9));
    let rounds = 2 + src.idx(3);
    let mut history = String::new();
    for round in 0..rounds {
        ctx.step();
        let tool = *src.pick(&[Tool::Files, Tool::Pipe, Tool::InFile, Tool::Entry]);
        let ugly = tool != Tool::Entry && src.chance(2, 3);
        let plain = src.chance(1, 8);
        let last = round + 1 == rounds;
        // what lies at the output path
        match src.below(4) {
            0 => {}
            1 => {
                let _ = std::fs::remove_file(&w.out);
            }
            2 => {
                let mut old = reference.clone();
                old.extend(std::iter::repeat(b'#').take(1 + src.idx(100_000)));
                std::fs::write(&w.out, &old).expect("old output");
                ctx.fault("older, longer output present");
            }
            _ => {
                std::fs::write(&w.out, &reference[..src.idx(reference.len() + 1)]).expect("old output");
                ctx.fault("older, shorter output present");
            }
        }
        let mut data = valid.clone();
        let mut fatal: Option<String> = None;
        let mut fmt = Fmt::default();
        let mut path = fmt_dir();
        let mut stdout = None;
        let mut input_there = true;
        let mut undo_dir = false;
        if !plain && !last {
            match src.weighted(&[10, 1, 1, 1, 1, 1, 1, 1, 2]) {
                0 => {}
                1 => {
                    input_there = false;
                    fatal = Some("input missing".into());
                }
                2 => {
                    data.extend_from_slice(b"// \xff\n");
                    fatal = Some("input not decodable".into());
                }
                3 => {
                    data = broken(src, &s, &good);
                    fatal = Some("input is no schema".into());
                }
                4 if tool == Tool::Files || tool == Tool::Entry => {
                    let _ = std::fs::remove_file(&w.out);
                    std::fs::create_dir_all(&w.out).expect("mkdir");
                    undo_dir = true;
                    fatal = Some("output path is a directory".into());
                }
                5 if tool == Tool::Files || tool == Tool::Entry => {
                    let _ = std::fs::remove_dir_all(&od);
                    fatal = Some("output directory missing".into());
                }
                6 if (tool == Tool::Pipe || tool == Tool::InFile) && !(ugly && reference.is_empty()) => {
                    let f = std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full");
                    stdout = Some(Stdio::from(f));
                    fatal = Some("standard output is full".into());
                }
                7 if (tool == Tool::Pipe || tool == Tool::InFile) && !(ugly && reference.is_empty()) => {
                    let (r, wr) = pipe();
                    drop(r);
                    stdout = Some(Stdio::from(wr));
                    fatal = Some("standard output closed by its reader".into());
                }
                8 if !ugly => {
                    if src.chance(1, 3) {
                        path = dir.join("nothing");
                        fatal = Some("formatter not installed".into());
                    } else {
                        let (f, bad) = crate::c06::draw_fmt(src, ctx, reference.len());
                        fmt = f;
                        if bad {
                            fatal = Some("formatter failed".into());
                        }
                    }
                }
                _ => {}
            }
        }
        if !ugly && fmt.pad == 0 && src.chance(1, 2) {
            fmt.pad = src.idx(900);
        }
        if let Some(f) = &fatal {
            ctx.fault(f);
        }
        if input_there {
            std::fs::write(&w.inp, &data).expect("input");
        } else {
            let _ = std::fs::remove_file(&w.inp);
        }
        // with standard input a missing file is an empty schema: no fault
        if !input_there && tool == Tool::Pipe {
            std::fs::write(&w.inp, b"table A {").expect("input");
        }
        // clocks are not to be relied on: the old output may be newer than
        // the schema, or as old
        if src.chance(1, 2) {
            let now = std::time::SystemTime::now();
            for p in [&w.inp, &w.out] {
                let t = match src.below(4) {
                    0 => now,
                    1 => now - Duration::from_secs(86_400),
                    2 => now + Duration::from_secs(3600),
                    _ => std::time::UNIX_EPOCH,
                };
                if p.is_file() {
                    let f = std::fs::OpenOptions::new().write(true).open(p).expect("open");
                    f.set_modified(t).expect("set time");
                    ctx.fault("clock skew between files");
                }
            }
        }
        if od.is_dir() {
            for p in &others {
                std::fs::write(p, b"// of another schema\n").expect("other output");
            }
        }
        let others_there = od.is_dir();
        let io = if plain || last { Act { s: String::new() } } else { draw_io(src, reference.len()) };
        ctx.mark_str(&io.s);
        ctx.mark(tool as u64 * 2 + ugly as u64);
        let d = launch(&w, tool, ugly, &io.s, &fmt, &path, stdout);
        let lost = others.iter().find(|p| others_there && std::fs::read(p).ok().as_deref() != Some(b"// of another schema\n"));
        let input_intact = !w.inp.exists() || std::fs::read(&w.inp).ok().as_deref() == Some(&data[..]) || !input_there;
        if undo_dir {
            let _ = std::fs::remove_dir_all(&w.out);
        }
        std::fs::create_dir_all(&od).expect("mkdir");
        let mut killed = false;
        for f in &d.fired {
            let cls = &f[..1];
            let kind = f.split(':').nth(1).map(|k| &k[..1]).unwrap_or("");
            let on = match cls {
                "o" => "open",
                "r" => "read",
                _ => "write",
            };
            match kind {
                "S" => ctx.fault(&format!("short {on}")),
                "I" => ctx.fault(&format!("{on} interrupted")),
                "E" => {
                    ctx.fault(&format!("{on} failed"));
                    fatal = Some(format!("{on} failed ({f})"));
                }
                _ => {
                    ctx.fault(&format!("killed at a {on}"));
                    killed = true;
                    fatal = Some(format!("killed ({f})"));
                }
            }
        }
        ctx.nontrivial |= !d.fired.is_empty();
        history.push_str(&format!(
            "{tool:?} ugly={ugly} io=[{}] fired={:?} fatal={fatal:?} -> code {:?} signal {:?}, {} bytes\n",
            io.s,
            d.fired,
            d.code,
            d.sig,
            d.out.len()
        ));
        ctx.ev(|| history.lines().last().unwrap_or("").to_string());
        let say = |m: &str| format!("{m}\nhistory:\n{history}schema:\n{}", clip(&String::from_utf8_lossy(&data)));
        if d.hung {
            return violation("tool-hangs", say("the process did not end within 30 s"));
        }
        if let Some(p) = lost {
            return violation("other-output-damaged", say(&format!("the output of another schema was damaged: {}", p.display())));
        }
        if !input_intact {
            return violation("input-damaged", say("the schema file itself was changed"));
        }
        let ok = d.code == Some(0);
        if killed && d.sig != Some(9) {
            // the layer failed to kill it: a fault of the harness
            panic!("not killed: {d:?}");
        }
        match (&fatal, ok) {
            (Some(f), true) => return violation("failure-reported-as-success", say(&format!("success although: {f}"))),
            (None, false) => return violation("spurious-failure", say("failure although nothing went wrong (apart from short and interrupted calls)")),
            (None, true) => {
                // the formatter may be given the code in another layout
                let given = d.given.clone().unwrap_or_default();
                if !ugly && squeeze(&given) != squeeze(&reference) {
                    return violation("formatter-got-less", say(&format!("success, but the formatter was not given the complete code: {}", first_diff(&given, &reference))));
                }
                let want = if ugly { reference.clone() } else { fmt.answer(&given) };
                if d.out != want {
                    return violation("wrong-output", say(&format!("success, but the output is not the complete code: {}", first_diff(&d.out, &want))));
                }
            }
            (Some(_), false) => {}
        }
    }
    Ok(())
}

fn squeeze(b: &[u8]) -> Vec<u8> {
    b.iter().copied().filter(|c| !c.is_ascii_whitespace()).collect()
}

fn pipe() -> (std::fs::File, std::fs::File) {
    use std::os::fd::FromRawFd;
    let mut f = [0i32; 2];
    let r = unsafe { crate::sys::pipe2(f.as_mut_ptr(), 0o2000000) };
    assert_eq!(r, 0);
    unsafe { (std::fs::File::from_raw_fd(f[0]), std::fs::File::from_raw_fd(f[1])) }
}
