use crate::io::*;
use crate::stub::Fmt;
use crate::sys;
use crate::util::*;
use schema::*;
use simkit::{guard, violation, Ctx, RunResult, Src};
use std::cell::RefCell;
use std::rc::Rc;

fn squeeze(b: &[u8]) -> Vec<u8> {
    b.iter().copied().filter(|c| !c.is_ascii_whitespace()).collect()
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let dir = scratch();
    let r = rounds(src, ctx, &dir);
    clean_scratch();
    r
}

/// A misbehaving formatter for `code`; true: the compile must fail.
pub fn draw_fmt(src: &mut Src, ctx: &mut Ctx, len: usize) -> (Fmt, bool) {
    let mut f = Fmt::default();
    if src.chance(1, 10) {
        f.sleep = 1 + src.below(15);
        ctx.fault("formatter slow");
    }
    if src.chance(1, 6) {
        f.pre = 1 + src.idx(20_000);
        ctx.probe("formatter writes before it reads");
    }
    if src.chance(1, 6) {
        let most = if src.chance(1, 8) { 3_000_000 } else { 200_000 };
        f.pad = src.idx(most);
    }
    if src.chance(1, 6) {
        let most = if src.chance(1, 2) { 300_000 } else { 200 };
        f.err = 1 + src.idx(most);
        ctx.fault("formatter complains on standard error");
    }
    if src.chance(1, 5) {
        f.kind = 1 + src.idx(5);
        ctx.probe("formatter's answer is not the code");
    }
    let status = |src: &mut Src| {
        if src.chance(2, 3) {
            *src.pick(&[1, 101, 2, 127, 255])
        } else {
            1 + src.idx(255) as i32
        }
    };
    let signal = |src: &mut Src| *src.pick(&[9, 15, 11, 6, 2, 1]);
    let bad = match src.weighted(&[6, 2, 2, 2, 2, 2, 2, if len > 140_100 { 8 } else { 2 }]) {
        0 => false,
        1 => {
            f.exit = status(src);
            ctx.fault("formatter failed after complete output");
            true
        }
        2 => {
            f.exit = status(src);
            f.part = Some(src.idx(len + 1));
            ctx.fault("formatter failed after partial output");
            true
        }
        3 => {
            f.sig = signal(src);
            f.part = Some(src.idx(len + 1));
            ctx.fault("formatter killed while writing");
            true
        }
        4 => {
            f.sig = signal(src);
            ctx.fault("formatter killed after complete output");
            true
        }
        5 => {
            f.read = Some(src.idx(len + 1));
            f.part = Some(0);
            f.exit = status(src);
            ctx.fault("formatter failed while reading");
            true
        }
        6 => {
            f.read = Some(src.idx(len + 1));
            f.part = Some(0);
            f.sig = signal(src);
            ctx.fault("formatter killed while reading");
            true
        }
        _ => {
            // stops reading, claims success; visible when more is left than
            // a pipe holds
            let k = src.idx(64);
            if len > k + 140_000 {
                f.read = Some(k);
                f.close_stdin = true;
                ctx.fault("formatter stopped reading");
                true
            } else {
                f.exit = status(src);
                f.read = Some(0);
                f.part = Some(0);
                ctx.fault("formatter failed at once");
                true
            }
        }
    };
    (f, bad)
}

fn rounds(src: &mut Src, ctx: &mut Ctx, dir: &std::path::Path) -> RunResult {
    let old_path = std::env::var_os("PATH");
    let r = rounds2(src, ctx, dir);
    if let Some(p) = old_path {
        std::env::set_var("PATH", p);
    }
    r
}

fn rounds2(src: &mut Src, ctx: &mut Ctx, dir: &std::path::Path) -> RunResult {
    for _ in 0..1 + src.idx(3) {
        let s = draw_schema(src, 1);
        let t = render(src, &s, false);
        let mut data = t.s.clone().into_bytes();
        // a large one, when the code has to exceed a pipe's capacity
        if src.chance(1, 8) {
            let mut i = 0;
            let mut n = 0;
            while n < 30 {
                let mut t2 = String::new();
                for k in 0..8 {
                    t2.push_str(&format!("table Zz{i}x{k} {{ a:int; b:string; c:[double]; }}\n"));
                }
                i += 1;
                n += 8;
                data.extend_from_slice(t2.as_bytes());
            }
        }
        let reference = match compile(&data, None) {
            Out::Code(c) => c,
            Out::Panic(p) => return violation("panic", format!("plain compile panicked: {p}")),
            // the schema itself is at fault: none of this property's business
            Out::Err(_) => continue,
        };
        ctx.mark_bytes(&data);
        ctx.nontrivial = true;
        let log_file = dir.join("received");
        let _ = std::fs::remove_file(&log_file);
        std::env::set_var("SIM_FMT_LOG", &log_file);
        std::env::set_var("PATH", search(&fmt_dir()));
        let (f, mut bad) = draw_fmt(src, ctx, reference.len());
        std::env::set_var("SIM_FMT", f.spec());
        ctx.mark_str(&f.spec());
        ctx.ev(|| format!("formatter: {f:?}"));
        let mut started = true;
        match src.weighted(&[12, 1, 1, 1, 1]) {
            0 => {}
            1 => {
                let d = dir.join("empty");
                let _ = std::fs::create_dir_all(&d);
                std::env::set_var("PATH", search(&d));
                ctx.fault("formatter not installed");
                started = false;
            }
            2 => {
                let d = dir.join("noexec");
                let _ = std::fs::create_dir_all(&d);
                std::fs::write(d.join("rustfmt"), "#!/bin/false\n").expect("write");
                std::env::set_var("PATH", search(&d));
                ctx.fault("formatter not executable");
                started = false;
            }
            3 => {
                let d = dir.join("interp");
                let _ = std::fs::create_dir_all(&d);
                let p = d.join("rustfmt");
                std::fs::write(&p, "#!/nonexistent/interpreter\n").expect("write");
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).expect("chmod");
                std::env::set_var("PATH", search(&d));
                ctx.fault("formatter's interpreter missing");
                started = false;
            }
            _ => {
                sys::fail_pipe(src.below(2) as i64);
                ctx.probe("no pipe to be had, armed");
            }
        }
        bad |= !started;
        let want_out = f.answer(&reference);
        let (res, log) = lend(src, |sh| {
            let log: LogRc = Rc::new(RefCell::new(Log::default()));
            // the code given to the formatter may be laid out differently,
            // so the sink is compared afterwards with what was received
            let mut sink = draw_sink(sh, &log, &want_out, !bad);
            sink.want = vec![];
            let input = data.clone();
            let r = guard(|| {
                butte_build::compile_fbs_generic(false, None, Box::new(std::io::Cursor::new(input)), Box::new(sink))
                    .map_err(|e| format!("{e:#}"))
            });
            (r, log)
        });
        if sys::pipe_failed() {
            ctx.fault("no pipe to be had");
            bad = true;
        }
        let log = log.borrow();
        log.report(ctx);
        ctx.ev(|| format!("result: {res:?}"));
        let d = |what: &str| {
            format!(
                "{what}; formatter {f:?}, started {started}; {} bytes of code, {} bytes in the sink, write failed {}; result {res:?}; schema:\n{}",
                reference.len(),
                log.content.len(),
                log.write_failed,
                crate::c05::clip(&String::from_utf8_lossy(&data))
            )
        };
        let ok = match &res {
            Err(p) => return violation("panic", d(&format!("the compile panicked: {p}"))),
            Ok(r) => r.is_ok(),
        };
        if bad {
            if ok {
                return violation("formatter-failure-swallowed", d("the formatter failed, the compile reports success"));
            }
            if !log.content.is_empty() {
                return violation("output-despite-failure", d("the formatter failed, but bytes reached the sink"));
            }
            continue;
        }
        let got = std::fs::read(&log_file).unwrap_or_default();
        let answer = f.answer(&got);
        if squeeze(&got) != squeeze(&reference) {
            return violation("formatter-got-less", d(&format!("the formatter did not get the complete code: {}", first_diff(&got, &reference))));
        }
        if !answer.starts_with(&log.content) {
            return violation("not-the-formatters-output", d(&first_diff(&log.content, &answer)));
        }
        if log.write_failed {
            if ok {
                return violation("error-swallowed", d("the sink failed, the compile reports success"));
            }
            continue;
        }
        if !ok {
            return violation("spurious-error", d("formatter and sink worked, the compile reports an error"));
        }
        if log.content != answer {
            return violation("not-the-formatters-output", d(&first_diff(&log.content, &answer)));
        }
        if log.durable != answer.len() {
            return violation("unflushed", d("success, but accepted bytes were never flushed"));
        }
    }
    Ok(())
}
