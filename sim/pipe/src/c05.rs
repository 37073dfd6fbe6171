use crate::io::*;
use crate::util::*;
use schema::*;
use simkit::{guard, violation, Ctx, RunResult, Src};
use std::cell::RefCell;
use std::rc::Rc;

/// Every declared name of a type is in the code.
pub fn missing_name(s: &Schema, code: &[u8]) -> Option<String> {
    let t = String::from_utf8_lossy(code);
    s.types.iter().map(|d| &d.name).find(|n| !t.contains(n.as_str())).cloned()
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let rounds = 1 + src.idx(2);
    for _ in 0..rounds {
        let s = draw_schema(src, 1);
        let noise = src.chance(1, 2);
        let mut t = render(src, &s, noise);
        let plain = t.s.clone();
        pad(src, &mut t);
        let mut data = t.s.clone().into_bytes();
        let mut undecodable = false;
        let mut invalid = false;
        match src.weighted(&[7, 2, 2]) {
            1 => {
                let at = offset(src, data.len());
                let bad: &[u8] = src.pick::<&[u8]>(&[b"\xff", b"\xc3", b"\xe4\xb8", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80"]);
                // inside a comment line of its own, so that nothing else is wrong
                let mut ins = b"\n// ".to_vec();
                ins.extend_from_slice(bad);
                ins.push(b'\n');
                let at = if at == data.len() { at } else { 0 };
                data.splice(at..at, ins);
                undecodable = true;
                ctx.fault("undecodable input");
            }
            2 => {
                data = broken(src, &s, &t);
                invalid = true;
                ctx.fault("not a schema");
            }
            _ => {}
        }
        let want: Vec<u8> = if undecodable || invalid {
            vec![]
        } else {
            match compile(&data, None) {
                Out::Code(c) => {
                    if let Some(n) = missing_name(&s, &c) {
                        return violation(
                            "incomplete-code",
                            format!("a compile over faultless streams succeeded without any code for {n}; schema:\n{}", clip(&t.s)),
                        );
                    }
                    c
                }
                Out::Panic(p) => {
                    return violation("panic", format!("faultless streams: the compile panicked: {p}; schema:\n{}", clip(&t.s)));
                }
                Out::Err(e) => {
                    // only a rejection that has to do with the stream counts here
                    if let Out::Code(_) = compile(plain.as_bytes(), None) {
                        return violation(
                            "large-schema-failed",
                            format!("compiles, but not with comments that make it {} bytes long: {e}; schema:\n{}", data.len(), clip(&plain)),
                        );
                    }
                    ctx.probe("drawn schema refused by the compiler");
                    ctx.ev(|| format!("refused: {e}"));
                    invalid = true;
                    vec![]
                }
            }
        };
        ctx.mark_bytes(&data);
        ctx.nontrivial = true;
        let (res, log, mode) = lend(src, |sh| {
            let log: LogRc = Rc::new(RefCell::new(Log::default()));
            let sink = draw_sink(sh, &log, &want, true);
            let mut q = sh.borrow_mut();
            let mode = q.weighted(&[2, 2, 3, 2]) as u64;
            let interrupts = q.chance(1, 3);
            let fail_at = if q.chance(1, 4) { Some(offset(&mut q, data.len())) } else { None };
            drop(q);
            let source = Source {
                src: sh.clone(),
                log: log.clone(),
                data: data.clone(),
                pos: 0,
                mode,
                interrupts,
                fail_at,
                calls: 0,
            };
            let r = guard(|| {
                butte_build::compile_fbs_generic(true, None, Box::new(source), Box::new(sink)).map_err(|e| format!("{e:#}"))
            });
            (r, log, mode)
        });
        let log = log.borrow();
        log.report(ctx);
        ctx.mark(mode);
        ctx.mark(log.content.len() as u64);
        ctx.ev(|| format!("result: {res:?}"));
        let d = |what: &str| {
            format!(
                "{what}; {} bytes of schema, {} of code, {} accepted by the sink, {} durable, read failed {}, write failed {}, undecodable {undecodable}, not a schema {invalid}; result {:?}; schema starts:\n{}",
                data.len(),
                want.len(),
                log.content.len(),
                log.durable,
                log.read_failed,
                log.write_failed,
                res,
                clip(&String::from_utf8_lossy(&data))
            )
        };
        let ok = match &res {
            Err(p) => return violation("panic", d(&format!("the compile panicked: {p}"))),
            Ok(r) => r.is_ok(),
        };
        if let Some(b) = &log.bad {
            return violation("not-a-prefix", d(b));
        }
        let unread = log.read_failed || undecodable || invalid;
        if unread && !log.content.is_empty() {
            return violation("output-without-schema", d("bytes reached the sink although the schema could not be read or compiled"));
        }
        if ok && (unread || log.write_failed) {
            return violation("error-swallowed", d("the compile reports success although a stream failed or the input is no schema"));
        }
        if ok && log.content != want {
            return violation("incomplete-code", d("success, but the sink did not get the complete code"));
        }
        if ok && log.durable != want.len() {
            return violation("unflushed", d("success, but accepted bytes were never flushed"));
        }
        if !ok && !unread && !log.write_failed {
            return violation("spurious-error", d("an error although every stream worked (apart from short and interrupted calls)"));
        }
    }
    Ok(())
}

pub fn clip(s: &str) -> String {
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s.to_string()
    }
}
