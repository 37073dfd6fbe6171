//! C02: a reset builder equals a new one.

use crate::prog::*;
use simkit::{guard, hex, violation, Ctx, RunResult, Src};

struct Track {
    name: String,
    b: FB,
    offs: Vec<u32>,
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let mut pool = Pool::default();
    let mut used = FB::new_with_capacity(capacity(src));
    let rounds = 1 + src.below(3);
    for _ in 0..rounds {
        let did = dirty(src, &mut pool, &mut used);
        for d in &did {
            ctx.fault(d);
            ctx.ev(|| format!("history: {d}"));
        }
    }
    if let Err(m) = guard(|| used.reset()) {
        return violation("reset:panic", m);
    }
    ctx.ev(|| "reset".into());
    let cap = capacity(src);
    let mut tracks = vec![
        Track {
            name: "new builder".into(),
            b: FB::new(),
            offs: vec![],
        },
        Track {
            name: format!("new builder of capacity {cap}"),
            b: FB::new_with_capacity(cap),
            offs: vec![],
        },
        Track {
            name: "builder after reset".into(),
            b: used,
            offs: vec![],
        },
    ];
    let p = gen_prog(src, &mut pool, 10);
    let split = if src.chance(1, 2) { Some(src.idx(p.ops.len() + 1)) } else { None };
    for (i, op) in p.ops.iter().enumerate() {
        ctx.step();
        if split == Some(i) {
            // a clone goes on as the original would; another one is ruined
            let of = src.idx(tracks.len());
            let t = &tracks[of];
            let c = Track {
                name: format!("clone of {} before operation {i}", t.name),
                b: t.b.clone(),
                offs: t.offs.clone(),
            };
            let mut spoiled = t.b.clone();
            for d in dirty(src, &mut pool, &mut spoiled) {
                ctx.fault(d);
            }
            if src.chance(1, 2) {
                spoiled.reset();
            }
            ctx.probe("clone in mid-message");
            tracks.push(c);
        }
        ctx.ev(|| format!("operation {i}: {op:?}").chars().take(200).collect());
        let mut first: Option<(Vec<u8>, usize, u32)> = None;
        for t in &mut tracks {
            let o = match guard(|| exec(&mut t.b, op, &t.offs)) {
                Ok(o) => o,
                Err(m) => return violation("op:panic", format!("{}: operation {i} {op:?}: {m}", t.name)),
            };
            t.offs.push(o);
            let now = (t.b.unfinished_data().to_vec(), t.b.num_written_vtables(), o);
            match &first {
                None => first = Some(now),
                Some(f) if *f == now => {}
                Some(f) => {
                    return violation(
                        "diverged",
                        format!(
                            "{} differs after operation {i}: offset {} / {}, vtables {} / {}, bytes {} / {}",
                            t.name,
                            now.2,
                            f.2,
                            now.1,
                            f.1,
                            hex(&now.0),
                            hex(&f.0)
                        ),
                    )
                }
            }
        }
    }
    let mut first: Option<Vec<u8>> = None;
    for t in &mut tracks {
        if let Err(m) = guard(|| finish(&mut t.b, &p.fin, &t.offs)) {
            return violation("finish:panic", format!("{}: {m}", t.name));
        }
        let d = t.b.finished_data().to_vec();
        match &first {
            None => {
                ctx.mark_bytes(&d);
                first = Some(d);
            }
            Some(f) if *f == d => {}
            Some(f) => {
                return violation(
                    "finished-bytes",
                    format!("{} finishes with {} instead of {}", t.name, hex(&d), hex(f)),
                )
            }
        }
        let (v, head) = t.b.clone().collapse();
        if v.get(head..) != first.as_deref() {
            return violation("collapse", format!("{}: collapse gives other bytes", t.name));
        }
    }
    Ok(())
}
