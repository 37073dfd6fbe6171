use crate::c07::{perform, Task};
use crate::sys;
use crate::util::*;
use butte_build::codegen::RpcGenerator;
use butte_build::ir::types as ir;
use proc_macro2::TokenStream;
use schema::*;
use simkit::coop::{Job, Seam};
use simkit::{violation, Ctx, RunResult, Src};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub name: Vec<String>,
    /// name, snake name, request, response, streaming
    pub methods: Vec<(String, String, Vec<String>, Vec<String>, u8)>,
}

/// Records every call and leaves a numbered item in the code.
pub struct Rec {
    pub seen: Arc<Mutex<Vec<Seen>>>,
    pub seam: Option<Seam>,
    pub die_at: Option<usize>,
    pub tag: u64,
}

impl Rec {
    pub fn plain() -> Rec {
        Rec {
            seen: Default::default(),
            seam: None,
            die_at: None,
            tag: 0,
        }
    }
}

fn parts(q: &ir::QualifiedIdent<'_>) -> Vec<String> {
    q.parts.iter().map(|p| p.raw.to_string()).collect()
}

impl RpcGenerator for Rec {
    fn generate<'a>(&mut self, rpc: &ir::Rpc<'a>, ts: &mut TokenStream) {
        if let Some(s) = &self.seam {
            s.yield_now();
        }
        let n = self.seen.lock().unwrap().len();
        if self.die_at == Some(n) {
            panic!("injected: the generator dies");
        }
        self.seen.lock().unwrap().push(Seen {
            name: parts(&rpc.ident),
            methods: rpc
                .methods
                .iter()
                .map(|m| {
                    (
                        m.ident.raw.to_string(),
                        m.snake_ident.raw.to_string(),
                        parts(&m.request_type),
                        parts(&m.response_type),
                        match m.metadata.streaming {
                            ir::RpcStreaming::None => 0,
                            ir::RpcStreaming::Client => 1,
                            ir::RpcStreaming::Server => 2,
                            ir::RpcStreaming::Bidi => 3,
                        },
                    )
                })
                .collect(),
        });
        let info = format!("{:?}", self.seen.lock().unwrap()[n]);
        let t: TokenStream = format!("pub const SIM_MARK_{}_{} : u64 = {} ; pub const SIM_INFO : & str = {info:?} ;", self.tag, n, n)
            .parse()
            .expect("tokens");
        ts.extend(t);
        if let Some(s) = &self.seam {
            s.yield_now();
        }
    }
}

/// Module path and number of every mark in the code.
fn marks(code: &str, tag: u64) -> Result<Vec<(Vec<String>, usize)>, String> {
    let b: Vec<char> = code.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    // for every open brace: Some(module) or None
    let mut open: Vec<Option<String>> = vec![];
    let mut prev: [String; 2] = Default::default();
    let prefix = format!("SIM_MARK_{tag}_");
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
            prev = [std::mem::take(&mut prev[1]), "\"".into()];
            continue;
        }
        if c == '\'' {
            // a lifetime, or a character
            if b.get(i + 2) == Some(&'\'') && b.get(i + 1) != Some(&'\\') {
                i += 3;
            } else if b.get(i + 1) == Some(&'\\') {
                i += 2;
                while i < b.len() && b[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else {
                i += 1;
            }
            continue;
        }
        if c.is_alphanumeric() || c == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[s..i].iter().collect();
            if let Some(n) = w.strip_prefix(&prefix) {
                let n: usize = n.parse().map_err(|_| format!("mark {w}"))?;
                if open.iter().any(|o| o.is_none()) {
                    return Err(format!("{w} is not directly inside a module"));
                }
                out.push((open.iter().flatten().cloned().collect(), n));
            }
            prev = [std::mem::take(&mut prev[1]), w];
            continue;
        }
        if c == '{' {
            if prev[0] == "mod" {
                open.push(Some(prev[1].clone()));
            } else {
                open.push(None);
            }
        } else if c == '}' {
            if open.pop().is_none() {
                return Err("unbalanced braces".into());
            }
        }
        prev = [std::mem::take(&mut prev[1]), c.to_string()];
        i += 1;
    }
    Ok(out)
}

/// Two spellings of one name: generated names may be adapted to Rust.
fn like(got: &str, raw: &str) -> bool {
    let k = |s: &str| {
        let s = s.strip_prefix("r#").unwrap_or(s);
        s.chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect::<String>()
    };
    got == raw || k(got) == k(raw) || (k(raw) == "type" && k(got) == "ty")
}

fn plain_name(raw: &str) -> bool {
    !matches!(
        raw,
        "Self" | "self" | "type" | "match" | "as" | "fn" | "mod" | "ref" | "impl" | "use" | "box" | "try" | "async" | "await" | "dyn" | "where" | "loop" | "move"
            | "static" | "super" | "crate" | "in" | "let" | "do" | "yield"
    )
}

fn name_ok(got: &str, raw: &str) -> bool {
    if plain_name(raw) {
        got == raw
    } else {
        like(got, raw)
    }
}

fn path_ok(got: &[String], s: &Schema, ns: usize, last: &str) -> bool {
    let mut want: Vec<&str> = s.ns[ns].iter().map(|x| x.as_str()).collect();
    want.push(last);
    got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| name_ok(g, w))
}

pub fn check(s: &Schema, odd: bool, seen: &[Seen], code: &[u8], tag: u64) -> RunResult {
    let declared: Vec<&Service> = s
        .order
        .iter()
        .filter_map(|it| match it {
            Item::Service(x) => Some(&s.services[*x]),
            _ => None,
        })
        .collect();
    let v = |class: &str, m: String| violation(class, m);
    if seen.len() != declared.len() {
        return v("service-count", format!("{} services declared, the generator was called {} times: {seen:?}", declared.len(), seen.len()));
    }
    // which call belongs to which declaration
    let mut of: Vec<usize> = vec![];
    for d in &declared {
        let hits: Vec<usize> = (0..seen.len()).filter(|&i| path_ok(&seen[i].name, s, d.ns, &d.name)).collect();
        if hits.len() != 1 {
            return v(
                "service-missing",
                format!("service {}.{} reached the generator {} times; calls: {seen:?}", s.ns[d.ns].join("."), d.name, hits.len()),
            );
        }
        of.push(hits[0]);
    }
    for i in 0..declared.len() {
        for j in i + 1..declared.len() {
            if declared[i].ns == declared[j].ns && of[i] > of[j] {
                return v("service-order", format!("{} is declared before {} but came later", declared[i].name, declared[j].name));
            }
        }
    }
    for (d, &k) in declared.iter().zip(&of) {
        let got = &seen[k].methods;
        if got.len() != d.methods.len() {
            return v("method-count", format!("{}: {} methods declared, {} given: {got:?}", d.name, d.methods.len(), got.len()));
        }
        for (m, g) in d.methods.iter().zip(got) {
            let (req, res) = (&s.types[m.req], &s.types[m.res]);
            let st = match m.streaming {
                Streaming::None => 0,
                Streaming::Client => 1,
                Streaming::Server => 2,
                Streaming::Bidi => 3,
            };
            let w = |f: &str, a: String| format!("{}.{}: {f}: declared {a}, given {g:?}", d.name, m.name);
            if !name_ok(&g.0, &m.name) {
                return v("method-name", w("name", m.name.clone()));
            }
            if !like(&g.1, &m.name) || (!odd && g.1 != m.name.to_lowercase()) {
                return v("method-name", w("snake name", m.name.clone()));
            }
            if !path_ok(&g.2, s, req.ns, &req.name) {
                return v("method-type", w("request", s.full_name(m.req)));
            }
            if !path_ok(&g.3, s, res.ns, &res.name) {
                return v("method-type", w("response", s.full_name(m.res)));
            }
            if g.4 != st {
                return v("method-streaming", w("streaming", format!("{:?}", m.streaming)));
            }
        }
    }
    let text = String::from_utf8_lossy(code);
    let ms = match marks(&text, tag) {
        Ok(m) => m,
        Err(e) => return v("emitted-place", e),
    };
    if ms.len() != declared.len() {
        return v("emitted-count", format!("{} items in the code for {} services: {ms:?}", ms.len(), declared.len()));
    }
    for (d, &k) in declared.iter().zip(&of) {
        let hit: Vec<_> = ms.iter().filter(|m| m.1 == k).collect();
        if hit.len() != 1 {
            return v("emitted-count", format!("{}: its item appears {} times", d.name, hit.len()));
        }
        let want = &s.ns[d.ns];
        if hit[0].0.len() != want.len() || !hit[0].0.iter().zip(want).all(|(g, w)| like(g, w)) {
            return v("emitted-place", format!("{}: its item is in module {:?}, its namespace is {want:?}", d.name, hit[0].0));
        }
    }
    for i in 0..declared.len() {
        for j in i + 1..declared.len() {
            let p = |k: usize| ms.iter().position(|m| m.1 == k);
            if declared[i].ns == declared[j].ns && p(of[i]) > p(of[j]) {
                return v("emitted-place", format!("the item of {} comes after that of {}", declared[i].name, declared[j].name));
            }
        }
    }
    Ok(())
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let n = 1 + src.idx(3);
    let mut all = vec![];
    for i in 0..n {
        let odd = src.chance(1, 3);
        let opts = Opts {
            versions: 1,
            tables: 1 + src.below(5),
            fields: 1 + src.below(4),
            services: src.weighted(&[1, 2, 3, 3, 2]) as u64,
            odd_names: odd,
            namespaces: 1 + src.below(4),
        };
        let s = gen_family(src, opts).versions.remove(0);
        let noise = src.chance(1, 2);
        let t = render(src, &s, noise);
        ctx.mark_bytes(t.s.as_bytes());
        let mut fault = 0;
        let mut text = t.s.clone().into_bytes();
        if n > 1 {
            fault = src.weighted(&[5, 1, 1, 1, 1]) as u8;
            match fault {
                1 => ctx.fault("input fails"),
                2 => ctx.fault("sink fails"),
                3 => ctx.fault("sink panics"),
                4 => ctx.fault("generator panics"),
                _ => {
                    if src.chance(1, 6) {
                        text.extend_from_slice(b"\ntable ");
                        fault = 9;
                        ctx.fault("another schema is cut");
                    }
                }
            }
        }
        if s.services.len() > 1 {
            ctx.nontrivial = true;
        }
        all.push((
            s,
            odd,
            t.s,
            Task {
                text,
                gen: true,
                fault,
                seed: src.u64(),
                clock: src.below(4_000_000_000) as i64,
                which: i,
            },
        ));
        ctx.step();
    }
    let recs: Vec<Arc<Mutex<Vec<Seen>>>> = (0..n).map(|_| Default::default()).collect();
    let outs: Vec<Out> = if n > 1 && src.chance(1, 2) {
        let jobs: Vec<Job<Out>> = all
            .iter()
            .zip(&recs)
            .map(|(a, r)| {
                let t = a.3.clone();
                let seen = r.clone();
                Box::new(move |seam: Seam| {
                    sys::set_hash_seed(t.seed);
                    let rec = Rec {
                        seen,
                        seam: None,
                        die_at: None,
                        tag: t.which as u64,
                    };
                    perform(&t, Some(seam), Some(rec))
                }) as Job<Out>
            })
            .collect();
        let (res, sched, stops) = crate::c07::interleave(src, jobs, &all[0].3);
        if stops > 0 {
            ctx.probe("compiles switched between two blocks");
        }
        for s in &sched {
            ctx.mark(*s as u64);
        }
        ctx.probe("compiles interleaved");
        ctx.ev(|| format!("schedule {sched:?}"));
        res.into_iter().map(|r| r.unwrap_or(Out::Panic("thread died".into()))).collect()
    } else {
        all.iter()
            .zip(&recs)
            .map(|(a, r)| {
                let rec = Rec {
                    seen: r.clone(),
                    seam: None,
                    die_at: None,
                    tag: a.3.which as u64,
                };
                perform(&a.3, None, Some(rec))
            })
            .collect()
    };
    for ((a, r), o) in all.iter().zip(&recs).zip(&outs) {
        let (s, odd, text, t) = a;
        ctx.ev(|| format!("schema {} ({} services), fault {}: {}", t.which, s.services.len(), t.fault, o.short()));
        if t.fault != 0 {
            continue;
        }
        match o {
            Out::Code(c) => check(s, *odd, &r.lock().unwrap(), c, t.which as u64).map_err(|mut v| {
                v.detail = format!("{}\nschema:\n{}", v.detail, crate::c05::clip(text));
                v
            })?,
            o => {
                // a schema the compiler rejects by itself is not this
                // property's business; one it rejects only with services or
                // in this company is
                let mut bare = s.clone();
                bare.services.clear();
                bare.order.retain(|i| !matches!(i, Item::Service(_)));
                let t2 = render(&mut Src::from_choices(vec![]), &bare, false);
                if let Out::Code(_) = compile(t2.s.as_bytes(), None) {
                    return violation("service-lost", format!("{}; without its services the schema compiles\nschema:\n{}", o.short(), crate::c05::clip(text)));
                }
            }
        }
    }
    Ok(())
}
