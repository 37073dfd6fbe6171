//! Draw the schema families of a check, compile them with the code under
//! test, and write the glue that lets the simulated cluster build and read
//! values through the generated code.
//!
//! usage: gen SEED COUNT OUTDIR. Exit 3: a schema did not compile.

use heck::SnakeCase;
use schema::*;
use std::fmt::Write as _;
use std::io::Write;
use std::sync::{Arc, Mutex};

fn kw(s: &str) -> String {
    const K: [&str; 51] = [
        "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn",
        "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self",
        "Self", "static", "struct", "super", "trait", "true", "unsafe", "use", "where", "while", "abstract", "become",
        "box", "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "__none",
    ];
    if s == "type" {
        "ty".into()
    } else if K.contains(&s) {
        format!("{s}_")
    } else {
        s.into()
    }
}

fn snake(s: &str) -> String {
    kw(&kw(s).to_snake_case())
}

fn modpath(s: &Schema, ns: usize) -> String {
    let mut p = String::from("code");
    for part in &s.ns[ns] {
        p.push_str("::");
        p.push_str(&snake(part));
    }
    p
}

fn tpath(s: &Schema, t: usize) -> String {
    format!("{}::{}", modpath(s, s.types[t].ns), s.types[t].name)
}

fn upath(s: &Schema, u: usize) -> String {
    format!("{}::butte_gen::{}Type", modpath(s, s.types[u].ns), s.types[u].name)
}

fn lit_expr(s: &Schema, ty: &Ty, l: Lit) -> String {
    match (ty, l) {
        (_, Lit::Bool(b)) => b.to_string(),
        (Ty::Prim(p), Lit::Int(i)) => format!("({i}i128 as {})", p.rust()),
        (_, Lit::F32(b)) => format!("f32::from_bits({b}u32)"),
        (_, Lit::F64(b)) => format!("f64::from_bits({b}u64)"),
        (Ty::Enum(e), Lit::Variant(v)) => format!("{}::{}", tpath(s, *e), kw(&s.variants(*e)[v].name)),
        _ => panic!(),
    }
}

/// Expression that turns a `&Val` into the Rust value of a scalar type.
fn scalar_expr(s: &Schema, ty: &Ty, v: &str) -> String {
    let _ = s;
    match ty {
        Ty::Prim(Prim::Bool) => format!("as_bool({v})"),
        Ty::Prim(Prim::F32) => format!("as_f32({v})"),
        Ty::Prim(Prim::F64) => format!("as_f64({v})"),
        Ty::Prim(p) => format!("(as_int({v}) as {})", p.rust()),
        Ty::Enum(e) => format!("enum_{e}(as_variant({v}))"),
        _ => panic!(),
    }
}

/// Expression that writes a non-scalar value and yields its offset.
fn write_expr(s: &Schema, ty: &Ty, v: &str, d: u32) -> String {
    match ty {
        Ty::Str => format!("p.string(b, as_str({v}))"),
        Ty::Table(t) => format!("build_{t}(b, as_tab({v}), p)"),
        Ty::Vec(e) => {
            let x = format!("x{d}");
            match &**e {
                Ty::Prim(Prim::Bool) | Ty::Enum(_) => format!(
                    "{{ let items: Vec<_> = as_vec({v}).iter().map(|{x}| {}).collect(); p.items(b, &items) }}",
                    scalar_expr(s, e, &x)
                ),
                Ty::Prim(_) => format!(
                    "{{ let items: Vec<_> = as_vec({v}).iter().map(|{x}| {}).collect(); p.plain(b, &items) }}",
                    scalar_expr(s, e, &x)
                ),
                Ty::Str => format!("p.strings(b, as_vec({v}))"),
                inner => format!(
                    "{{ let mut items = vec![]; for {x} in as_vec({v}) {{ items.push({}); }} p.offsets(b, &items) }}",
                    write_expr(s, inner, &x, d + 1)
                ),
            }
        }
        _ => panic!(),
    }
}

/// Expression that turns a value read (variable `v`) into an `Obs`.
fn read_expr(s: &Schema, ty: &Ty, v: &str, d: u32) -> String {
    match ty {
        Ty::Prim(Prim::Bool) => format!("Obs::Bool({v})"),
        Ty::Prim(Prim::F32) => format!("Obs::F32({v}.to_bits())"),
        Ty::Prim(Prim::F64) => format!("Obs::F64({v}.to_bits())"),
        Ty::Prim(_) => format!("Obs::Int({v} as i128)"),
        Ty::Str => format!("rd.text({v})"),
        Ty::Enum(e) => format!("Obs::Enum(<{}>::from({v}) as i128)", s.enum_base(*e).rust()),
        Ty::Table(t) => format!("{{ let t = {v}; rd.down(|rd| read_{t}(&t, rd)) }}"),
        Ty::Union(u) => {
            let arms: Vec<String> = s
                .members(*u)
                .iter()
                .enumerate()
                .map(|(i, m)| {
                    format!(
                        "{}::{}(t) => rd.union({i}, k, |rd| read_{m}(&t, rd))",
                        tpath(s, *u),
                        kw(&s.types[*m].name)
                    )
                })
                .collect();
            format!(
                "{{ let u = {v}; let k = <u8>::from(u.get_type()) as usize; match u {{ {} }} }}",
                arms.join(", ")
            )
        }
        Ty::Vec(e) => {
            let x = format!("e{d}");
            let inner = read_expr(s, e, &x, d + 1);
            match &**e {
                Ty::Prim(p) if *p != Prim::Bool => format!("rd.slice({v}, |{x}, rd| {{ let _ = &rd; {inner} }})"),
                _ => format!("rd.vector({v}, |{x}, rd| {{ let _ = &rd; {inner} }})"),
            }
        }
    }
}

fn glue(s: &Schema, f: usize, v: usize) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "pub mod f{f}v{v} {{");
    let _ = writeln!(o, "#[allow(warnings)] pub mod code {{ include!(concat!(env!(\"SIM_GEN\"), \"/f{f}v{v}.rs\")); }}");
    let _ = writeln!(o, "use crate::sup::*;");
    for (i, d) in s.types.iter().enumerate() {
        match &d.kind {
            Kind::Enum(base, _, vs) => {
                let p = tpath(s, i);
                let _ = writeln!(o, "fn enum_{i}(i: usize) -> {p} {{ match i {{");
                for (k, x) in vs.iter().enumerate() {
                    let _ = writeln!(o, "{k} => {p}::{},", kw(&x.name));
                }
                let _ = writeln!(o, "_ => panic!(\"no such variant\") }} }}");
                // the numbers a reader of another language relies on
                let _ = writeln!(o, "pub fn numbers_{i}() -> Vec<(i128, Option<bool>, &'static str)> {{ vec![");
                for x in vs {
                    let id = kw(&x.name);
                    let _ = writeln!(
                        o,
                        "(<{b}>::from({p}::{id}) as i128, <{p} as std::convert::TryFrom<{b}>>::try_from({val}i128 as {b}).ok().map(|e| e == {p}::{id}), {m}::enum_name_{sn}({p}::{id})),",
                        b = base.rust(),
                        val = x.value,
                        m = modpath(s, d.ns),
                        sn = d.name.to_snake_case(),
                    );
                }
                let _ = writeln!(o, "] }}");
            }
            Kind::Union(_) => {}
            Kind::Table(fields) => {
                let p = tpath(s, i);
                let args = format!("{p}Args");
                let has_default = fields.iter().all(|f| !f.required || f.ty.is_scalar());
                let _ = writeln!(
                    o,
                    "pub fn build_{i}(b: &mut FB, v: &TVal, p: &mut Plan) -> butte::WIPOffset<{p}<&'static [u8]>> {{"
                );
                let _ = writeln!(o, "let f = &v.fields; let _ = f; p.tick();");
                let refs: Vec<usize> = (0..fields.len()).filter(|&k| !fields[k].ty.is_scalar()).collect();
                for k in &refs {
                    let _ = writeln!(o, "let mut o{k} = None;");
                    if matches!(fields[*k].ty, Ty::Union(_)) {
                        let _ = writeln!(o, "let mut u{k} = 0usize;");
                    }
                }
                if !refs.is_empty() {
                    let _ = writeln!(o, "for k in p.order({}) {{ match k {{", refs.len());
                    for (n, k) in refs.iter().enumerate() {
                        let fl = &fields[*k];
                        let body = match &fl.ty {
                            Ty::Union(u) => {
                                let arms: Vec<String> = s
                                    .members(*u)
                                    .iter()
                                    .enumerate()
                                    .map(|(mi, m)| format!("{mi} => build_{m}(b, t, p).as_union_value()"))
                                    .collect();
                                format!(
                                    "let (m, t) = as_union(x); u{k} = m + 1; o{k} = Some(match m {{ {}, _ => panic!() }});",
                                    arms.join(", ")
                                )
                            }
                            ty => format!("o{k} = Some({});", write_expr(s, ty, "x", 0)),
                        };
                        let _ = writeln!(o, "{n} => if let Some(x) = &f[{k}] {{ {body} }}");
                    }
                    let _ = writeln!(o, "_ => {{}} }} }}");
                }
                // arguments
                let mut sets = vec![];
                for (k, fl) in fields.iter().enumerate() {
                    let id = kw(&fl.name);
                    match &fl.ty {
                        Ty::Union(u) => {
                            let cid = kw(&format!("{}_type", kw(&fl.name).to_snake_case()));
                            let up = upath(s, *u);
                            let arms: Vec<String> = s
                                .members(*u)
                                .iter()
                                .enumerate()
                                .map(|(mi, m)| format!("{} => {up}::{}", mi + 1, kw(&s.types[*m].name)))
                                .collect();
                            sets.push((cid, format!("match u{k} {{ {}, _ => {up}::None }}", arms.join(", ")), None));
                            sets.push((id, if fl.required { format!("o{k}.expect(\"required\")") } else { format!("o{k}") }, None));
                        }
                        ty if ty.is_scalar() => {
                            let unset = match field_default(fl) {
                                Some(l) => lit_expr(s, ty, l),
                                None => match ty {
                                    Ty::Enum(_) => lit_expr(s, ty, Lit::Variant(0)),
                                    _ => panic!(),
                                },
                            };
                            sets.push((id, scalar_expr(s, ty, "x"), Some((k, unset))));
                        }
                        _ => sets.push((id, if fl.required { format!("o{k}.expect(\"required\")") } else { format!("o{k}") }, None)),
                    }
                }
                if has_default {
                    let _ = writeln!(o, "let mut args = {args}::default();");
                    for (id, e, opt) in &sets {
                        match opt {
                            Some((k, _)) => {
                                let _ = writeln!(o, "if let Some(x) = &f[{k}] {{ args.{id} = {e}; }}");
                            }
                            None => {
                                let _ = writeln!(o, "args.{id} = {e};");
                            }
                        }
                    }
                } else {
                    let _ = writeln!(o, "let args = {args} {{");
                    for (id, e, opt) in &sets {
                        match opt {
                            Some((k, unset)) => {
                                let _ = writeln!(o, "{id}: match &f[{k}] {{ Some(x) => {e}, None => {unset} }},");
                            }
                            None => {
                                let _ = writeln!(o, "{id}: {e},");
                            }
                        }
                    }
                    let _ = writeln!(o, "}};");
                }
                let _ = writeln!(o, "p.tick(); let r = {p}::create(b, &args); p.tick(); r }}");

                // reader
                let _ = writeln!(o, "pub fn read_{i}<B: AsRef<[u8]>>(t: &{p}<B>, rd: &mut Rd) -> Obs {{ let _ = t; let _ = &rd; Obs::Tab(vec![");
                for fl in fields {
                    let get = snake(&fl.name);
                    if let Ty::Union(_) = &fl.ty {
                        let cget = kw(&kw(&format!("{}_type", kw(&fl.name).to_snake_case())).to_snake_case());
                        let opt = if fl.required { ".map(Some)" } else { "" };
                        let _ = writeln!(o, "match t.{cget}(){opt} {{ Err(e) => err(e), Ok(None) => Obs::Absent, Ok(Some(x)) => Obs::Enum(<u8>::from(x) as i128) }},");
                    }
                    let opt = if fl.required { ".map(Some)" } else { "" };
                    let _ = writeln!(
                        o,
                        "match t.{get}(){opt} {{ Err(e) => err(e), Ok(None) => Obs::Absent, Ok(Some(x)) => {} }},",
                        read_expr(s, &fl.ty, "x", 0)
                    );
                }
                let _ = writeln!(o, "]) }}");
            }
        }
    }
    // dispatch
    let _ = writeln!(o, "pub fn build(t: usize, b: &mut FB, v: &TVal, p: &mut Plan, fin: Fin) {{ match t {{");
    for t in s.tables() {
        let _ = writeln!(o, "{t} => {{ let r = build_{t}(b, v, p); fin.apply(b, r); }}");
    }
    let _ = writeln!(o, "_ => panic!() }} }}");
    // used for values that end up in the buffer without being referred to
    let _ = writeln!(o, "pub fn build_loose(t: usize, b: &mut FB, v: &TVal, p: &mut Plan) {{ match t {{");
    for t in s.tables() {
        let _ = writeln!(o, "{t} => {{ build_{t}(b, v, p); }}");
    }
    let _ = writeln!(o, "_ => panic!() }} }}");
    let _ = writeln!(o, "pub fn read(t: usize, buf: &[u8], rd: &mut Rd, how: How) -> Obs {{ match t {{");
    for t in s.tables() {
        let p = tpath(s, t);
        let _ = writeln!(
            o,
            "{t} => match how {{
                How::Slice => match {p}::get_root(buf) {{ Ok(t) => read_{t}(&t, rd), Err(e) => err(e) }},
                How::Owned => {{ rd.unbound(); match {p}::get_root(buf.to_vec()) {{ Ok(t) => read_{t}(&t, rd), Err(e) => err(e) }} }}
                How::Prefixed => match butte::get_size_prefixed_root::<{p}<&[u8]>, _>(buf) {{ Ok(t) => read_{t}(&t, rd), Err(e) => err(e) }},
            }},"
        );
    }
    let _ = writeln!(o, "_ => panic!() }} }}");
    // one root object in the hands of several threads
    let _ = writeln!(o, "#[cfg(blocks)] pub fn share(t: usize, buf: &[u8], k: &mut dyn FnMut(&(dyn Fn(&mut Rd) -> Obs + Sync))) {{ match t {{");
    for t in s.tables() {
        let p = tpath(s, t);
        let _ = writeln!(
            o,
            "{t} => match {p}::get_root(buf) {{ Ok(t) => k(&move |rd: &mut Rd| read_{t}(&t, rd)), Err(_) => k(&|_: &mut Rd| Obs::Cut) }},"
        );
    }
    let _ = writeln!(o, "_ => panic!() }} }}");
    let _ = writeln!(o, "pub fn numbers(t: usize) -> Vec<(i128, Option<bool>, &'static str)> {{ match t {{");
    for (i, d) in s.types.iter().enumerate() {
        if matches!(d.kind, Kind::Enum(..)) {
            let _ = writeln!(o, "{i} => numbers_{i}(),");
        }
    }
    let _ = writeln!(o, "_ => panic!() }} }}");
    let _ = writeln!(o, "}}");
    o
}

struct Out(Arc<Mutex<Vec<u8>>>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Write only when different, so that nothing is rebuilt for nothing.
fn put(path: &str, data: &[u8]) {
    if std::fs::read(path).ok().as_deref() != Some(data) {
        std::fs::write(path, data).expect("write");
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    let out = &a[3];
    std::fs::create_dir_all(out).unwrap();
    let fams = families(seed, n);
    let mut all = String::new();
    let mut reg = String::from("pub static REG: &[&[Ver]] = &[\n");
    let mut bad = 0;
    for (fi, fam) in fams.iter().enumerate() {
        reg.push_str("&[");
        for (vi, s) in fam.versions.iter().enumerate() {
            let text = family_text(seed, fi, vi, s);
            put(&format!("{out}/f{fi}v{vi}.fbs"), text.s.as_bytes());
            let sink = Arc::new(Mutex::new(vec![]));
            let src = std::io::Cursor::new(text.s.clone().into_bytes());
            let so = sink.clone();
            let r = std::panic::catch_unwind(move || {
                butte_build::compile_fbs_generic(true, None, Box::new(src), Box::new(Out(so)))
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    println!("SCHEMA-REJECTED f{fi}v{vi} {e:?}");
                    bad += 1;
                }
                Err(_) => {
                    println!("SCHEMA-PANIC f{fi}v{vi}");
                    bad += 1;
                }
            }
            let code = sink.lock().unwrap().clone();
            put(&format!("{out}/f{fi}v{vi}.rs"), &code);
            all.push_str(&glue(s, fi, vi));
            reg.push_str(&format!(
                "Ver {{ build: f{fi}v{vi}::build, build_loose: f{fi}v{vi}::build_loose, read: f{fi}v{vi}::read, numbers: f{fi}v{vi}::numbers, #[cfg(blocks)] share: f{fi}v{vi}::share }}, "
            ));
        }
        reg.push_str("],\n");
    }
    reg.push_str("];\n");
    all.push_str(&reg);
    all.push_str(&format!("pub const SEED: u64 = {seed}; pub const COUNT: usize = {n};\n"));
    put(&format!("{out}/all.rs"), all.as_bytes());
    if bad > 0 {
        std::process::exit(3);
    }
}
