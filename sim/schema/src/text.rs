use crate::model::*;
use simkit::Src;

/// Schema text with the byte range of every declaration: from the first byte
/// of its keyword to just past its closing token.
#[derive(Clone, Debug, Default)]
pub struct Text {
    pub s: String,
    pub decls: Vec<(usize, usize)>,
}

struct W<'a> {
    src: &'a mut Src,
    s: String,
    noise: u64,
}

const NOTES: [&str; 6] = ["note", "see below", "a {b} c;", "table x", "\u{e9}\u{df} \u{4e16}\u{754c}", "= 1, [2]"];

/// Attributes without a meaning for the compiler.
const ATTRS: [&str; 10] = [
    "key",
    "priority: 3",
    "hash: \"fnv1_32\"",
    "idempotent",
    "note: \"a, (b) \\\"c\\\"\"",
    "weight: 1.5",
    "hidden: false",
    "level: -7",
    "mask: 0xff",
    "timeout: \"client\"",
];

impl<'a> W<'a> {
    fn p(&mut self, t: &str) {
        self.s.push_str(t);
    }
    /// Mandatory separator.
    fn sp(&mut self) {
        if self.noise == 0 {
            self.s.push(' ');
            return;
        }
        match self.src.below(6) {
            0..=3 => self.s.push(' '),
            4 => self.s.push('\n'),
            _ => self.s.push_str("\t  "),
        }
    }
    /// Optional white space or comment, where the language allows any.
    fn gap(&mut self) {
        if self.noise == 0 {
            return;
        }
        match self.src.below(10) {
            0..=5 => {}
            6 | 7 => self.s.push(' '),
            8 => self.s.push('\n'),
            _ => {
                let n = *self.src.pick(&NOTES);
                self.s.push_str(&format!(" // {n}\n"));
            }
        }
    }
    fn nl(&mut self) {
        self.s.push('\n');
        if self.noise > 0 && self.src.chance(1, 8) {
            let n = *self.src.pick(&NOTES);
            self.s.push_str(&format!("// {n}\n"));
        }
    }
    /// Attributes in parentheses: those that mean something to the compiler
    /// among those that do not. A blank may come before them unless `tight`.
    fn meta(&mut self, real: &[String], tight: bool) {
        let mut all: Vec<String> = real.to_vec();
        if self.noise > 0 && self.src.chance(1, 5) {
            for _ in 0..1 + self.src.idx(3) {
                let a = *self.src.pick(&ATTRS);
                let key = |t: &str| t.split(':').next().unwrap_or("").trim().to_string();
                if !all.iter().any(|x| key(x) == key(a)) {
                    let at = self.src.idx(all.len() + 1);
                    all.insert(at, a.to_string());
                }
            }
        }
        if all.is_empty() {
            return;
        }
        if tight {
        } else if self.noise == 0 || self.src.chance(3, 4) {
            self.sp();
        }
        self.p("(");
        self.gap();
        for (i, a) in all.iter().enumerate() {
            if i > 0 {
                self.gap();
                self.p(",");
                if self.noise == 0 || self.src.chance(1, 2) {
                    self.p(" ");
                }
                self.gap();
            }
            match a.split_once(": ") {
                Some((k, v)) => {
                    self.p(k);
                    self.gap();
                    self.p(":");
                    if self.noise == 0 || self.src.chance(1, 2) {
                        self.p(" ");
                    }
                    self.gap();
                    self.p(v);
                }
                None => self.p(a),
            }
        }
        self.gap();
        self.p(")");
    }
    fn doc(&mut self, ind: &str) {
        if self.noise > 0 && self.src.chance(1, 4) {
            for _ in 0..1 + self.src.idx(2) {
                let n = *self.src.pick(&NOTES);
                self.s.push_str(&format!("{ind}/// {n}\n"));
            }
        }
    }
}

fn ty_text(s: &Schema, cur: usize, ty: &Ty, alias: usize, qualify: bool) -> String {
    let named = |t: usize| -> String {
        if s.types[t].ns == cur && !(qualify && cur != 0) {
            s.types[t].name.clone()
        } else {
            s.full_name(t)
        }
    };
    match ty {
        Ty::Prim(p) => {
            let n = p.fbs();
            n[alias % n.len()].to_string()
        }
        Ty::Str => "string".into(),
        Ty::Enum(t) | Ty::Table(t) | Ty::Union(t) => named(*t),
        Ty::Vec(e) => format!("[{}]", ty_text(s, cur, e, alias, qualify)),
    }
}

pub fn lit_text(src: &mut Src, l: Lit, variants: &[Variant]) -> String {
    match l {
        Lit::Bool(b) => b.to_string(),
        Lit::Int(i) => {
            match src.below(10) {
                0 | 1 if i >= 0 => format!("0x{i:x}"),
                2 if i >= 0 => format!("0X{i:X}"),
                3 if i >= 0 => format!("+{i}"),
                4 if i >= 0 => format!("00{i}"),
                5 if i < 0 => format!("-0x{:x}", -i),
                _ => i.to_string(),
            }
        }
        Lit::F32(b) => {
            let x = f32::from_bits(b);
            float_text(src, x as f64, x.to_string(), format!("{x:e}"))
        }
        Lit::F64(b) => {
            let x = f64::from_bits(b);
            float_text(src, x, x.to_string(), format!("{x:e}"))
        }
        Lit::Variant(v) => variants[v].name.clone(),
    }
}

/// `t` and `e`: the number without and with an exponent.
fn float_text(src: &mut Src, x: f64, t: String, e: String) -> String {
    match src.below(8) {
        0 => return e,
        1 => return e.to_uppercase(),
        2 if x >= 0.0 => return format!("+{e}"),
        3 if x.is_normal() => return hex_float(src, x),
        _ => {}
    }
    if t.contains('.') {
        t
    } else if x.abs() > 1e15 {
        format!("{t}.0")
    } else {
        match src.below(6) {
            0 | 1 => t,
            2 => format!("{t}.0"),
            3 => format!("{t}e0"),
            4 => format!("{t}.0E+0"),
            _ => format!("{t}."),
        }
    }
}

/// Exactly `x`, in base 16.
fn hex_float(src: &mut Src, x: f64) -> String {
    let b = x.to_bits();
    let m = format!("{:013x}", b & ((1 << 52) - 1));
    let m = m.trim_end_matches('0');
    let e = (b >> 52 & 0x7ff) as i64 - 1023;
    let (o, p) = *src.pick(&[("0x", "p"), ("0X", "P")]);
    let sign = if x < 0.0 { "-" } else { "" };
    let plus = if e >= 0 && src.chance(1, 2) { "+" } else { "" };
    format!("{sign}{o}1.{m}{p}{plus}{e}")
}

/// Write the schema down. `noise` turns on comments and odd white space.
pub fn render(src: &mut Src, s: &Schema, noise: bool) -> Text {
    let mut w = W {
        src,
        s: String::new(),
        noise: noise as u64,
    };
    let mut decls = vec![];
    let mut cur = 0usize;
    for it in &s.order {
        let ns = s.item_ns(*it);
        if ns != cur {
            w.nl();
            w.doc("");
            let a = w.s.len();
            w.p("namespace");
            w.sp();
            let t = s.ns[ns].join(".");
            w.p(&t);
            w.gap();
            w.p(";");
            decls.push((a, w.s.len()));
            w.nl();
            cur = ns;
        }
        let a = match it {
            Item::Type(t) => {
                let d = &s.types[*t];
                w.doc("");
                let a = w.s.len();
                match &d.kind {
                    Kind::Table(fields) => {
                        w.p("table");
                        w.sp();
                        w.p(&d.name);
                        w.meta(&[], false);
                        w.sp();
                        w.p("{");
                        w.nl();
                        for f in fields {
                            w.doc("  ");
                            w.p("  ");
                            w.p(&f.name);
                            w.gap();
                            w.p(":");
                            w.gap();
                            let q = w.src.chance(1, 3);
                            let t = ty_text(s, cur, &f.ty, f.alias, q);
                            w.p(&t);
                            if let Some(l) = f.default {
                                w.p(" =");
                                w.sp();
                                let vs: &[Variant] = match &f.ty {
                                    Ty::Enum(e) => s.variants(*e),
                                    _ => &[],
                                };
                                let t = lit_text(w.src, l, vs);
                                w.p(&t);
                            }
                            let real: &[String] = if f.required { &["required".to_string()] } else { &[] };
                            w.meta(real, false);
                            w.gap();
                            w.p(";");
                            w.nl();
                        }
                        w.p("}");
                    }
                    Kind::Enum(base, alias, vs) => {
                        w.p("enum");
                        w.sp();
                        w.p(&d.name);
                        w.gap();
                        w.p(":");
                        w.gap();
                        let n = base.fbs();
                        w.p(n[*alias % n.len()]);
                        w.meta(&[], true);
                        w.sp();
                        w.p("{");
                        w.nl();
                        for (i, v) in vs.iter().enumerate() {
                            w.doc("  ");
                            w.p("  ");
                            w.p(&v.name);
                            if v.explicit {
                                w.p(" =");
                                w.sp();
                                let t = if w.noise > 0 { lit_text(w.src, Lit::Int(v.value), &[]) } else { v.value.to_string() };
                                w.p(&t);
                            }
                            w.gap();
                            if i + 1 < vs.len() || (w.noise > 0 && w.src.chance(1, 4)) {
                                w.p(",");
                            }
                            w.nl();
                        }
                        w.p("}");
                    }
                    Kind::Union(ms) => {
                        w.p("union");
                        w.sp();
                        w.p(&d.name);
                        w.meta(&[], false);
                        w.sp();
                        w.p("{");
                        w.nl();
                        for (i, m) in ms.iter().enumerate() {
                            w.doc("  ");
                            w.p("  ");
                            let n = s.types[*m].name.clone();
                            w.p(&n);
                            w.gap();
                            if i + 1 < ms.len() || (w.noise > 0 && w.src.chance(1, 4)) {
                                w.p(",");
                            }
                            w.nl();
                        }
                        w.p("}");
                    }
                }
                a
            }
            Item::Service(x) => {
                let d = &s.services[*x];
                w.doc("");
                let a = w.s.len();
                w.p("rpc_service");
                w.sp();
                w.p(&d.name);
                w.sp();
                w.p("{");
                w.nl();
                for m in &d.methods {
                    w.doc("  ");
                    w.p("  ");
                    w.p(&m.name);
                    w.gap();
                    w.p("(");
                    w.gap();
                    let q = w.src.chance(1, 3);
                    let t = ty_text(s, cur, &Ty::Table(m.req), 0, q);
                    w.p(&t);
                    w.gap();
                    w.p(")");
                    w.gap();
                    w.p(":");
                    w.gap();
                    let q = w.src.chance(1, 3);
                    let t = ty_text(s, cur, &Ty::Table(m.res), 0, q);
                    w.p(&t);
                    let st = match m.streaming {
                        Streaming::None => None,
                        Streaming::Client => Some("client"),
                        Streaming::Server => Some("server"),
                        Streaming::Bidi => Some("bidi"),
                    };
                    let real: Vec<String> = st.iter().map(|st| format!("streaming: \"{st}\"")).collect();
                    w.meta(&real, false);
                    w.gap();
                    w.p(";");
                    w.nl();
                }
                w.p("}");
                a
            }
            Item::Root(t) => {
                w.doc("");
                let a = w.s.len();
                w.p("root_type");
                w.sp();
                let n = s.types[*t].name.clone();
                w.p(&n);
                w.p(";");
                a
            }
        };
        decls.push((a, w.s.len()));
        w.nl();
    }
    Text { s: w.s, decls }
}
