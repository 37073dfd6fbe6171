use crate::model::*;
use simkit::Src;

/// A value to be written.
#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Lit(Lit),
    Str(String),
    Tab(TVal),
    /// Position of the member in the union, and its value.
    Union(usize, TVal),
    Vec(Vec<Val>),
}

/// Values for the fields of a table; None: not set by the writer.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct TVal {
    pub fields: Vec<Option<Val>>,
}

/// What a reader saw.
#[derive(Clone, PartialEq, Debug)]
pub enum Obs {
    Absent,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    /// Numeric value of an enum.
    Enum(i128),
    /// One entry per accessor.
    Tab(Vec<Obs>),
    Union(usize, Box<Obs>),
    Vec(Vec<Obs>),
    /// The accessor returned an error.
    Err(Er),
    /// Not looked at any further (work limit on damaged input).
    Cut,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Er {
    Required,
    UnknownEnum,
    UnknownUnion,
    Bounds,
    Misaligned,
    Utf8,
    Nul,
    Other,
    /// In an expectation: any error.
    Any,
}

impl Obs {
    pub fn has_err(&self) -> bool {
        match self {
            Obs::Err(_) => true,
            Obs::Tab(v) | Obs::Vec(v) => v.iter().any(Obs::has_err),
            Obs::Union(_, b) => b.has_err(),
            _ => false,
        }
    }
}

pub fn gen_string(src: &mut Src) -> String {
    match src.below(256) {
        // the same texts again and again, as real messages have them
        1..=40 => {
            let k = src.idx(6);
            let n = [1, 5, 31, 34, 64, 130][k];
            return ((0..n).map(|i| (b'A' + ((i * 7 + k) % 26) as u8) as char)).collect();
        }
        // lengths on both sides of what an octet or two can hold
        41 if !simkit::small() => {
            let (n, m) = [(250, 12), (500, 24), (4000, 200), (65_520, 32)][src.weighted(&[12, 12, 8, 1])];
            let n = n + src.idx(m);
            let c = (b'a' + src.below(26) as u8) as char;
            let mut s: String = (0..n).map(|i| if i % 61 == 60 { 'Q' } else { c }).collect();
            if src.chance(1, 2) {
                s.push('\u{4e16}');
            }
            return s;
        }
        _ => {}
    }
    let n = src.size(40) as usize;
    let mut s = String::new();
    for _ in 0..n {
        match src.below(12) {
            0 => s.push('\u{0}'),
            1 => s.push('\u{e9}'),
            2 => s.push('\u{4e16}'),
            3 => s.push('\u{1f600}'),
            k => s.push((b'a' + k as u8) as char),
        }
    }
    s
}

fn gen_val(src: &mut Src, s: &Schema, ty: &Ty, depth: u32, budget: &mut u32) -> Val {
    match ty {
        Ty::Prim(p) => Val::Lit(gen_lit(src, *p)),
        Ty::Str => Val::Str(gen_string(src)),
        Ty::Enum(e) => {
            let n = s.variants(*e).len();
            // lean towards the newest values
            let i = if src.chance(1, 3) { n - 1 } else { src.idx(n) };
            Val::Lit(Lit::Variant(i))
        }
        Ty::Table(t) => Val::Tab(gen_table(src, s, *t, depth.saturating_sub(1), budget)),
        Ty::Union(u) => {
            let m = s.members(*u);
            let i = if depth == 0 || *budget == 0 {
                (0..m.len()).min_by_key(|&i| m[i]).unwrap()
            } else if src.chance(1, 3) {
                m.len() - 1
            } else {
                src.idx(m.len())
            };
            Val::Union(i, gen_table(src, s, m[i], depth.saturating_sub(1), budget))
        }
        Ty::Vec(e) => {
            let big = e.is_scalar() || matches!(**e, Ty::Str);
            let n = if depth == 0 || *budget == 0 {
                0
            } else if big {
                src.size(40)
            } else {
                src.below(5)
            };
            if n > 0 && e.is_scalar() && src.chance(1, 120) && !simkit::small() {
                // a long one, repeating a few values
                let k = 1 + src.idx(7);
                let few: Vec<Val> = (0..k).map(|_| gen_val(src, s, e, 0, budget)).collect();
                let (a, m) = [(120, 20), (250, 12), (1000, 100), (8180, 20), (65_520, 32)][src.weighted(&[40, 60, 20, 6, 2])];
                let a = a + src.idx(m);
                *budget = budget.saturating_sub(5);
                return Val::Vec((0..a).map(|i| few[i % k].clone()).collect());
            }
            if n > 0 && !e.is_scalar() && !matches!(**e, Ty::Vec(_)) && src.chance(1, 60) && !simkit::small() {
                let a = 10 + src.idx(300);
                *budget = 0;
                return Val::Vec((0..a).map(|_| gen_val(src, s, e, 0, budget)).collect());
            }
            Val::Vec((0..n).map(|_| gen_val(src, s, e, depth.saturating_sub(1), budget)).collect())
        }
    }
}

pub fn gen_table(src: &mut Src, s: &Schema, t: usize, depth: u32, budget: &mut u32) -> TVal {
    *budget = budget.saturating_sub(1);
    let mut fields = vec![];
    let fs = s.fields(t);
    // some tables are sparse, some full
    let fill = src.below(4);
    for f in fs {
        let set = if f.required && !f.ty.is_scalar() {
            true
        } else if (depth == 0 || *budget == 0) && !f.ty.is_scalar() && f.ty != Ty::Str {
            false
        } else {
            match fill {
                0 => src.chance(1, 4),
                1 => src.chance(3, 4),
                2 => true,
                _ => src.chance(1, 2),
            }
        };
        fields.push(if set {
            Some(gen_val(src, s, &f.ty, depth, budget))
        } else {
            None
        });
    }
    TVal { fields }
}

fn lit_obs(s: &Schema, ty: &Ty, l: Lit) -> Obs {
    match l {
        Lit::Bool(b) => Obs::Bool(b),
        Lit::Int(i) => Obs::Int(i),
        Lit::F32(b) => Obs::F32(b),
        Lit::F64(b) => Obs::F64(b),
        Lit::Variant(v) => match ty {
            Ty::Enum(e) => Obs::Enum(s.variants(*e)[v].value),
            _ => unreachable!(),
        },
    }
}

fn prim_zero(p: Prim) -> Lit {
    match p {
        Prim::Bool => Lit::Bool(false),
        Prim::F32 => Lit::F32(0),
        Prim::F64 => Lit::F64(0),
        _ => Lit::Int(0),
    }
}

/// The default of a scalar field, if it has one: enums only have one when it
/// is declared.
pub fn field_default(f: &Field) -> Option<Lit> {
    f.default.or(match &f.ty {
        Ty::Prim(p) => Some(prim_zero(*p)),
        _ => None,
    })
}

fn equal_scalar(a: Lit, b: Lit) -> bool {
    match (a, b) {
        (Lit::F32(x), Lit::F32(y)) => f32::from_bits(x) == f32::from_bits(y),
        (Lit::F64(x), Lit::F64(y)) => f64::from_bits(x) == f64::from_bits(y),
        (a, b) => a == b,
    }
}

/// What a reader on schema `r` sees of a non-table value written on `w`.
fn project_val(w: &Schema, r: &Schema, ty: &Ty, v: &Val) -> Obs {
    match (ty, v) {
        (Ty::Enum(e), Val::Lit(Lit::Variant(i))) => {
            let x = w.variants(*e)[*i].value;
            if r.variants(*e).iter().any(|k| k.value == x) {
                Obs::Enum(x)
            } else {
                Obs::Err(Er::Any)
            }
        }
        (ty, Val::Lit(l)) => lit_obs(w, ty, *l),
        (_, Val::Str(s)) => Obs::Str(s.clone()),
        (Ty::Table(t), Val::Tab(x)) => project(w, r, *t, x),
        (Ty::Union(u), Val::Union(i, x)) => {
            let m = w.members(*u)[*i];
            if *i < r.members(*u).len() {
                Obs::Union(*i, Box::new(project(w, r, m, x)))
            } else {
                Obs::Err(Er::Any)
            }
        }
        (Ty::Vec(e), Val::Vec(xs)) => Obs::Vec(xs.iter().map(|x| project_val(w, r, e, x)).collect()),
        _ => unreachable!("value does not match type"),
    }
}

/// What a reader on schema `r` must see of table `t` written on schema `w`.
pub fn project(w: &Schema, r: &Schema, t: usize, v: &TVal) -> Obs {
    let wf = w.fields(t);
    let mut out = vec![];
    for (i, f) in r.fields(t).iter().enumerate() {
        let known = i < wf.len();
        let missing = if f.required { Obs::Err(Er::Required) } else { Obs::Absent };
        let val = if known { v.fields[i].as_ref() } else { None };
        match &f.ty {
            Ty::Union(u) => {
                // companion first
                match val {
                    Some(Val::Union(k, _)) => {
                        out.push(if *k < r.members(*u).len() {
                            Obs::Enum(*k as i128 + 1)
                        } else {
                            Obs::Err(Er::Any)
                        });
                        out.push(project_val(w, r, &f.ty, val.unwrap()));
                    }
                    _ => {
                        // a writer that knows the field always stores its type
                        out.push(if known { Obs::Enum(0) } else { missing.clone() });
                        out.push(missing);
                    }
                }
            }
            ty if ty.is_scalar() => {
                let def = field_default(f);
                out.push(match (known, val, def) {
                    (true, Some(Val::Lit(l)), Some(d)) if equal_scalar(*l, d) && !f.required => lit_obs(r, ty, d),
                    (true, Some(x), _) => project_val(w, r, ty, x),
                    (_, None, Some(d)) => lit_obs(r, ty, d),
                    // an enum without default is always stored, the first
                    // variant when it is not set
                    (true, None, None) => project_val(w, r, ty, &Val::Lit(Lit::Variant(0))),
                    (false, _, None) => missing,
                    (false, Some(_), Some(_)) => unreachable!(),
                });
            }
            ty => out.push(match val {
                Some(x) => project_val(w, r, ty, x),
                None => missing,
            }),
        }
    }
    Obs::Tab(out)
}

/// Compare an observation with an expectation; None when it matches,
/// otherwise where and how it differs.
pub fn differs(want: &Obs, got: &Obs) -> Option<String> {
    match (want, got) {
        (Obs::Err(Er::Any), Obs::Err(_)) => None,
        (Obs::Tab(a), Obs::Tab(b)) | (Obs::Vec(a), Obs::Vec(b)) => {
            if a.len() != b.len() {
                return Some(format!(": {} entries expected, {} seen", a.len(), b.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = differs(x, y) {
                    return Some(format!("/{i}{d}"));
                }
            }
            None
        }
        (Obs::Union(i, a), Obs::Union(j, b)) if i == j => differs(a, b).map(|d| format!("/u{i}{d}")),
        (a, b) if a == b => None,
        (a, b) => {
            let s = format!(": expected {a:?}, got {b:?}");
            Some(s.chars().take(600).collect())
        }
    }
}
