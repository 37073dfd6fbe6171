use simkit::Src;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prim {
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
}

pub const PRIMS: [Prim; 11] = [
    Prim::Bool,
    Prim::I8,
    Prim::U8,
    Prim::I16,
    Prim::U16,
    Prim::I32,
    Prim::U32,
    Prim::I64,
    Prim::U64,
    Prim::F32,
    Prim::F64,
];
pub const INTS: [Prim; 8] = [
    Prim::I8,
    Prim::U8,
    Prim::I16,
    Prim::U16,
    Prim::I32,
    Prim::U32,
    Prim::I64,
    Prim::U64,
];

impl Prim {
    pub fn rust(self) -> &'static str {
        match self {
            Prim::Bool => "bool",
            Prim::I8 => "i8",
            Prim::U8 => "u8",
            Prim::I16 => "i16",
            Prim::U16 => "u16",
            Prim::I32 => "i32",
            Prim::U32 => "u32",
            Prim::I64 => "i64",
            Prim::U64 => "u64",
            Prim::F32 => "f32",
            Prim::F64 => "f64",
        }
    }
    /// The names the schema language has for it.
    pub fn fbs(self) -> &'static [&'static str] {
        match self {
            Prim::Bool => &["bool"],
            Prim::I8 => &["byte", "int8"],
            Prim::U8 => &["ubyte", "uint8"],
            Prim::I16 => &["short", "int16"],
            Prim::U16 => &["ushort", "uint16"],
            Prim::I32 => &["int", "int32"],
            Prim::U32 => &["uint", "uint32"],
            Prim::I64 => &["long", "int64"],
            Prim::U64 => &["ulong", "uint64"],
            Prim::F32 => &["float", "float32"],
            Prim::F64 => &["double", "float64"],
        }
    }
    pub fn range(self) -> (i128, i128) {
        match self {
            Prim::I8 => (i8::MIN as i128, i8::MAX as i128),
            Prim::U8 => (0, u8::MAX as i128),
            Prim::I16 => (i16::MIN as i128, i16::MAX as i128),
            Prim::U16 => (0, u16::MAX as i128),
            Prim::I32 => (i32::MIN as i128, i32::MAX as i128),
            Prim::U32 => (0, u32::MAX as i128),
            Prim::I64 => (i64::MIN as i128, i64::MAX as i128),
            Prim::U64 => (0, u64::MAX as i128),
            _ => (0, 1),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Prim(Prim),
    Str,
    Enum(usize),
    Table(usize),
    Union(usize),
    Vec(Box<Ty>),
}

impl Ty {
    /// Stored inline and present or defaulted.
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Prim(_) | Ty::Enum(_))
    }
}

/// A scalar value, as it may appear in a declaration.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lit {
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    /// Index of an enum variant.
    Variant(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Lit>,
    pub required: bool,
    pub alias: usize,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Variant {
    pub name: String,
    pub value: i128,
    pub explicit: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Table(Vec<Field>),
    Enum(Prim, usize, Vec<Variant>),
    /// Member tables.
    Union(Vec<usize>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct TypeDef {
    pub name: String,
    pub ns: usize,
    pub kind: Kind,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Streaming {
    None,
    Client,
    Server,
    Bidi,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Method {
    pub name: String,
    pub req: usize,
    pub res: usize,
    pub streaming: Streaming,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Service {
    pub name: String,
    pub ns: usize,
    pub methods: Vec<Method>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Item {
    Type(usize),
    Service(usize),
    Root(usize),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Schema {
    /// Namespaces; the first is the root namespace (no parts).
    pub ns: Vec<Vec<String>>,
    pub types: Vec<TypeDef>,
    pub services: Vec<Service>,
    /// Declaration order.
    pub order: Vec<Item>,
}

impl Schema {
    pub fn fields(&self, t: usize) -> &[Field] {
        match &self.types[t].kind {
            Kind::Table(f) => f,
            _ => panic!("not a table"),
        }
    }
    pub fn variants(&self, t: usize) -> &[Variant] {
        match &self.types[t].kind {
            Kind::Enum(_, _, v) => v,
            _ => panic!("not an enum"),
        }
    }
    pub fn members(&self, t: usize) -> &[usize] {
        match &self.types[t].kind {
            Kind::Union(m) => m,
            _ => panic!("not a union"),
        }
    }
    pub fn enum_base(&self, t: usize) -> Prim {
        match &self.types[t].kind {
            Kind::Enum(p, _, _) => *p,
            _ => panic!("not an enum"),
        }
    }
    pub fn tables(&self) -> Vec<usize> {
        (0..self.types.len())
            .filter(|&i| matches!(self.types[i].kind, Kind::Table(_)))
            .collect()
    }
    pub fn item_ns(&self, it: Item) -> usize {
        match it {
            Item::Type(t) | Item::Root(t) => self.types[t].ns,
            Item::Service(x) => self.services[x].ns,
        }
    }
    pub fn full_name(&self, t: usize) -> String {
        let d = &self.types[t];
        let mut p = self.ns[d.ns].clone();
        p.push(d.name.clone());
        p.join(".")
    }
}

/// Versions of one schema; each only appends to the one before.
#[derive(Clone, Debug)]
pub struct Family {
    pub versions: Vec<Schema>,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub versions: usize,
    pub tables: u64,
    pub fields: u64,
    pub services: u64,
    /// Use names that need care (keywords, mixed case, digits).
    pub odd_names: bool,
    pub namespaces: u64,
}

const WORDS: [&str; 40] = [
    "alpha", "beta", "gamma", "delta", "node", "leaf", "color", "speed", "weight", "user", "item", "order", "price",
    "event", "frame", "packet", "state", "label", "owner", "group", "height", "point", "vertex", "matrix", "signal",
    "token", "level", "score", "track", "batch", "phase", "queue", "record", "shard", "stream", "target", "topic",
    "vault", "window", "zone",
];
/// Names that are Rust keywords and legal schema names.
const KEYWORDS: [&str; 24] = [
    "type", "match", "as", "fn", "mod", "ref", "self", "impl", "use", "box", "try", "async", "await", "dyn", "where",
    "loop", "move", "static", "super", "crate", "in", "let", "do", "yield",
];

fn cap(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}

/// Two names with the same key could end up the same in generated code.
fn key(s: &str) -> String {
    let k: String = s.chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect();
    if k == "type" {
        "ty".into()
    } else {
        k
    }
}

struct Names {
    used: BTreeSet<String>,
}

impl Names {
    fn new() -> Names {
        Names { used: BTreeSet::new() }
    }
    fn take(&mut self, n: &str) -> bool {
        self.used.insert(key(n))
    }
    /// A field, method or variant like name.
    fn field(&mut self, src: &mut Src, odd: bool) -> String {
        for round in 0.. {
            let w = *src.pick(&WORDS);
            let n = match src.below(if odd { 10 } else { 3 }) {
                0 | 1 => w.to_string(),
                2 => format!("{}_{}", w, src.pick(&WORDS)),
                3 => format!("{}{}", w, cap(src.pick::<&str>(&WORDS))),
                4 => cap(w),
                5 => format!("_{w}"),
                6 => format!("{}{}", w, src.below(10)),
                7 => format!("{}_{}", w, src.below(10)),
                8 => src.pick(&KEYWORDS).to_string(),
                _ => w.to_uppercase(),
            };
            let n = if round > 20 { format!("{n}_x{round}") } else { n };
            // the companion of a union field is called <name>_type
            if !self.used.contains(&format!("{}type", key(&n))) && !key(&n).ends_with("type") && self.take(&n) {
                return n;
            }
        }
        unreachable!()
    }
    /// A type like name.
    fn ty(&mut self, src: &mut Src, odd: bool) -> String {
        for round in 0.. {
            let w = cap(src.pick::<&str>(&WORDS));
            let n = match src.below(if odd { 6 } else { 2 }) {
                0 => w,
                1 => format!("{}{}", w, cap(src.pick::<&str>(&WORDS))),
                2 => format!("{}{}", w, src.below(10)),
                3 => format!("{}_{}", w, cap(src.pick::<&str>(&WORDS))),
                4 => w.to_uppercase(),
                _ => format!("Q{}", w.to_lowercase()),
            };
            let n = if round > 20 { format!("{n}X{round}") } else { n };
            if self.take(&n) {
                return n;
            }
        }
        unreachable!()
    }
}

fn gen_int(src: &mut Src, p: Prim) -> i128 {
    let (lo, hi) = p.range();
    match src.below(6) {
        0 => 0,
        1 => 1,
        2 => lo,
        3 => hi,
        4 => {
            let v = lo + (src.u64() as i128) % (hi - lo + 1);
            v.clamp(lo, hi)
        }
        _ => (src.below(100) as i128).min(hi),
    }
}

pub fn gen_lit(src: &mut Src, p: Prim) -> Lit {
    match p {
        Prim::Bool => Lit::Bool(src.chance(1, 2)),
        Prim::F32 => Lit::F32(
            match src.below(11) {
                0 => 0.0f32,
                1 => 1.0,
                2 => -1.5,
                3 => f32::MAX,
                4 => f32::MIN_POSITIVE,
                5 => src.below(1000) as f32 / 8.0,
                6 => f32::INFINITY,
                7 => -0.0,
                8 => f32::NAN,
                _ => some_f32(src),
            }
            .to_bits(),
        ),
        Prim::F64 => Lit::F64(
            match src.below(11) {
                0 => 0.0f64,
                1 => 1.0,
                2 => -1.5,
                3 => f64::MAX,
                4 => f64::MIN_POSITIVE,
                5 => src.below(100000) as f64 / 64.0,
                6 => f64::NEG_INFINITY,
                7 => -0.0,
                8 => f64::NAN,
                _ => some_f64(src),
            }
            .to_bits(),
        ),
        p => Lit::Int(gen_int(src, p)),
    }
}

/// Any finite number but zero.
fn some_f32(src: &mut Src) -> f32 {
    let x = f32::from_bits(src.u64() as u32);
    if x.is_finite() && x != 0.0 {
        x
    } else {
        0.3
    }
}
fn some_f64(src: &mut Src) -> f64 {
    let x = f64::from_bits(src.u64());
    if x.is_finite() && x != 0.0 {
        x
    } else {
        -0.3
    }
}

/// A default that the schema language can express.
fn gen_default(src: &mut Src, p: Prim) -> Lit {
    match p {
        Prim::F32 => Lit::F32(
            match src.below(12) {
                0 => 0.0f32,
                1 => 1.0,
                2 => -1.5,
                3 => src.below(1000) as f32 / 8.0,
                4 => 100000.0,
                5 => -(src.below(1000) as f32),
                6 => -0.1,
                7 => f32::MAX,
                8 => f32::MIN_POSITIVE,
                9 => -1e-40,
                _ => some_f32(src),
            }
            .to_bits(),
        ),
        Prim::F64 => Lit::F64(
            match src.below(12) {
                0 => 0.0f64,
                1 => 1.0,
                2 => -1.5,
                3 => src.below(100000) as f64 / 64.0,
                4 => 1e15,
                5 => -(src.below(1000) as f64),
                6 => 0.1,
                7 => f64::MIN,
                8 => f64::MIN_POSITIVE,
                9 => 5e-324,
                _ => some_f64(src),
            }
            .to_bits(),
        ),
        p => gen_lit(src, p),
    }
}

struct Gen<'a> {
    src: &'a mut Src,
    opts: Opts,
    s: Schema,
    ns_names: Vec<Names>,
    field_names: Vec<Names>,
}

impl<'a> Gen<'a> {
    /// A new name, or one that is used in another namespace already.
    fn type_name(&mut self, ns: usize, others: Vec<String>) -> String {
        if !others.is_empty() && self.src.chance(1, 4) {
            let n = self.src.pick(&others).clone();
            if self.ns_names[ns].take(&n) {
                return n;
            }
        }
        self.ns_names[ns].ty(self.src, self.opts.odd_names)
    }
    /// The name of a namespace inside this one, whose module is called
    /// something else: modules have small letters only.
    fn twin(&mut self, ns: usize) -> Option<String> {
        let n = self.s.ns[ns].len();
        let twins: Vec<String> = self
            .s
            .ns
            .iter()
            .filter(|p| p.len() > n && p[..n] == self.s.ns[ns][..] && p[n].chars().any(|c| c.is_uppercase()))
            .map(|p| p[n].clone())
            .collect();
        if !twins.is_empty() && self.src.chance(1, 3) {
            let t = self.src.pick(&twins).clone();
            if !self.s.types.iter().any(|x| x.ns == ns && key(&x.name) == key(&t)) {
                return Some(t);
            }
        }
        None
    }
    fn add_type(&mut self, ns: usize, kind: Kind) -> usize {
        let name = match self.twin(ns) {
            Some(n) => n,
            None => self.type_name(ns, self.s.types.iter().filter(|t| t.ns != ns).map(|t| t.name.clone()).collect()),
        };
        self.s.types.push(TypeDef { name, ns, kind });
        self.field_names.push(Names::new());
        self.s.types.len() - 1
    }
    fn can_ref(&self, from_ns: usize, t: usize) -> bool {
        // an unqualified name means the current namespace; a qualified one
        // needs at least one namespace part
        let tn = self.s.types[t].ns;
        tn == from_ns || tn != 0
    }
    fn candidates(&self, from_ns: usize, want: fn(&Kind) -> bool) -> Vec<usize> {
        (0..self.s.types.len())
            .filter(|&i| want(&self.s.types[i].kind) && self.can_ref(from_ns, i))
            .collect()
    }
    fn gen_ty(&mut self, ns: usize, nested: u32) -> Ty {
        let enums = self.candidates(ns, |k| matches!(k, Kind::Enum(..)));
        let tables = self.candidates(ns, |k| matches!(k, Kind::Table(..)));
        let unions = self.candidates(ns, |k| matches!(k, Kind::Union(..)));
        match self.src.weighted(&[8, 3, 3, 3, if nested == 0 { 3 } else { 0 }, if nested < 2 { 4 } else { 0 }]) {
            1 => Ty::Str,
            2 if !enums.is_empty() => Ty::Enum(*self.src.pick(&enums)),
            3 if !tables.is_empty() => Ty::Table(*self.src.pick(&tables)),
            4 if !unions.is_empty() => Ty::Union(*self.src.pick(&unions)),
            5 => Ty::Vec(Box::new(self.gen_ty(ns, nested + 1))),
            _ => Ty::Prim(*self.src.pick(&PRIMS)),
        }
    }
    fn add_field(&mut self, t: usize) {
        let ns = self.s.types[t].ns;
        let mut ty = self.gen_ty(ns, 0);
        // vectors of unions are not part of the language as generated
        fn has_union_elem(t: &Ty) -> bool {
            match t {
                Ty::Vec(e) => matches!(**e, Ty::Union(_)) || has_union_elem(e),
                _ => false,
            }
        }
        if has_union_elem(&ty) {
            ty = Ty::Str;
        }
        let mut names = std::mem::replace(&mut self.field_names[t], Names::new());
        let name = names.field(self.src, self.opts.odd_names);
        if matches!(ty, Ty::Union(_)) {
            names.take(&format!("{name}_type"));
        }
        self.field_names[t] = names;
        let default = match &ty {
            Ty::Prim(p) if self.src.chance(1, 2) => Some(gen_default(self.src, *p)),
            Ty::Enum(e) if self.src.chance(1, 2) => {
                let n = self.s.variants(*e).len();
                Some(Lit::Variant(self.src.idx(n)))
            }
            _ => None,
        };
        // required edges only lead to types declared earlier in the model, so
        // that every table has a finite value
        let may = match &ty {
            Ty::Table(x) => *x < t,
            Ty::Union(u) => self.s.members(*u).iter().all(|m| *m < t),
            _ => true,
        };
        let required = may && self.src.chance(1, 6);
        let alias = self.src.idx(2);
        if let Kind::Table(f) = &mut self.s.types[t].kind {
            f.push(Field {
                name,
                ty,
                default,
                required,
                alias,
            });
        }
    }
    fn add_variant(&mut self, e: usize) {
        let (base, vs) = match &self.s.types[e].kind {
            Kind::Enum(b, _, v) => (*b, v.clone()),
            _ => return,
        };
        let (lo, hi) = base.range();
        let next = vs.last().map_or(0, |v| v.value + 1);
        let taken = |v: i128| vs.iter().any(|x| x.value == v);
        let (value, explicit) = if next > hi || taken(next) || self.src.chance(1, 3) {
            let mut v = match self.src.below(4) {
                0 => next,
                1 => next + self.src.below(5) as i128,
                2 => hi - self.src.below(5) as i128,
                _ => lo + self.src.below(5) as i128,
            };
            let mut guard = 0;
            while v > hi || v < lo || taken(v) {
                v = if v >= hi || v < lo { lo } else { v + 1 };
                guard += 1;
                if guard > 600 {
                    return;
                }
            }
            (v, true)
        } else {
            (next, false)
        };
        let mut names = std::mem::replace(&mut self.field_names[e], Names::new());
        // never the name of a field: rustc refuses an argument that is called
        // like a variant of its type
        let name = format!("{}V", names.field(self.src, self.opts.odd_names));
        self.field_names[e] = names;
        if let Kind::Enum(_, _, v) = &mut self.s.types[e].kind {
            v.push(Variant { name, value, explicit });
        }
    }
    fn tables_in(&self, ns: usize) -> Vec<usize> {
        (0..self.s.types.len())
            .filter(|&i| self.s.types[i].ns == ns && matches!(self.s.types[i].kind, Kind::Table(_)))
            .collect()
    }
    fn shuffle_order(&mut self) {
        let n = self.s.order.len();
        for i in (1..n).rev() {
            let j = self.src.idx(i + 1);
            self.s.order.swap(i, j);
        }
        // the root namespace cannot be re-entered: its items come first
        let s = self.s.clone();
        self.s.order.sort_by_key(|it| s.item_ns(*it) != 0);
    }
}

/// Draw a schema family.
pub fn gen_family(src: &mut Src, opts: Opts) -> Family {
    let mut ns: Vec<Vec<String>> = vec![vec![]];
    let mut nsn = Names::new();
    for k in ["butte", "std", "core", "buttegen"] {
        nsn.take(k);
    }
    let n_ns = src.below(opts.namespaces + 1);
    for _ in 0..n_ns {
        let parts = if ns.len() > 1 && src.chance(1, 3) {
            // nested in, or sibling of, an earlier one
            let mut p = ns[1 + src.idx(ns.len() - 1)].clone();
            p.push(nsn.field(src, opts.odd_names));
            p
        } else if ns.len() > 1 && src.chance(1, 3) {
            // inner parts named like those of an earlier one, other outer parts
            let e = ns[1 + src.idx(ns.len() - 1)].clone();
            let mut p: Vec<String> = e[..src.idx(e.len())].to_vec();
            p.push(nsn.field(src, opts.odd_names));
            let from = src.idx(e.len());
            p.extend(e[from..].iter().filter(|x| !p.contains(x)).cloned().collect::<Vec<_>>());
            p
        } else {
            let k = 1 + src.idx(2);
            (0..k).map(|_| nsn.field(src, opts.odd_names)).collect()
        };
        ns.push(parts);
    }
    let mut ns_names = vec![];
    for i in 0..ns.len() {
        let mut n = Names::new();
        for k in ["option", "result", "default", "copy", "clone", "debug", "vec", "string", "some", "none", "ok", "err", "b", "from", "into", "asref", "hash", "eq", "ord", "send", "sync", "iterator", "box"] {
            n.take(k);
        }
        // modules and types share no names
        for p in &ns {
            if p.len() > ns[i].len() && p[..ns[i].len()] == ns[i][..] {
                n.take(&p[ns[i].len()]);
            }
        }
        ns_names.push(n);
    }
    let mut g = Gen {
        src,
        opts,
        s: Schema {
            ns,
            ..Default::default()
        },
        ns_names,
        field_names: vec![],
    };
    let use_ns = g.s.ns.len();
    let pick_ns = |g: &mut Gen| -> usize {
        if use_ns > 1 && g.src.chance(3, 4) {
            1 + g.src.idx(use_ns - 1)
        } else {
            0
        }
    };
    // enums
    for _ in 0..1 + g.src.idx(3) {
        let n = pick_ns(&mut g);
        let base = *g.src.pick(&INTS);
        let alias = g.src.idx(2);
        let e = g.add_type(n, Kind::Enum(base, alias, vec![]));
        for _ in 0..1 + g.src.idx(5) {
            g.add_variant(e);
        }
    }
    // tables (fields later, so that anything can refer to anything)
    let nt = 2 + g.src.below(opts.tables.max(3) - 2);
    let mut tables = vec![];
    for _ in 0..nt {
        let n = pick_ns(&mut g);
        tables.push(g.add_type(n, Kind::Table(vec![])));
    }
    // unions over tables of one namespace
    for _ in 0..g.src.below(3) {
        let n = pick_ns(&mut g);
        let ts = g.tables_in(n);
        if ts.is_empty() {
            continue;
        }
        let mut members: Vec<usize> = vec![];
        for _ in 0..1 + g.src.idx(3) {
            let t = *g.src.pick(&ts);
            if !members.contains(&t) {
                members.push(t);
            }
        }
        g.add_type(n, Kind::Union(members));
    }
    for &t in &tables {
        let nf = g.src.below(opts.fields + 1);
        for _ in 0..nf {
            g.add_field(t);
        }
    }
    // services
    for _ in 0..g.src.below(opts.services + 1) {
        let n = pick_ns(&mut g);
        let cand: Vec<usize> = tables.iter().copied().filter(|&t| g.can_ref(n, t)).collect();
        if cand.is_empty() {
            continue;
        }
        let others = g.s.services.iter().filter(|s| s.ns != n).map(|s| s.name.clone()).collect();
        let name = g.type_name(n, others);
        let mut mn = Names::new();
        let mut methods = vec![];
        for _ in 0..1 + g.src.below(3) {
            let odd = opts.odd_names;
            let name = cap(&mn.field(g.src, odd));
            methods.push(Method {
                name,
                req: *g.src.pick(&cand),
                res: *g.src.pick(&cand),
                streaming: *g.src.pick(&[Streaming::None, Streaming::Client, Streaming::Server, Streaming::Bidi]),
            });
        }
        g.s.services.push(Service { name, ns: n, methods });
    }
    for i in 0..g.s.types.len() {
        g.s.order.push(Item::Type(i));
    }
    for i in 0..g.s.services.len() {
        g.s.order.push(Item::Service(i));
    }
    if g.src.chance(1, 4) {
        let r = *g.src.pick(&tables);
        g.s.order.push(Item::Root(r));
    }
    g.shuffle_order();
    let mut versions = vec![g.s.clone()];
    for _ in 1..opts.versions {
        // append only
        let steps = 1 + g.src.idx(6);
        for _ in 0..steps {
            match g.src.below(6) {
                0 => {
                    let es: Vec<usize> =
                        (0..g.s.types.len()).filter(|&i| matches!(g.s.types[i].kind, Kind::Enum(..))).collect();
                    let e = *g.src.pick(&es);
                    g.add_variant(e);
                }
                1 => {
                    let us: Vec<usize> =
                        (0..g.s.types.len()).filter(|&i| matches!(g.s.types[i].kind, Kind::Union(..))).collect();
                    if us.is_empty() {
                        continue;
                    }
                    let u = *g.src.pick(&us);
                    let n = g.s.types[u].ns;
                    let t = g.add_type(n, Kind::Table(vec![]));
                    g.s.order.push(Item::Type(t));
                    // a required union must stay finite: members refer to
                    // earlier tables only, which add_field ensures
                    for _ in 0..g.src.below(3) {
                        g.add_field(t);
                    }
                    if let Kind::Union(m) = &mut g.s.types[u].kind {
                        m.push(t);
                    }
                }
                _ => {
                    let ts = g.s.tables();
                    let t = *g.src.pick(&ts);
                    g.add_field(t);
                }
            }
        }
        g.shuffle_order();
        versions.push(g.s.clone());
    }
    Family { versions }
}
