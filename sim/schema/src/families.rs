//! The schema families one check works with.

use crate::model::*;
use simkit::{mix, Src};

fn f(name: &str, ty: Ty, default: Option<Lit>, required: bool) -> Field {
    Field {
        name: name.into(),
        ty,
        default,
        required,
        alias: name.len() % 2,
    }
}

fn table(name: &str, ns: usize, fields: Vec<Field>) -> TypeDef {
    TypeDef {
        name: name.into(),
        ns,
        kind: Kind::Table(fields),
    }
}

fn en(name: &str, ns: usize, base: Prim, vs: &[(&str, i128, bool)]) -> TypeDef {
    TypeDef {
        name: name.into(),
        ns,
        kind: Kind::Enum(
            base,
            0,
            vs.iter()
                .map(|(n, v, e)| Variant {
                    name: n.to_string(),
                    value: *v,
                    explicit: *e,
                })
                .collect(),
        ),
    }
}

fn some_default(p: Prim) -> Lit {
    match p {
        Prim::Bool => Lit::Bool(true),
        Prim::F32 => Lit::F32(2.5f32.to_bits()),
        Prim::F64 => Lit::F64((-3.25f64).to_bits()),
        p => {
            let (lo, hi) = p.range();
            Lit::Int(if lo < 0 { lo + 1 } else { hi - 1 })
        }
    }
}

/// A family that has every kind of field in every role.
fn kitchen_sink() -> Family {
    let v = |t: Ty| Ty::Vec(Box::new(t));
    let ns = vec![vec![], vec!["Main".to_string(), "Parts".into()], vec!["Main".into()], vec!["side_lib".into()]];
    let mut types = vec![
        // 0..=7: an enum per base type
        en("EI8", 1, Prim::I8, &[("Low", -128, true), ("Next", -127, false), ("Zero", 0, true), ("Top", 127, true)]),
        en("EU8", 1, Prim::U8, &[("A", 0, false), ("B", 1, false), ("C", 200, true), ("D", 201, false)]),
        en("EI16", 2, Prim::I16, &[("Neg", -5, true), ("N4", -4, false), ("Pos", 300, true)]),
        en("EU16", 3, Prim::U16, &[("one", 1, true), ("two", 2, false), ("big", 65535, true)]),
        en("EI32", 0, Prim::I32, &[("red", 0, false), ("green", 5, true), ("blue", 6, false)]),
        en("EU32", 2, Prim::U32, &[("X", 4_000_000_000, true), ("Y", 4_000_000_001, false)]),
        en("EI64", 1, Prim::I64, &[("Min", i64::MIN as i128, true), ("type", 7, true), ("Max", i64::MAX as i128, true)]),
        en("EU64", 3, Prim::U64, &[("P", 3, true), ("Q", 4, false), ("R", u64::MAX as i128, true)]),
    ];
    // 8: leaf
    types.push(table(
        "Leaf",
        1,
        vec![f("id", Ty::Prim(Prim::U32), None, false), f("tag", Ty::Str, None, false)],
    ));
    // 9: scalars without and with defaults, all required ones
    let mut fs = vec![];
    for p in PRIMS {
        fs.push(f(&format!("plain_{}", p.rust()), Ty::Prim(p), None, false));
        fs.push(f(&format!("dflt_{}", p.rust()), Ty::Prim(p), Some(some_default(p)), false));
        fs.push(f(&format!("req_{}", p.rust()), Ty::Prim(p), Some(some_default(p)), true));
    }
    types.push(table("Scalars", 1, fs));
    // 10: vectors
    let mut fs = vec![];
    for p in PRIMS {
        fs.push(f(&format!("v_{}", p.rust()), v(Ty::Prim(p)), None, false));
    }
    for e in [0usize, 1, 2, 3, 5, 6, 7] {
        fs.push(f(&format!("ve{e}"), v(Ty::Enum(e)), None, false));
    }
    fs.push(f("strs", v(Ty::Str), None, false));
    fs.push(f("leaves", v(Ty::Table(8)), None, false));
    fs.push(f("grid", v(v(Ty::Prim(Prim::U16))), None, false));
    fs.push(f("grid64", v(v(Ty::Prim(Prim::F64))), None, false));
    fs.push(f("names", v(v(Ty::Str)), None, false));
    fs.push(f("leaf_rows", v(v(Ty::Table(8))), None, false));
    fs.push(f("must", v(Ty::Prim(Prim::I64)), None, true));
    fs.push(f("must_str", v(Ty::Str), None, true));
    types.push(table("Vectors", 2, fs));
    // 11: enums
    let mut fs = vec![];
    for e in [0usize, 1, 2, 3, 5, 6, 7] {
        fs.push(f(&format!("e{e}"), Ty::Enum(e), None, false));
        fs.push(f(&format!("d{e}"), Ty::Enum(e), Some(Lit::Variant(1)), false));
        fs.push(f(&format!("r{e}"), Ty::Enum(e), None, true));
    }
    types.push(table("Enums", 1, fs));
    // 12: empty table
    types.push(table("Empty", 1, vec![]));
    // 13, 14: unions over tables of namespace 1
    types.push(TypeDef {
        name: "AnyPart".into(),
        ns: 1,
        kind: Kind::Union(vec![8, 9, 11]),
    });
    types.push(TypeDef {
        name: "EmptyOr".into(),
        ns: 1,
        kind: Kind::Union(vec![12, 8]),
    });
    // 15: the root that refers to everything
    types.push(table(
        "Root",
        2,
        vec![
            f("flag", Ty::Prim(Prim::Bool), None, false),
            f("scalars", Ty::Table(9), None, false),
            f("type", Ty::Str, None, false),
            f("any", Ty::Union(13), None, false),
            f("vectors", Ty::Table(10), None, false),
            f("match", Ty::Prim(Prim::U8), Some(Lit::Int(9)), false),
            f("mustAny", Ty::Union(14), None, true),
            f("mustLeaf", Ty::Table(8), None, true),
            f("mustText", Ty::Str, None, true),
            f("children", v(Ty::Table(15)), None, false),
            f("next", Ty::Table(15), None, false),
            f("enums", Ty::Table(11), None, false),
            f("Wide", Ty::Prim(Prim::F64), Some(Lit::F64(1.0f64.to_bits())), false),
            f("as", Ty::Table(12), None, false),
            f("many", v(Ty::Table(9)), None, false),
        ],
    ));
    let services = vec![
        Service {
            name: "Greeter".into(),
            ns: 2,
            methods: vec![
                Method {
                    name: "SayHello".into(),
                    req: 15,
                    res: 8,
                    streaming: Streaming::None,
                },
                Method {
                    name: "Watch".into(),
                    req: 9,
                    res: 15,
                    streaming: Streaming::Server,
                },
            ],
        },
        Service {
            name: "Sink".into(),
            ns: 1,
            methods: vec![Method {
                name: "Pour".into(),
                req: 8,
                res: 12,
                streaming: Streaming::Bidi,
            }],
        },
    ];
    let mut s = Schema {
        ns,
        types,
        services,
        order: vec![],
    };
    // declared in reverse: nearly every reference is a forward reference
    fn order(s: &mut Schema, rev: bool) {
        let mut o: Vec<Item> = (0..s.types.len()).map(Item::Type).collect();
        o.insert(3, Item::Service(0));
        o.push(Item::Service(1));
        if rev {
            o.reverse();
        }
        s.order = o;
        let c = s.clone();
        s.order.sort_by_key(|it| c.item_ns(*it) != 0);
    }
    order(&mut s, true);
    let v0 = s.clone();
    fn push(s: &mut Schema, t: usize, fl: Field) {
        if let Kind::Table(x) = &mut s.types[t].kind {
            x.push(fl);
        }
    }
    fn var(s: &mut Schema, t: usize, n: &str, val: i128, explicit: bool) {
        if let Kind::Enum(_, _, x) = &mut s.types[t].kind {
            x.push(Variant {
                name: n.into(),
                value: val,
                explicit,
            });
        }
    }
    // version 1: more enum values and union members, more fields
    for (e, val) in [(0usize, 5i128), (1, 250), (2, 301), (3, 9), (5, 1), (6, 0), (7, 77)] {
        var(&mut s, e, "Newer", val, true);
    }
    push(&mut s, 8, f("weight", Ty::Prim(Prim::F64), None, false));
    push(&mut s, 8, f("must_late", Ty::Str, None, true));
    push(&mut s, 12, f("not_any_more", Ty::Prim(Prim::I16), Some(Lit::Int(-7)), false));
    push(&mut s, 15, f("late_any", Ty::Union(14), None, false));
    push(&mut s, 15, f("late_must", Ty::Union(13), None, true));
    push(&mut s, 15, f("late_enum", Ty::Enum(2), None, false));
    push(&mut s, 15, f("late_req_enum", Ty::Enum(3), None, true));
    push(&mut s, 15, f("late_vec", v(Ty::Enum(1)), None, true));
    push(&mut s, 15, f("late_num", Ty::Prim(Prim::U64), Some(Lit::Int(42)), true));
    s.types.push(table("Extra", 1, vec![f("text", Ty::Str, None, false), f("n", Ty::Prim(Prim::U8), None, false)]));
    let extra = s.types.len() - 1;
    for u in [13usize, 14] {
        if let Kind::Union(m) = &mut s.types[u].kind {
            m.push(extra);
        }
    }
    order(&mut s, false);
    // the same types by their other names
    for t in &mut s.types {
        match &mut t.kind {
            Kind::Enum(_, a, _) => *a ^= 1,
            Kind::Table(fs) => fs.iter_mut().for_each(|x| x.alias ^= 1),
            _ => {}
        }
    }
    let v1 = s.clone();
    // version 2: once more
    for (e, val) in [(0usize, 6i128), (1, 3), (2, 302), (3, 10), (5, 2), (6, 1), (7, 78)] {
        var(&mut s, e, "Newest", val, true);
    }
    push(&mut s, 9, f("late", Ty::Prim(Prim::U8), Some(Lit::Int(1)), false));
    push(&mut s, 10, f("late_strs", v(Ty::Str), None, false));
    push(&mut s, 11, f("late_e", Ty::Enum(0), Some(Lit::Variant(2)), false));
    push(&mut s, extra, f("self", Ty::Table(8), None, false));
    push(&mut s, 15, f("z", Ty::Prim(Prim::Bool), Some(Lit::Bool(true)), false));
    order(&mut s, true);
    let v2 = s;
    Family {
        versions: vec![v0, v1, v2],
    }
}

/// A family of large declarations: more fields, enum values, union members
/// and namespace levels than anyone tries by hand.
fn wide() -> Family {
    let v = |t: Ty| Ty::Vec(Box::new(t));
    let p = |x: &str| x.split('.').map(str::to_string).collect::<Vec<_>>();
    let ns = vec![vec![], p("deep.one.two.three.four"), p("deep.other.two.three"), p("deep.one"), p("two.three.four")];
    let mut types = vec![];
    // 0: more values than an octet has
    types.push(TypeDef {
        name: "Code".into(),
        ns: 2,
        kind: Kind::Enum(
            Prim::U16,
            0,
            (0..300)
                .map(|i| Variant {
                    name: format!("C{i}"),
                    value: if i < 150 { i } else { i + 1000 },
                    explicit: i == 150,
                })
                .collect(),
        ),
    });
    // 1: every value of a signed octet but some
    types.push(TypeDef {
        name: "Step".into(),
        ns: 1,
        kind: Kind::Enum(
            Prim::I8,
            1,
            (0..200)
                .map(|i| Variant {
                    name: format!("S{i}"),
                    value: i - 128,
                    explicit: i == 0,
                })
                .collect(),
        ),
    });
    // 2..: members
    let members = 140usize;
    for i in 0..members {
        types.push(table(
            &format!("M{i}"),
            1,
            match i % 3 {
                0 => vec![],
                1 => vec![f("n", Ty::Prim(INTS[i % 8]), None, false)],
                _ => vec![f("s", Ty::Str, None, false), f("c", Ty::Enum(0), None, i % 2 == 0)],
            },
        ));
    }
    let u = types.len();
    types.push(TypeDef {
        name: "AnyOf".into(),
        ns: 1,
        kind: Kind::Union((2..2 + members).collect()),
    });
    let fields = |lo: usize, hi: usize| -> Vec<Field> {
        (lo..hi)
            .map(|i| {
                let name = format!("f{i}");
                match i % 13 {
                    0 => f(&name, Ty::Str, None, false),
                    3 => f(&name, v(Ty::Prim(PRIMS[i % 11])), None, false),
                    5 => f(&name, Ty::Enum(0), Some(Lit::Variant(i % 300)), false),
                    7 => f(&name, Ty::Enum(1), None, false),
                    9 => f(&name, Ty::Table(2 + i % 140), None, false),
                    11 if i % 2 == 0 => f(&name, Ty::Union(u), None, false),
                    k => {
                        let pr = PRIMS[i % 11];
                        f(&name, Ty::Prim(pr), if k % 2 == 0 { Some(some_default(pr)) } else { None }, i % 50 == 1)
                    }
                }
            })
            .collect()
    };
    let big = types.len();
    types.push(table("Big", 4, fields(0, 120)));
    types.push(table("Holder", 3, vec![f("big", Ty::Table(big), None, false), f("bigs", v(Ty::Table(big)), None, false), f("any", Ty::Union(u), None, true)]));
    let mut s = Schema {
        ns,
        types,
        services: vec![],
        order: vec![],
    };
    s.order = (0..s.types.len()).rev().map(Item::Type).collect();
    let v0 = s.clone();
    let mut versions = vec![v0];
    for (lo, hi) in [(120usize, 126usize), (126, 280)] {
        if let Kind::Table(x) = &mut s.types[big].kind {
            x.extend(fields(lo, hi));
        }
        for e in [0usize, 1] {
            if let Kind::Enum(_, _, x) = &mut s.types[e].kind {
                for k in 0..3 {
                    let i = x.len();
                    let value = x[i - 1].value + 1;
                    x.push(Variant {
                        name: format!("N{i}"),
                        value: if k == 0 && e == 0 { 200 + i as i128 } else if k == 1 && e == 0 { 2000 + i as i128 } else { value },
                        explicit: e == 0 && k < 2,
                    });
                }
            }
        }
        s.types.push(table(&format!("Late{hi}"), 1, vec![f("n", Ty::Prim(Prim::U32), None, false)]));
        let t = s.types.len() - 1;
        if let Kind::Union(m) = &mut s.types[u].kind {
            m.push(t);
        }
        s.order.reverse();
        s.order.push(Item::Type(t));
        versions.push(s.clone());
    }
    Family { versions }
}

/// The families of a check, all from one integer.
pub fn families(seed: u64, n: usize) -> Vec<Family> {
    (0..n.max(2)).map(|i| nth_family(seed, i)).collect()
}

/// One of them.
pub fn nth_family(seed: u64, i: usize) -> Family {
    match i {
        0 => kitchen_sink(),
        1 => wide(),
        _ => {
        let mut src = Src::from_seed(mix(&[0xfa31, seed, i as u64]));
        let opts = Opts {
            versions: 3,
            tables: 3 + (i as u64 % 4),
            fields: 4 + (i as u64 * 3 % 7),
            services: 1,
            odd_names: i % 3 != 0,
            namespaces: i as u64 % 4,
        };
        gen_family(&mut src, opts)
    }}
}

/// The text of one version of a family of a check.
pub fn family_text(seed: u64, fam: usize, ver: usize, s: &Schema) -> crate::Text {
    let mut src = Src::from_seed(mix(&[0x7e47, seed, fam as u64, ver as u64]));
    crate::render(&mut src, s, fam % 2 == 1)
}
