use crate::util::*;
use schema::*;
use simkit::{violation, Ctx, RunResult, Src};

const TOKENS: [&str; 64] = [
    "table", "enum", "union", "struct", "rpc_service", "namespace", "root_type", "include", "attribute", "file_identifier",
    "file_extension", "{", "}", "(", ")", "[", "]", ":", ";", ",", "=", ".", "\"", "//", "///", "\n", " ", "int", "string",
    "[int]", "[[int]]", "bool", "float", "double", "ubyte", "0", "1", "-1", "0x", "0xff", "1e400", "1.5", "-", "+", "true",
    "false", "nan", "-inf", "\"ABCD\"", "\"\\x\"", "required", "deprecated", "(required)", "(id: 3)", "streaming: \"bidi\"",
    "(streaming: \"x\")", "99999999999999999999999", "-129", "256", "_", "__", "r#type", "\u{e9}", "\u{0}",
];

const JUNK: [&str; 14] = [
    "}", "{", "junk", "table", "table {", ")", "@", "\u{e9}", "\u{0}", "0", "= 1;", "enum E", "\"x\"", ";",
];

/// Deepest nesting of brackets, counted without regard to comments.
fn depth(t: &str) -> usize {
    let (mut d, mut m) = (0usize, 0usize);
    for c in t.chars() {
        match c {
            '{' | '(' | '[' => {
                d += 1;
                m = m.max(d);
            }
            '}' | ')' | ']' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}

fn boundary(t: &str, mut i: usize) -> usize {
    i = i.min(t.len());
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

const ODD_WORDS: [&str; 40] = [
    "_", "__", "_1", "_9x", "__0", "x_", "x\u{b2}", "\u{bd}", "\u{2460}", "\u{aa}", "x\u{2167}", "\u{e9}", "\u{4e16}", "x\u{301}", "self", "Self",
    "super", "crate", "type", "Type", "match", "true", "false", "nan", "inf", "None", "none", "value", "Result", "String", "Vec",
    "Option", "u8", "str", "table", "enum", "union", "string", "int", "x\u{661}",
];

fn words(t: &str) -> Vec<(usize, usize)> {
    {
        let mut v = vec![];
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_alphanumeric() || b[i] == b'_' {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                v.push((s, i));
            } else {
                i += 1;
            }
        }
        v
    }
}

/// Rename one word, here or everywhere.
fn rename(src: &mut Src, t: &str) -> String {
    let words = words(t);
    if words.is_empty() {
        return t.to_string();
    }
    let (a, b) = words[src.idx(words.len())];
    let new = *src.pick(&ODD_WORDS);
    if src.chance(1, 2) {
        return format!("{}{new}{}", &t[..a], &t[b..]);
    }
    let old = &t[a..b];
    let mut out = String::new();
    let mut at = 0;
    for (x, y) in &words {
        out.push_str(&t[at..*x]);
        out.push_str(if &t[*x..*y] == old { new } else { &t[*x..*y] });
        at = *y;
    }
    out.push_str(&t[at..]);
    out
}

/// Exchange two words of the text.
fn swap_words(src: &mut Src, t: &str) -> String {
    let words = words(t);
    if words.len() < 2 {
        return t.to_string();
    }
    let (mut a, mut b) = (words[src.idx(words.len())], words[src.idx(words.len())]);
    if a.0 > b.0 {
        std::mem::swap(&mut a, &mut b);
    }
    if a.0 == b.0 {
        return t.to_string();
    }
    format!("{}{}{}{}{}", &t[..a.0], &t[b.0..b.1], &t[a.1..b.0], &t[a.0..a.1], &t[b.1..])
}

fn damage(src: &mut Src, ctx: &mut Ctx, t: String, other: &str) -> String {
    match src.below(22) {
        19 | 20 | 21 => {
            ctx.fault("unusual declaration");
            unusual(src, &t)
        }
        14 | 15 | 16 => {
            ctx.fault("number replaced");
            renumber(src, &t)
        }
        17 => {
            ctx.fault("something excessive");
            excess(src, &t)
        }
        0 => {
            ctx.fault("cut");
            let i = boundary(&t, src.idx(t.len() + 1));
            t[..i].to_string()
        }
        1 => {
            ctx.fault("head lost");
            let i = boundary(&t, src.idx(t.len() + 1));
            t[i..].to_string()
        }
        2 => {
            ctx.fault("bytes flipped");
            let mut b = t.into_bytes();
            for _ in 0..1 + src.idx(3) {
                if !b.is_empty() {
                    let i = src.idx(b.len());
                    b[i] ^= 1 << src.below(8);
                }
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        3 | 4 | 5 => {
            let mut l: Vec<&str> = t.split_inclusive('\n').collect();
            if l.is_empty() {
                return t;
            }
            let i = src.idx(l.len());
            match src.below(3) {
                0 => {
                    ctx.fault("line lost");
                    l.remove(i);
                }
                1 => {
                    ctx.fault("line doubled");
                    l.insert(i, l[i]);
                }
                _ => {
                    ctx.fault("lines swapped");
                    let j = src.idx(l.len());
                    l.swap(i, j);
                }
            }
            l.concat()
        }
        6 => {
            ctx.fault("spliced with another file");
            let i = boundary(&t, src.idx(t.len() + 1));
            let j = boundary(other, src.idx(other.len() + 1));
            format!("{}{}", &t[..i], &other[j..])
        }
        7 | 8 => {
            ctx.fault("token inserted");
            let i = boundary(&t, src.idx(t.len() + 1));
            let sp = if src.chance(1, 2) { " " } else { "" };
            format!("{}{sp}{}{sp}{}", &t[..i], src.pick::<&str>(&TOKENS), &t[i..])
        }
        9 => {
            ctx.fault("range lost");
            let i = boundary(&t, src.idx(t.len() + 1));
            let j = boundary(&t, i + src.idx(20));
            format!("{}{}", &t[..i], &t[j.max(i)..])
        }
        12 | 13 => {
            ctx.fault("word replaced");
            rename(src, &t)
        }
        10 => {
            ctx.fault("words exchanged");
            swap_words(src, &t)
        }
        _ => {
            ctx.fault("range repeated");
            let i = boundary(&t, src.idx(t.len() + 1));
            let j = boundary(&t, i + src.idx(30)).max(i);
            let n = 1 + src.idx(6);
            format!("{}{}{}", &t[..i], t[i..j].repeat(n), &t[i..])
        }
    }
}

/// A number as somebody may type it: of any length, sign, base and form.
fn number(src: &mut Src) -> String {
    let sign = *src.pick(&["", "", "", "-", "+", "- ", "--"]);
    let digits = |src: &mut Src, set: &str| -> String {
        let set: Vec<char> = set.chars().collect();
        let n = if src.chance(1, 3) { 1 + src.idx(60) } else { 1 + src.idx(6) };
        let same = if src.chance(1, 3) { Some(*src.pick(&set)) } else { None };
        (0..n).map(|_| same.unwrap_or_else(|| *src.pick(&set))).collect()
    };
    let body = match src.below(9) {
        0 | 1 => format!("0x{}", digits(src, "0123456789abcdefABCDEF")),
        2 => format!("0X{}", digits(src, "0123456789abcdefABCDEF")),
        3 | 4 => digits(src, "0123456789"),
        5 => format!("{}.{}", digits(src, "0123456789"), digits(src, "0123456789")),
        6 => format!("{}e{}{}", digits(src, "0123456789"), src.pick(&["", "-", "+"]), digits(src, "0123456789")),
        7 => format!("0x{}.{}p{}", digits(src, "0123456789abcdef"), digits(src, "0123456789abcdef"), digits(src, "0123456789")),
        _ => src.pick::<&str>(&["0x", ".", "1.", ".5", "1e", "1e+", "nan", "inf", "infinity", "18446744073709551616", "9223372036854775808",
            "340282366920938463463374607431768211456", "170141183460469231731687303715884105728", "0x80000000000000000000000000000000",
            "0xffffffffffffffffffffffffffffffff", "0x7fffffffffffffffffffffffffffffff"]).to_string(),
    };
    format!("{sign}{body}")
}

/// Put a number where one belongs: in place of another, or where something
/// may have a value.
fn renumber(src: &mut Src, t: &str) -> String {
    let nums: Vec<(usize, usize)> = words(t).into_iter().filter(|w| t.as_bytes()[w.0].is_ascii_digit()).collect();
    let n = number(src);
    if !nums.is_empty() && src.chance(2, 3) {
        let (a, b) = nums[src.idx(nums.len())];
        return format!("{}{n}{}", &t[..a], &t[b..]);
    }
    let ty = *src.pick(&["byte", "ubyte", "short", "int", "uint", "long", "ulong", "float", "double", "bool", "string", "[int]", "int8", "uint64", "float32"]);
    let d = match src.below(4) {
        0 => format!("\nenum Zz : {ty} {{ A = {n}, B }}\n"),
        1 => format!("\ntable Zz {{ a:{ty} (x: {n}); }}\n"),
        2 => format!("\ntable Zy {{}}\nunion Zz {{ Zy = {n} }}\n"),
        _ => format!("\ntable Zz {{ a:{ty} = {n}; }}\n"),
    };
    format!("{t}{d}")
}

/// What may stand between quotes.
fn quoted(src: &mut Src) -> String {
    let t = match src.below(4) {
        0 => {
            let n = src.idx(7);
            (0..n).map(|_| *src.pick(&['a', 'Z', '0', '_', ' ', '.', '/', '\u{e9}', '\u{4e16}', '\u{1f600}', '\u{0}', '\n'])).collect()
        }
        _ => src
            .pick::<&str>(&[
                "", "ABCD", "ABC", "ABCDE", "abc\u{e9}", "ab\u{e9}", "\u{1f600}", "\u{1f600}\u{1f600}\u{1f600}\u{1f600}", "a\\\"c", "\\\\x\\", "x.fbs",
                "../x.fbs", "/", "..", ".", "a/", "a/..", ".fbs", "a/b.c/d.e.fbs", "\u{e9}.fbs", "c:\\\\x.fbs", "//x", "\u{0}", "bidi", "client", "server", "none",
            ])
            .to_string(),
    };
    format!("\"{t}\"")
}

/// A name that some declaration of the text has, or another.
fn some_name(src: &mut Src, t: &str) -> String {
    let w = words(t);
    let n: Vec<&str> = w
        .windows(2)
        .filter(|w| matches!(&t[w[0].0..w[0].1], "table" | "enum" | "union" | "rpc_service" | "struct"))
        .map(|w| &t[w[1].0..w[1].1])
        .collect();
    if n.is_empty() || src.chance(1, 4) {
        src.pick::<&str>(&["Zz", "Zy", "int", "string", "a.b.C", ".", "x.", "\u{e9}"]).to_string()
    } else {
        n[src.idx(n.len())].to_string()
    }
}

/// A declaration of a kind that schemas of today's users seldom have, in a
/// place where declarations stand.
fn unusual(src: &mut Src, t: &str) -> String {
    let q = quoted(src);
    let (n, m) = (some_name(src, t), some_name(src, t));
    let sp = *src.pick(&["", " ", "  // x\n", "\n/// doc\n"]);
    let d = match src.below(13) {
        0 => format!("include{sp}{q};"),
        1 => format!("include {q}{sp};"),
        2 => format!("attribute{sp}{q};"),
        3 => format!("attribute {n};"),
        4 => format!("file_extension{sp}{q};"),
        5 | 6 => format!("file_identifier{sp}{q}{sp};"),
        7 => format!("struct {n} {{ a:{}; b:{m}; }}", src.pick::<&str>(&["int", "string", "[int]", "bool", "double", "[int:3]"])),
        8 => format!("struct {n} {{ a:int{}; }}", src.pick::<&str>(&["", " = 1", " (required)", " (id: 0)", " = x"])),
        9 => format!("{} {n} {{ {} }}", src.pick::<&str>(&["table", "union", "enum", "struct", "rpc_service"]), src.pick::<&str>(&["", "A", "a:int;", "A = 1", "a(b):c;"])),
        10 => {
            let v = src.pick::<&str>(&["streaming", "streaming: bidi", "streaming: 1", "other", "streaming: none", "idempotent, streaming"]).to_string();
            let v = if src.chance(1, 2) { v } else { format!("streaming: {q}") };
            format!("rpc_service Zs {{ do_it({n}):{m} ({v}); }}")
        }
        11 => format!("root_type {n};"),
        _ => format!("{{ a: {q}, b: [1, {{ c: {n} }}], }}"),
    };
    // in front, at the end, or behind a declaration's brace or semicolon
    let mut at: Vec<usize> = t.char_indices().filter(|(_, c)| matches!(c, '}' | ';')).map(|(i, _)| i + 1).collect();
    at.push(t.len());
    let i = if src.chance(1, 3) { 0 } else { at[src.idx(at.len())] };
    format!("{}\n{d}\n{}", &t[..i], &t[i..])
}

/// More of something than anybody expects.
fn excess(src: &mut Src, t: &str) -> String {
    let n = 1 + src.size(3000) as usize;
    let depth = 1 + src.idx(60);
    let d = match src.below(9) {
        0 => format!("table {} {{ a:int; }}", "Z".repeat(n)),
        1 => format!("table Zz {{ {}:int; }}", "z".repeat(n)),
        2 => format!("table Zz {{ a:{}int{}; }}", "[".repeat(depth), "]".repeat(depth)),
        3 => format!("namespace {};\ntable Zz {{}}", vec!["z"; 1 + n % 300].join(".")),
        4 => format!("table Zz {{ a:int (x: \"{}\"); }}", "\\\"".repeat(n)),
        5 => format!("table Zz {{ {} }}", (0..n % 400).map(|i| format!("f{i}:int;")).collect::<String>()),
        6 => format!("enum Zz : {} {{ {} }}", src.pick(&["byte", "ubyte", "short"]), (0..n % 400).map(|i| format!("V{i},")).collect::<String>()),
        7 => {
            let k = n % 300;
            let ts: String = (0..k).map(|i| format!("table Zz{i} {{}}\n")).collect();
            format!("{ts}union Zz {{ {} }}\n", (0..k).map(|i| format!("Zz{i},")).collect::<String>())
        }
        _ => format!("{}a:1{}", "{".repeat(depth), "}".repeat(depth)),
    };
    if src.chance(1, 2) {
        format!("{t}\n{d}\n")
    } else {
        format!("{d}\n{t}")
    }
}

fn soup(src: &mut Src, ctx: &mut Ctx) -> String {
    ctx.fault("replaced by junk");
    let mut s = String::new();
    for _ in 0..src.size(60) {
        if src.chance(1, 8) {
            s.push(char::from_u32(src.below(0x2000) as u32).unwrap_or('x'));
        } else {
            s.push_str(src.pick::<&str>(&TOKENS));
            s.push(' ');
        }
    }
    s
}

pub fn run(src: &mut Src, ctx: &mut Ctx) -> RunResult {
    let s = draw_schema(src, 1);
    let noise = src.chance(2, 3);
    let t = render(src, &s, noise);
    let mut text = t.s.clone();
    // set when the text must be refused
    let mut must_fail: Option<String> = None;
    match src.weighted(&[5, 3, 3, 1, 1]) {
        0 => {
            let s2 = draw_schema(src, 1);
            let t2 = render(src, &s2, false);
            for _ in 0..1 + src.idx(3) {
                text = damage(src, ctx, text, &t2.s);
            }
        }
        1 if !t.decls.is_empty() => {
            let (a, b) = t.decls[src.idx(t.decls.len())];
            // up to and including at least one byte of the declaration, and
            // without its last
            let mut i = a + 1 + src.idx(b - a - 1);
            while !text.is_char_boundary(i) {
                i += 1;
            }
            if i < b {
                text.truncate(i);
                // what a cut leaves may end in a comment; the declaration is
                // still open
                must_fail = Some(format!("cut at byte {i}, inside the declaration at {a}..{b}"));
                ctx.fault("cut inside a declaration");
                ctx.mark(i as u64);
            }
        }
        2 => {
            let j = *src.pick(&JUNK);
            let at = src.idx(t.decls.len() + 1);
            if at == t.decls.len() || src.chance(1, 2) {
                text.push_str(j);
                if src.chance(1, 2) {
                    text.push('\n');
                }
                must_fail = Some(format!("followed by junk {j:?}"));
            } else if at > 0 {
                // between two declarations, on a line of its own
                let p = t.decls[at - 1].1;
                text.insert_str(p, &format!("\n{j}\n"));
                if j != "table" && j != "enum E" && j != "table {" && j != "{" {
                    must_fail = Some(format!("junk {j:?} between declarations"));
                }
            }
            ctx.fault("junk added");
        }
        4 if !t.decls.is_empty() => {
            let b = broken(src, &s, &t);
            text = String::from_utf8(b).expect("text");
            must_fail = Some("it contains an error".into());
            ctx.fault("wrong declaration");
        }
        _ => text = soup(src, ctx),
    }
    if depth(&text) > 64 {
        return Ok(());
    }
    ctx.mark_bytes(text.as_bytes());
    ctx.step();
    ctx.ev(|| format!("text:\n{text}"));
    let o = compile(text.as_bytes(), None);
    ctx.ev(|| o.short());
    match (&o, must_fail) {
        (Out::Panic(p), _) => violation("panic", format!("the compiler panicked: {p}\ntext:\n{}", crate::c05::clip(&text))),
        (Out::Code(_), Some(w)) => violation("accepted-damaged", format!("compiled although {w}\ntext ends:\n{}", tail(&text))),
        (Out::Code(_), None) => {
            ctx.probe("damaged text compiled");
            Ok(())
        }
        (Out::Err(_), _) => Ok(()),
    }
}

fn tail(s: &str) -> String {
    let mut i = s.len().saturating_sub(1200);
    while !s.is_char_boundary(i) {
        i += 1;
    }
    s[i..].to_string()
}
