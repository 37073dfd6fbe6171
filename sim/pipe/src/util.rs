use butte_build::codegen::RpcGenerator;
use schema::*;
use simkit::{guard, Src};
use std::io::Write;
use std::sync::{Arc, Mutex};

pub fn draw_schema(src: &mut Src, services: u64) -> Schema {
    let big = src.chance(1, 12);
    let opts = Opts {
        versions: 1,
        tables: if big { 24 } else { 1 + src.below(4) },
        fields: 1 + src.below(6),
        services,
        odd_names: src.chance(1, 3),
        namespaces: 1 + src.below(3),
    };
    gen_family(src, opts).versions.remove(0)
}

/// Sometimes make the text large by comments, so that declarations lie on
/// both sides of any buffer boundary.
pub fn pad(src: &mut Src, t: &mut Text) {
    if !src.chance(1, 6) {
        return;
    }
    let at = if t.decls.is_empty() { 0 } else { src.idx(t.decls.len() + 1) };
    let pos = if at == 0 { 0 } else { t.decls[at - 1].1 };
    let n = if src.chance(1, 25) {
        [600_000, 1_100_000, 2_200_000, 4_300_000][src.idx(4)]
    } else {
        [4000, 8192, 16_000, 70_000, 140_000][src.idx(5)]
    } + src.idx(100);
    let mut filler = String::from("\n");
    let line = if src.chance(1, 2) { "// filler \u{e9}\u{4e16} {x} ;\n" } else { "// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\n" };
    while filler.len() < n {
        filler.push_str(line);
    }
    t.s.insert_str(pos, &filler);
    for d in &mut t.decls {
        if d.0 >= pos {
            d.0 += filler.len();
            d.1 += filler.len();
        }
    }
}

#[derive(Clone, Default)]
pub struct MemSink(pub Arc<Mutex<Vec<u8>>>);
impl Write for MemSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Outcome of a compile: the code, the reported error, or a panic.
#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Code(Vec<u8>),
    Err(String),
    Panic(String),
}

impl Out {
    pub fn short(&self) -> String {
        match self {
            Out::Code(c) => format!("Ok, {} bytes", c.len()),
            Out::Err(e) => format!("Err({e})"),
            Out::Panic(e) => format!("panic: {e}"),
        }
    }
}

/// Compile over faultless memory streams.
pub fn compile(text: &[u8], gen: Option<Box<dyn RpcGenerator>>) -> Out {
    let sink = MemSink::default();
    let s2 = sink.clone();
    let input = text.to_vec();
    match guard(|| {
        butte_build::compile_fbs_generic(true, gen, Box::new(std::io::Cursor::new(input)), Box::new(s2))
            .map_err(|e| format!("{e:#}"))
    }) {
        Ok(Ok(())) => Out::Code(std::mem::take(&mut *sink.0.lock().unwrap())),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

/// Directory for scratch files of this process, beside the binary.
pub fn scratch() -> std::path::PathBuf {
    let exe = std::env::current_exe().expect("exe");
    let d = exe.parent().unwrap().join("scratch").join(std::process::id().to_string());
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

/// Directory whose only program is `rustfmt`: this binary, acting as stub.
pub fn fmt_dir() -> std::path::PathBuf {
    let d = scratch().join("fmt");
    if !d.join("rustfmt").exists() {
        std::fs::create_dir_all(&d).expect("fmt dir");
        let _ = std::os::unix::fs::symlink(std::env::current_exe().unwrap(), d.join("rustfmt"));
    }
    d
}

/// A search path that finds the system's programs after those of `first`:
/// what is missing there can be replaced by something else, but not by the
/// real formatter.
pub fn search(first: &std::path::Path) -> std::ffi::OsString {
    let mut v = vec![first.to_path_buf()];
    for d in ["/usr/bin", "/bin"] {
        let d = std::path::PathBuf::from(d);
        if !d.join("rustfmt").exists() {
            v.push(d);
        }
    }
    std::env::join_paths(v).expect("path")
}

pub fn clean_scratch() {
    let exe = std::env::current_exe().expect("exe");
    let d = exe.parent().unwrap().join("scratch").join(std::process::id().to_string());
    let _ = std::fs::remove_dir_all(d);
}

/// Text that is not a schema.
pub const NOT_A_SCHEMA: [&str; 8] = [
    "table A { x:int; ",
    "table A { x: Missing; }",
    "table A { x:int; } garbage",
    "enum E : float { A }",
    "}",
    "table table table",
    "namespace ;",
    "struct S { x:int; }",
];

/// A drawn schema with one thing wrong that no reader of it could overlook.
pub fn broken(src: &mut Src, s: &Schema, t: &Text) -> Vec<u8> {
    if t.decls.is_empty() || src.chance(1, 6) {
        return src.pick::<&str>(&NOT_A_SCHEMA).as_bytes().to_vec();
    }
    let mut text = t.s.clone();
    let at = src.idx(t.decls.len());
    let (a, b) = t.decls[at];
    if src.chance(1, 6) {
        // the rest is lost
        let mut i = a + 1 + src.idx(b - a - 1);
        while !text.is_char_boundary(i) {
            i += 1;
        }
        if i < b {
            text.truncate(i);
            return text.into_bytes();
        }
    }
    if src.chance(1, 6) {
        // a declaration that is there twice
        let again: Vec<(usize, usize)> =
            t.decls.iter().copied().filter(|d| ["table", "enum", "union"].iter().any(|k| text[d.0..].starts_with(k))).collect();
        if !again.is_empty() {
            let (a, b) = *src.pick(&again);
            let copy = format!("\n{}\n", &t.s[a..b]);
            text.insert_str(b, &copy);
            return text.into_bytes();
        }
    }
    let _ = s;
    let wrong = *src.pick(&[
        "table Zqx { x: ZqMissing; }",
        "table Zqx { x: [ZqMissing]; }",
        "table Zqx { x: zq.nowhere.Missing; }",
        "rpc_service Zqx { M(ZqMissing): ZqMissing; }",
        "table Zqy {} rpc_service Zqx { M(Zqy): ZqMissing (streaming: \"server\"); }",
        "table Zqy {} rpc_service Zqx { M(Zqy): Zqy (streaming: \"sideways\"); }",
        "root_type ZqMissing;",
        "union Zqx { ZqMissing }",
        "enum Zqx : float { A }",
        "enum Zqx : string { A }",
        "table Zqx { x: int = true; }",
        "table Zqx { x: bool = 3; }",
        "table Zqx { x: int = 1.5; }",
        "table Zqx { x: string = 3; }",
        "table Zqx {} table Zqx { x: int; }",
        "enum Zqx : int { A } root_type Zqx;",
        "table Zqx { x: int }",
        "table { x: int; }",
        "enum Zqx : int { }",
        "rpc_service Zqx { }",
        "namespace ;",
        "}",
    ]);
    text.insert_str(b, &format!("\n{wrong}\n"));
    text.into_bytes()
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let d = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let win = |v: &[u8]| String::from_utf8_lossy(&v[d.saturating_sub(40).min(v.len())..(d + 60).min(v.len())]).into_owned();
    format!("lengths {} and {}, differ from byte {d}: {:?} / {:?}", a.len(), b.len(), win(a), win(b))
}
