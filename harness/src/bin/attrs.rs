//! C32 (annotation attributes leave the annotated function unchanged).
//! The attribute macros are executed by the compiler on generated crates and on the library itself;
//! the notes they emit, what they expand to and what the annotated functions compute are judged
//! against the same source without annotations.
#[path = "../ops.rs"]
mod ops;
use hv::gen::Rng;
use hv::mon::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// (attribute, title of its note, documentation line)
const KINDS: [(&str, &str, &str); 5] = [
    ("primitive", "Primitive function", "_**Primitive function**, part of the formalization of the language._"),
    ("to_remove", "Function to be removed", "_Function that should be **removed** from the library._"),
    ("external", "External function", "_Function that is not part of the language but is offered as a **helper** for tests, etc._"),
    ("library", "Library function", "_**Library** function that is part of the language but implemented only with primitives and other library functions. As such, it does not need to be formalized as a primitive._"),
    ("internal", "Internal function", "_**Internal** function used in primitive implementations but that is not part of the language._"),
];
/// What the build of the annotated library reported and produced.
struct Built {
    dirs: Vec<String>,
    lib: BTreeMap<String, String>,
    exe: String,
    edition: String,
    src: String,
    notes: Vec<String>,
    errors: Vec<String>,
}
fn built() -> Built {
    let mut b = Built { dirs: vec![], lib: BTreeMap::new(), exe: String::new(), edition: String::new(), src: String::new(), notes: vec![], errors: vec![] };
    let t = std::fs::read_to_string(std::env::var("HV_ATTRS").unwrap_or_default()).unwrap_or_default();
    for l in t.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        let name = v["target"]["name"].as_str().unwrap_or("").to_string();
        match v["reason"].as_str() {
            Some("compiler-artifact") => {
                for f in v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                    let d = Path::new(f).parent().unwrap().to_str().unwrap().to_string();
                    if !b.dirs.contains(&d) { b.dirs.push(d); }
                    if f.ends_with(".so") || f.ends_with(".rmeta") || (f.ends_with(".rlib") && !b.lib.contains_key(&name)) { b.lib.insert(name.clone(), f.to_string()); }
                }
                if let Some(e) = v["executable"].as_str() { b.exe = e.to_string(); }
                if name == "hacspec" {
                    b.edition = v["target"]["edition"].as_str().unwrap_or("").to_string();
                    b.src = v["target"]["src_path"].as_str().unwrap_or("").to_string();
                }
            }
            Some("compiler-message") if name == "hacspec" || name == "hacspec_attributes" => {
                if v["message"]["level"] == "error" { b.errors.push(v["message"]["message"].as_str().unwrap_or("").to_string()) }
                if v["message"]["level"] == "note" { b.notes.push(v["message"]["message"].as_str().unwrap_or("").to_string()) }
            }
            _ => {}
        }
    }
    if b.errors.is_empty() && (b.exe.is_empty() || !b.lib.contains_key("hacspec_attributes") || b.src.is_empty()) { std::process::exit(3); }
    b
}
/// A note without its colours: (title, argument, function, file, line).
fn note(m: &str) -> Option<(String, String, String, String, u64)> {
    let mut p = String::new();
    let mut it = m.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' { for c in it.by_ref() { if c == 'm' { break; } } } else { p.push(c); }
    }
    let (title, r) = p.split_once(" (")?;
    let (arg, r) = r.split_once("): ")?;
    let (name, r) = r.split_once(" in file ")?;
    let (file, line) = r.rsplit_once(", line ")?;
    Some((title.into(), arg.into(), name.into(), file.into(), line.trim().parse().ok()?))
}
/// Runs the compiler; no answer if it cannot be started.
fn rustc(args: &[String], dir: &Path) -> (bool, String, Vec<Value>) {
    let o = Command::new("rustc").args(args).env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu").env_remove("RUSTFLAGS")
        .current_dir(dir).stdin(Stdio::null()).output();
    let Ok(o) = o else { std::process::exit(3) };
    let e = String::from_utf8_lossy(&o.stderr).into_owned();
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), e.lines().filter_map(|l| serde_json::from_str(l).ok()).collect())
}
fn text_of(m: &[Value], level: &str) -> Vec<String> {
    m.iter().filter(|v| v["level"] == level).filter_map(|v| v["message"].as_str().map(|s| s.to_string())).collect()
}
/// An expansion without the documentation lines of the attributes, and how often each occurred.
/// The functions documented by an attribute are added to `fns`.
fn undoc(t: &str, fns: &mut BTreeSet<(usize, String)>) -> (String, [usize; 5]) {
    let mut o = String::new();
    let mut n = [0; 5];
    let mut rest = t;
    while let Some(i) = rest.find("#[doc") {
        let (a, b) = rest.split_at(i);
        o.push_str(a);
        let hit = b.strip_prefix("#[doc").map(|x| x.trim_start()).and_then(|x| x.strip_prefix('=')).map(|x| x.trim_start()).and_then(|x| x.strip_prefix('"'))
            .and_then(|x| KINDS.iter().enumerate().find_map(|(k, (_, _, d))| x.strip_prefix(d).and_then(|y| y.strip_prefix("\\n\"]")).map(|y| (k, y))));
        match hit {
            Some((k, y)) => {
                n[k] += 1;
                rest = y;
                let f = y.lines().map(|l| l.trim()).find(|l| !["#", "//", "/*", "*"].iter().any(|p| l.starts_with(p)) && l.contains("fn "));
                if let Some(f) = f.and_then(|f| f.split("fn ").nth(1)) { fns.insert((k, f.chars().take_while(|c| c.is_alphanumeric() || "_#".contains(*c)).collect())); }
            }
            None => { o.push_str("#[doc"); rest = &b[5..]; }
        }
    }
    o.push_str(rest);
    (o, n)
}
/// A program text without comments and documentation, and the lines of documentation in their order,
/// however they are written (`/// x`, `/** x */`, `#[doc = " x"]`).
fn code_and_docs(t: &str) -> (String, Vec<String>) {
    let c: Vec<char> = t.chars().collect();
    let (mut code, mut docs) = (String::new(), vec![]);
    let at = |i: usize, p: &str| p.chars().enumerate().all(|(k, x)| c.get(i + k) == Some(&x));
    // end of the literal that starts with a quote at i
    let quoted = |i: usize| { let mut j = i + 1; while j < c.len() && c[j] != '"' { j += if c[j] == '\\' { 2 } else { 1 }; } j + 1 };
    let mut i = 0;
    while i < c.len() {
        // where the text of a documentation attribute starts
        let skip = |j: usize| (j..c.len()).find(|j| !c[*j].is_whitespace()).unwrap_or(c.len());
        let doc = ["#[doc", "#![doc"].iter().find(|p| at(i, p)).map(|p| skip(i + p.len())).filter(|j| at(*j, "=")).map(|j| skip(j + 1)).filter(|j| at(*j, "\""));
        if let Some(q) = doc {
            let j = quoted(q).min(c.len());
            let raw: String = c[q + 1..j.max(q + 2) - 1].iter().collect();
            let mut text = String::new();
            let mut it = raw.chars();
            while let Some(x) = it.next() {
                if x == '\\' { match it.next() { Some('n') => text.push('\n'), Some('t') => text.push('\t'), Some(x) => text.push(x), None => {} } } else { text.push(x); }
            }
            docs.push(squeeze(&text));
            i = skip(j) + 1;
        } else if at(i, "//") {
            let j = (i..c.len()).find(|j| c[*j] == '\n').unwrap_or(c.len());
            if (at(i, "///") && !at(i, "////")) || at(i, "//!") { docs.push(squeeze(&c[i + 3..j].iter().collect::<String>())); }
            i = j;
        } else if at(i, "/*") {
            let j = (i + 2..c.len()).find(|j| at(*j, "*/")).unwrap_or(c.len());
            if (at(i, "/**") && !at(i, "/***") && !at(i, "/**/")) || at(i, "/*!") { docs.push(squeeze(&c[i + 3..j].iter().collect::<String>())); }
            i = j + 2;
        } else if c[i] == '"' {
            let j = quoted(i).min(c.len());
            code.extend(&c[i..j]);
            i = j;
        } else if c[i] == '\'' && (at(i + 2, "'") || at(i + 1, "\\")) {
            let j = (i + 2..c.len()).find(|j| c[*j] == '\'' && *j > i + 1 && !(c[*j - 1] == '\\' && c[*j - 2] != '\\')).map_or(c.len(), |j| j + 1);
            code.extend(&c[i..j]);
            i = j;
        } else {
            code.push(c[i]);
            i += 1;
        }
    }
    (squeeze(&code), docs)
}
/// Judges that two expansions are the same program with the same documentation.
fn same_program(on: &str, off: &str) -> Result<(), String> {
    let ((x, p), (y, q)) = (code_and_docs(on), code_and_docs(off));
    ensure(x == y, || format!("expands differently: {}", first_difference(&x, &y)))?;
    for (a, b) in p.iter().zip(&q) { eq("documentation", a, b)?; }
    eq("documentation lines besides those of the attributes", &p.len(), &q.len())
}
fn squeeze(t: &str) -> String {
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// Without annotations that are still there.
fn unmark(t: &str) -> String {
    let mut t = t.to_string();
    for k in KINDS {
        let m = format!("#[{}(", k.0);
        while let Some(i) = t.find(&m) {
            let Some(j) = t[i..].find(")]") else { break };
            t.replace_range(i..i + j + 2, "");
        }
    }
    t
}
fn first_difference(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let cut = |v: &[char]| v[i.saturating_sub(80).min(v.len())..(i + 120).min(v.len())].iter().collect::<String>();
    format!("annotated `{}`, plain `{}`", cut(&x), cut(&y))
}

// ------------------------------------------------------------------ generated crates
#[derive(Clone, Debug)]
struct Want {
    kind: usize,
    arg: String,
    name: String,
    line: u64,
}
/// Source with annotations (collected in `want`) or, with `on` false, without; line for line the same.
struct Gen {
    on: String,
    off: String,
    line: u64,
    want: Vec<Want>,
    main: Vec<String>,
    forms: Vec<&'static str>,
}
impl Gen {
    fn put(&mut self, s: &str) {
        for l in s.split('\n') {
            self.on.push_str(l);
            self.on.push('\n');
            self.off.push_str(l);
            self.off.push('\n');
            self.line += 1;
        }
    }
    /// Attributes and the first line of a function; the annotations sit between other attributes.
    fn head(&mut self, r: &mut Rng, form: &'static str, ind: &str, name: &str, sig: &str) {
        self.forms.push(form);
        let others = ["#[inline]", "#[inline(always)]", "#[allow(unused_variables)]", "/// A doc comment with `code`, \"quotes\" and \\ backslashes.", "#[must_use]", "#[doc = \"another\"]", "#[cfg(not(absent))]", "#[cold]", "/** block\n * comment */", "#[cfg_attr(absent, inline)]"];
        let mut l: Vec<Option<(usize, String)>> = vec![];
        for _ in 0..1 + (r.below(6) == 0) as usize { l.push(Some((r.below(5), r.pick(&["hacspec", "spec", "hacspec_unsafe", "r#type", "x1"]).to_string()))); }
        let mut lines: Vec<String> = vec![];
        let k = r.below(4);
        let mut used = vec![];
        for _ in 0..k {
            let o = *r.pick(&others);
            if used.contains(&o) || (o.contains("inline") && used.iter().any(|x: &&str| x.contains("inline"))) || (o == "#[must_use]" && sig.contains("()")) { continue; }
            used.push(o);
            lines.push(o.to_string());
        }
        let mut at: Vec<usize> = l.iter().map(|_| r.below(lines.len() + 1)).collect();
        at.sort();
        let mut marks = vec![];
        for (i, a) in l.into_iter().zip(&at).rev() { lines.insert(*a, String::new()); marks.push((*a, i)); }
        // `lines` now has an empty entry for each annotation, in order
        let mut m: Vec<(usize, String)> = marks.into_iter().rev().filter_map(|x| x.1).collect();
        let mut here = vec![];
        for x in lines {
            if x.is_empty() {
                let (k, a) = m.remove(0);
                let more = *r.pick(&["", "", ", extra", " = 3"]);
                self.on.push_str(&format!("{}#[{}({}{})]\n", ind, KINDS[k].0, a, more));
                self.off.push('\n');
                self.line += 1;
                here.push((k, a));
            } else {
                for y in x.split('\n') { self.put(&format!("{}{}", ind, y)); }
            }
        }
        for (k, a) in here { self.want.push(Want { kind: k, arg: a, name: name.into(), line: self.line }); }
        self.put(&format!("{}{}", ind, sig));
    }
}
fn expr(r: &mut Rng, vars: &[&str], d: usize) -> String {
    if d == 0 || r.chance(1, 4) {
        return if r.chance(2, 3) && !vars.is_empty() { r.pick(vars).to_string() } else { format!("{}u32", r.below(1000)) };
    }
    let (a, b) = (expr(r, vars, d - 1), expr(r, vars, d - 1));
    match r.below(9) {
        0 => format!("(({}).wrapping_add({}))", a, b),
        1 => format!("(({}).wrapping_mul({}))", a, b),
        2 => format!("({} ^ {})", a, b),
        3 => format!("(if {} < {} {{ {} }} else {{ {} }})", a, b, b, a),
        4 => format!("(({}).rotate_left(({}) % 32))", a, b),
        5 => format!("({{ let t = {}; let f = |x: u32| x.wrapping_sub(t); f({}) }})", a, b),
        6 => format!("(match {} {{ 0..=9 => {}, n if n % 2 == 0 => n, _ => {} }})", a, b, a),
        7 => format!("([{}, {}].iter().fold(7u32, |p, q| p.wrapping_mul(31).wrapping_add(*q)))", a, b),
        _ => format!("(\"a{{}} \\\"b\\\" /* c */ \\\\\".len() as u32 | ({} & !({})))", a, b),
    }
}
fn generate(r: &mut Rng, n: usize) -> Gen {
    let mut g = Gen { on: String::new(), off: String::new(), line: 1, want: vec![], main: vec![], forms: vec![] };
    g.put("#![allow(warnings)]");
    g.on.push_str("extern crate hacspec_attributes; use hacspec_attributes::*;\n");
    g.off.push('\n');
    g.line += 1;
    g.put("pub trait Tr { fn tr(&self, b: u32) -> u32; fn dflt(self) -> u32 where Self: Sized; }\n#[derive(Clone, Copy)] pub struct St(u32, u32);\npub struct Ge<T>(T);");
    for i in 0..n {
        let f = format!("f{}", i);
        let (x, y) = (r.u64() as u32, r.u64() as u32);
        let e = expr(r, &["a", "b"], 3);
        let call = format!("{}({}, {})", f, x, y);
        match r.below(23) {
            0 => { g.head(r, "plain", "", &f, &format!("pub fn {}(a: u32, b: u32) -> u32 {{", f)); g.put(&format!("    {}\n}}", e)); g.main.push(call); }
            1 => { g.head(r, "private", "", &f, &format!("fn {}(mut a: u32, b: u32) -> u32 {{ a ^= b; return {}; }}", f, e)); g.main.push(call); }
            2 => { g.head(r, "const", "", &f, &format!("pub(crate) const fn {}(a: u32, b: u32) -> u32 {{ a.wrapping_mul(b) ^ {} }}", f, x)); g.main.push(call); }
            3 => { g.head(r, "unsafe", "", &f, &format!("pub unsafe fn {}(a: u32, b: u32) -> u32 {{ {} }}", f, e)); g.main.push(format!("unsafe {{ {} }}", call)); }
            4 => { g.head(r, "extern", "", &f, &format!("pub extern \"C\" fn {}(a: u32, b: u32) -> u32 {{ {} }}", f, e)); g.main.push(call); }
            5 => { g.head(r, "generic", "", &f, &format!("pub fn {}<'x, T: Into<u64> + Copy, const N: usize>(v: &'x [T; N]) -> u64 where T: std::fmt::Debug {{", f)); g.put("    let mut s = 0u64;\n    'o: for k in v.iter() { if s > 1 << 40 { break 'o; } s += (*k).into(); }\n    s\n}"); g.main.push(format!("{}(&[{}u32, {}u32])", f, x, y)); }
            6 => { g.head(r, "patterns", "", &f, &format!("pub fn {}((a, b): (u32, u32), &[p, ref q]: &[u8; 2], _: ()) -> u32 {{", f)); g.put(&format!("    {} ^ p as u32 ^ *q as u32\n}}", e)); g.main.push(format!("{}(({}, {}), &[1, 9], ())", f, x, y)); }
            7 => { g.head(r, "impl trait", "", &f, &format!("pub fn {}(v: impl Iterator<Item = u32>, h: &dyn Fn(u32) -> u32) -> impl std::fmt::Debug {{", f)); g.put("    v.map(|x| h(x)).collect::<Vec<_>>()\n}"); g.main.push(format!("{}(vec![{}, {}].into_iter(), &|x| x ^ 5)", f, x, y)); }
            8 => { g.put("impl St {"); g.head(r, "method", "    ", &f, &format!("    pub fn {}(&self, b: u32) -> u32 {{ let a = self.0; {} }}", f, e)); g.put("}"); g.main.push(format!("St({}, 3).{}({})", x, f, y)); }
            9 => { g.put("impl St {"); g.head(r, "method taking self", "    ", &f, &format!("    fn {}(mut self, a: u32) -> Self {{ let b = self.1; self.0 = {}; self }}", f, e)); g.put("}"); g.main.push(format!("St({}, 3).{}({}).0", x, f, y)); }
            10 => { g.put("impl<T: Copy + Into<u64>> Ge<T> {"); g.head(r, "method changing self", "    ", &f, &format!("    pub(crate) fn {}(&mut self, t: T) -> u64 {{ let o = self.0; self.0 = t; o.into() + 1 }}", f)); g.put("}"); g.main.push(format!("{{ let mut g = Ge({}u32); (g.{}({}), g.0) }}", x, f, y)); }
            11 => { let t = format!("T{}", i); g.put(&format!("pub struct {}(u32);\nimpl Tr for {} {{", t, t)); g.head(r, "trait method", "    ", "tr", "    fn tr(&self, b: u32) -> u32 {"); g.put(&format!("        let a = self.0; {}\n    }}", e)); g.head(r, "trait method", "    ", "dflt", "    fn dflt(self) -> u32 { self.0 + 1 }"); g.put("}"); g.main.push(format!("({}({}).tr({}), {}(4).dflt())", t, x, y, t)); }
            12 => { g.put(&format!("macro_rules! m{} {{ ($name:ident, $t:ty, $e:expr) => {{", i)); g.head(r, "from a macro", "    ", &f, "    pub fn $name(a: $t, b: $t) -> $t { a ^ b ^ $e }"); g.put(&format!("}} }}\nm{}!({}, u32, {}u32);", i, f, x)); g.main.push(call); }
            13 => { g.put(&format!("pub mod o{} {{ use super::*; ", i)); g.head(r, "in a module", "    ", &f, &format!("    pub fn {}(a: u32, b: u32) -> u32 {{ {} }}", f, e)); g.put("}"); g.main.push(format!("o{}::{}", i, call)); }
            14 => { g.head(r, "nested", "", &f, &format!("pub fn {}(a: u32, b: u32) -> u32 {{", f)); let h = format!("h{}", i); g.head(r, "nested", "    ", &h, &format!("    fn {}(a: u32, b: u32) -> u32 {{ {} }}", h, e)); g.put(&format!("    {}(b, a)\n}}", h)); g.main.push(call); }
            15 => { let w = format!("r#f{}", i); g.head(r, "raw name", "", &f, &format!("pub fn {}(r#type: u32, b: u32) -> u32 {{ let a = r#type; {} }}", f, e)); let _ = w; g.main.push(call); }
            16 => { g.head(r, "async", "", &f, &format!("pub async fn {}(a: u32, b: u32) -> u32 {{ {} }}", f, e)); g.main.push(format!("std::mem::size_of_val(&{}) > 0", call)); }
            17 => { g.head(r, "nothing returned", "", &f, &format!("pub fn {}() {{ static K: u8 = b'\\n'; let _ = K; }}", f)); g.main.push(format!("{}()", f)); }
            21 => { g.head(r, "inner attributes", "", &f, &format!("pub fn {}(a: u32, b: u32) -> u32 {{", f)); g.put(&format!("    #![allow(unused_parens)]\n    #![doc = \"inner\"]\n    //! an inner comment\n    {}\n}}", e)); g.main.push(call); }
            22 => { g.put(&format!("pub mod o{} {{ pub mod i {{ use super::super::*;", i)); g.head(r, "restricted", "    ", &f, &format!("    pub(in super::super) fn {}(a: u32, b: u32) -> u32 {{ {} }}", f, e)); g.put("} }"); g.main.push(format!("o{}::i::{}", i, call)); }
            20 => { g.head(r, "signature over several lines", "", &f, &format!("pub fn {}", f)); g.put(&format!("(\n    a: u32,\n    b: u32,\n) -> u32\nwhere\n    u32: Copy,\n{{\n    {}\n}}", e)); g.main.push(call); }
            18 => { g.head(r, "recursive", "", &f, &format!("pub fn {}(a: u32, b: u32) -> u32 {{", f)); g.put(&format!("    // a comment\n    if a < 2 {{ return b; }}\n    {}(a / 2, b.wrapping_mul(3)) /* tail */\n}}", f)); g.main.push(call); }
            _ => { g.head(r, "panicking", "", &f, &format!("pub fn {}(a: u32, b: u32) -> Result<u32, String> {{ assert!(a != b || true, \"{{}} {{}}\", a, b); if b % 2 == 0 {{ Err(format!(\"{{:?}}\", a))? }} Ok({}) }}", f, e)); g.main.push(call); }
        }
    }
    g.put("fn main() {");
    for m in g.main.clone() { g.put(&format!("    println!(\"{{:?}}\", {});", m)); }
    g.put("}");
    g
}
fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("hv-attrs-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn av(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}
fn c32(cx: &mut Ctx) {
    let b = built();
    let deep = cx.thorough;
    cx.cases("build", 1, |c| {
        c.input("the library with use_attributes".to_string());
        ensure(b.errors.is_empty(), || format!("does not compile with its annotations enabled: {:?}", b.errors))
    });
    if !b.errors.is_empty() { return; }
    let dir = scratch();
    let so = format!("hacspec_attributes={}", b.lib["hacspec_attributes"]);
    let n = cx.n(32, 600);
    cx.cases("generated functions", n, |c| {
        let k = 5 + c.rng.below(30);
        let g = generate(&mut c.rng, k);
        c.input(clip(g.on.clone(), 4000));
        std::fs::write(dir.join("on.rs"), &g.on).unwrap();
        std::fs::write(dir.join("off.rs"), &g.off).unwrap();
        let base = av(&["--edition", "2021", "--error-format=json", "--extern", &so]);
        let with = |f: &str, more: &[&str]| rustc(&[&base[..], &av(&[f])[..], &av(more)[..]].concat(), &dir);
        let (ok, off, err) = with("off.rs", &["-Zunpretty=expanded"]);
        if !ok { eprintln!("generator: {:?}\n{}", text_of(&err, "error"), g.off); std::process::exit(3); }
        let (ok, on, err) = with("on.rs", &["-Zunpretty=expanded"]);
        ensure(ok, || format!("does not compile with annotations: {:?}", text_of(&err, "error")))?;
        // one note for each annotation, naming kind, argument, function and place
        let mut got: Vec<_> = text_of(&err, "note").iter().map(|m| note(m).ok_or_else(|| format!("note not understood: {:?}", m))).collect::<Result<_, _>>()?;
        let mut want: Vec<_> = g.want.iter().map(|w| (KINDS[w.kind].1.to_string(), w.arg.clone(), w.name.clone(), "on.rs".to_string(), w.line)).collect();
        // (the compiler reports identical notes once)
        got.sort();
        want.sort();
        want.dedup();
        for (p, q) in got.iter().zip(&want) { tick(); eq("note", p, q)?; }
        eq("number of notes", &got.len(), &want.len())?;
        ensure(text_of(&err, "error").is_empty() && text_of(&err, "warning").is_empty(), || format!("{:?}", err))?;
        // one line of documentation for each, and nothing else
        let (rest, docs) = undoc(&on, &mut BTreeSet::new());
        for (i, k) in KINDS.iter().enumerate() {
            eq(&format!("documentation lines of {}", k.0), &docs[i], &g.want.iter().filter(|w| w.kind == i).count())?;
            if docs[i] > 0 { c.obs("annotation", k.0); }
        }
        // (what a macro definition contains is not expanded where it is defined)
        let rest = unmark(&rest).replace("extern crate hacspec_attributes;", "").replace("use hacspec_attributes::*;", "");
        same_program(&rest, &off)?;
        // and the same results
        let mut outs = vec![];
        for f in ["on.rs", "off.rs"] {
            let (ok, _, err) = with(f, &["-o", "prog", "-Copt-level=0", "-Cdebuginfo=0"]);
            ensure(ok, || format!("{} does not compile: {:?}", f, text_of(&err, "error")))?;
            let o = Command::new(dir.join("prog")).stdin(Stdio::null()).output().unwrap();
            ensure(o.status.success(), || format!("{}: {:?}", f, o.status))?;
            outs.push(String::from_utf8_lossy(&o.stdout).into_owned());
        }
        for (p, q) in outs[0].lines().zip(outs[1].lines()) { tick(); eq("result", &p, &q)?; }
        eq("results", &outs[0].lines().count(), &g.main.len())?;
        c.inner(outs[0].lines().count() as u64 + got.len() as u64);
        for f in g.forms { c.obs("form", f); }
        Ok(())
    });
    // annotations that are refused
    let bad: Vec<(&str, String)> = KINDS.iter().flat_map(|k| {
        let a = k.0;
        vec![
            ("no argument", format!("#[{}] pub fn f() {{}}", a)),
            ("no argument", format!("#[{}()] pub fn f() {{}}", a)),
            ("a literal", format!("#[{}(\"hacspec\")] pub fn f() {{}}", a)),
            ("a literal", format!("#[{}(5)] pub fn f() {{}}", a)),
            ("a group", format!("#[{}((hacspec))] pub fn f() {{}}", a)),
            ("not a function", format!("#[{}(hacspec)] pub struct S(u32);", a)),
            ("not a function", format!("#[{}(hacspec)] pub const K: u32 = 3;", a)),
            ("not a function", format!("#[{}(hacspec)] pub mod m {{ pub fn f() {{}} }}", a)),
            ("not a function", format!("pub trait T {{ #[{}(hacspec)] fn f(); }}", a)),
        ]
    }).collect();
    cx.cases("refused annotations", bad.len() as u64, |c| {
        let (what, t) = &bad[c.idx as usize];
        c.input(t.clone());
        c.obs("refused", what);
        std::fs::write(dir.join("bad.rs"), format!("extern crate hacspec_attributes; use hacspec_attributes::*;\n{}\n", t)).unwrap();
        let (ok, _, err) = rustc(&av(&["--edition", "2021", "--crate-type=lib", "--error-format=json", "--extern", &so, "bad.rs", "-Zunpretty=expanded"]), &dir);
        ensure(!ok && !text_of(&err, "error").is_empty(), || format!("{}: not refused", what))
    });
    // the library itself
    cx.cases("the library's expansion", 1, |c| {
        c.input(b.src.clone());
        let mut a = av(&["--edition", &b.edition, "--crate-type=lib", "--crate-name=hacspec", "--error-format=json", "-Awarnings", "-Zunpretty=expanded", &b.src]);
        for d in &b.dirs { a.push("-L".into()); a.push(format!("dependency={}", d)); }
        for (k, f) in &b.lib { if !["hacspec", "hv", "ub", "hacspec_examples", "hvo"].contains(&k.as_str()) && !k.contains("build") { a.push("--extern".into()); a.push(format!("{}={}", k.replace('-', "_"), f)); } }
        let (ok, off, err) = rustc(&a, &dir);
        if !ok { eprintln!("library: {:?}", text_of(&err, "error")); std::process::exit(3); }
        a.extend(av(&["--cfg", "feature=\"use_attributes\""]));
        let (ok, on, err) = rustc(&a, &dir);
        ensure(ok, || format!("the annotated library does not compile: {:?}", text_of(&err, "error")))?;
        let mut fns = BTreeSet::new();
        let (rest, docs) = undoc(&on, &mut fns);
        // (imports differ: the names of the attributes are imported only where they are used)
        let cut = |t: &str| {
            let mut import = false;
            let keep: Vec<&str> = t.lines().filter(|l| {
                let l = l.trim_start();
                import |= ["use ", "pub use ", "extern crate "].iter().any(|u| l.starts_with(u));
                let k = !import && !["#[allow(unused_imports)]", "#[macro_use]", "#[cfg(feature = \"use_attributes\")]"].contains(&l.trim_end());
                if l.contains(';') { import = false; }
                k
            }).collect();
            keep.join("\n").replace("#[cfg(feature = \"use_attributes\")]", "")
        };
        same_program(&cut(&rest), &cut(&off))?;
        let mut per = [0; 5];
        let mut noted = BTreeSet::new();
        for m in text_of(&err, "note") {
            let (title, _, name, file, line) = note(&m).ok_or_else(|| format!("note not understood: {:?}", m))?;
            let k = KINDS.iter().position(|k| k.1 == title).ok_or_else(|| format!("kind of note: {:?}", m))?;
            per[k] += 1;
            noted.insert((k, name.clone()));
            let src = std::fs::read_to_string(dir.join(&file)).map_err(|e| format!("note about {}: {}", file, e))?;
            let l = src.lines().nth(line as usize - 1).unwrap_or("");
            ensure(l.contains(&format!("fn {}", name)) || l.contains("fn $"), || format!("note places {} at {}:{}, where there is {:?}", name, file, line, l))?;
            c.obs("annotated file", Path::new(&file).file_name().unwrap().to_string_lossy());
            c.inner(1);
            tick();
        }
        // a macro may expand to the same annotated function many times; the note about it is shown once
        let odd: Vec<_> = fns.symmetric_difference(&noted).collect();
        ensure(odd.is_empty(), || format!("functions with a documentation line or a note but not both: {:?}", odd))?;
        ensure(docs.iter().zip(&per).all(|(d, n)| d >= n), || format!("documentation lines {:?}, notes {:?}", docs, per))?;
        c.inner(fns.len() as u64);
        c.obs("library notes", per.iter().sum::<usize>().min(100));
        ensure(!b.notes.is_empty(), || "the build emitted no notes".into())
    });
    // what the annotated library computes
    let n = if deep { 40 } else { 16 };
    cx.cases("results of the annotated library", n, |c| {
        let l: Vec<(usize, u64)> = (0..ops::OPS.len() + ops::FINE.len()).filter(|o| ops::op(*o).cost < 2 || c.idx == 0).map(|o| (o, c.rng.u64() % 1_000_000)).collect();
        c.input(format!("{} operations with annotations enabled", l.len()));
        let spec = l.iter().map(|(o, s)| format!("{}:{}", o, s)).collect::<Vec<_>>().join(",");
        let o = Command::new(&b.exe).args(["work", "ops", &spec, "100"]).env_remove("HV_OUT").stdin(Stdio::null()).output().unwrap();
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let got: Vec<(usize, u64, String)> = out.lines().filter_map(|l| l.strip_prefix("R ")).filter_map(|l| { let mut p = l.splitn(3, ' '); Some((p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.next().unwrap_or("").to_string())) }).collect();
        eq("operations completed", &got.len(), &l.len())?;
        for (o, s, x) in got {
            tick();
            let here = match ops::run(o, s, 100) { Ok(x) => x, Err(e) => format!("ERROR {}", e) }.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r");
            c.obs("operation", ops::op(o).name);
            c.inner(here.matches(ops::SEP).count() as u64 + 1);
            ensure(here == x, || format!("{} (input seed {}): {} without annotations, {} with", ops::op(o).name, s, clip(here.clone(), 200), clip(x.clone(), 200)))?;
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
}
fn selftest() {
    // the oracle sees what an attribute must not do
    let (a, n) = undoc("a #[doc =\n \"_Function that should be **removed** from the library._\\n\"] fn f() {} #[doc = \"other\"]", &mut BTreeSet::new());
    assert_eq!((squeeze(&a).as_str(), n[1]), ("a fn f() {} #[doc = \"other\"]", 1));
    assert_eq!(note("\u{1b}[34mLibrary function\u{1b}[0m (hacspec): \u{1b}[32mf\u{1b}[0m in file \u{1b}[33ma.rs\u{1b}[0m, line \u{1b}[33m97\u{1b}[0m"), Some(("Library function".into(), "hacspec".into(), "f".into(), "a.rs".into(), 97)));
    assert_eq!(code_and_docs("a // x\n/// b \"q\"\n'\\'' \"// no\" '\"' /** c\n * d */ &'a T #[doc = \" e\\\"\\n\"] z"), ("a '\\'' \"// no\" '\"' &'a T z".to_string(), vec!["b \"q\"".to_string(), "c * d".to_string(), "e\"".to_string()]));
    assert!(same_program("/// x\nfn f() {}", "#[doc = \" x\"]\nfn f() {}").is_ok());
    assert!(same_program("fn f() {}", "/// x\nfn f() {}").is_err());
    assert!(same_program("fn f() { 1 }", "fn f() { 2 }").is_err());
    let mut r = Rng::new(7);
    let g = generate(&mut r, 60);
    assert_eq!(g.on.lines().count(), g.off.lines().count());
    assert!(g.want.len() >= 60);
}
fn main() {
    quiet_panics();
    main_check(&[Check { id: "C32", shards: 8, run: c32, selftest, scale: (1, 1),
        require: &[("annotation", 5), ("form", 23), ("refused", 4), ("annotated file", 4), ("operation", 70)],
        rule: "one evaluation = one note, one result or one expansion of an annotated function compared with what the source says and with the same source without annotations; distinct = distinct generated crates, notes and records" }]);
}
