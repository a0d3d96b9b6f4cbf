//! The dictionary of the generators: the integer literals of the code under test.  They only
//! bias the inputs (as a fuzzer's dictionary does); no verdict depends on them.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<PathBuf> = match std::fs::read_dir(d) {
        Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    es.sort();
    println!("cargo:rerun-if-changed={}", d.display());
    for p in es {
        if p.is_dir() { files(&p, out) } else if p.extension().map_or(false, |e| e == "rs") { out.push(p) }
    }
}
/// The value of the number token at the start of `s` and its length.
fn number(s: &str) -> (Option<u128>, usize) {
    let n = s.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(s.len());
    let t = s[..n].replace('_', "");
    let (radix, body) = match t.get(..2) { Some("0x") => (16, &t[2..]), Some("0b") => (2, &t[2..]), Some("0o") => (8, &t[2..]), _ => (10, &t[..]) };
    let mut body = body;
    for suffix in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
        if let Some(b) = body.strip_suffix(suffix) { body = b; break; }
    }
    (u128::from_str_radix(body, radix).ok(), n)
}
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../Cargo.toml");
    let manifest = std::fs::read_to_string("../Cargo.toml").unwrap_or_default();
    let root = manifest.lines().find(|l| l.starts_with("hacspec = ")).and_then(|l| l.split('"').nth(1)).map(|p| Path::new(p).parent().unwrap().to_path_buf()).unwrap_or_default();
    let mut fs = vec![];
    for krate in ["hacspec", "hacspec-dev", "secret-integers", "abstract-integers", "spec-examples"] { files(&root.join(krate).join("src"), &mut fs) }
    // value -> number of places it appears in; tables of constants are left out
    let mut seen: BTreeMap<u128, u32> = BTreeMap::new();
    for f in fs {
        println!("cargo:rerun-if-changed={}", f.display());
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        for line in text.lines() {
            let line = line.split("//").next().unwrap();
            let b = line.as_bytes();
            let (mut i, mut found) = (0, vec![]);
            let mut shift: Option<u128> = None;
            while i < b.len() {
                if !b[i].is_ascii() { i += 1; continue; }
                if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                    let (v, n) = number(&line[i..]);
                    if let Some(v) = v {
                        found.push(v);
                        if let (Some(a), true) = (shift, v < 128) { found.push(a << v) }
                        let rest = line[i + n..].trim_start_matches(|c: char| c == ' ' || c == ')');
                        shift = if rest.starts_with("<<") { Some(v) } else { None };
                    }
                    i += n;
                } else {
                    i += 1;
                }
            }
            let table = line.trim_end().ends_with(',') && !line.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).any(|w| w.starts_with(|c: char| c.is_alphabetic() || c == '_') && !["U8", "U16", "U32", "U64", "U128"].contains(&w));
            if found.len() <= 4 && !table { for v in found { *seen.entry(v).or_default() += 1 } }
        }
    }
    let keep: BTreeSet<u128> = seen.into_iter().filter(|(v, _)| *v > 2).map(|(v, _)| v).collect();
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("dict.rs");
    std::fs::write(out, format!("pub static DICT: &[u128] = &{:?};\n", keep.into_iter().collect::<Vec<_>>())).unwrap();
}
