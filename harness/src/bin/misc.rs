//! C28 (test-vector loading) and C30 (purity).
#[path = "../ops.rs"]
mod ops;
use hacspec_dev::*;
use hv::gen::{fnv, hex, Rng};
use hv::mon::*;
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::io::AsRawFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

// ===================================================================== C28
create_test_vectors!(Plain, key: String, msg: String, tag: String);
create_test_vectors!(Leaf, tcId: u32, comment: String, ct: String, result: bool);
create_test_vectors!(Group, ivSize: u16, kind: String, tests: Vec<Leaf>, note: Option<String>);
create_test_vectors!(Deep, algorithm: String, numberOfTests: u64, offset: i64, small: i8, byte: u8, header: Vec<String>, sizes: Vec<u32>, grid: Vec<Vec<i16>>, testGroups: Vec<Group>, last: Option<u8>);
create_test_vectors!(One, x: u64);

/// The oracle's copy of a file: a JSON value whose objects keep their fields in order.
#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
use J::*;
/// How a file is laid out (never changes what it contains).
#[derive(Clone, Copy)]
struct Style {
    shuffle: bool,
    escapes: bool,
    space: usize,
}
fn ws(r: &mut Rng, st: Style, o: &mut String) {
    if st.space > 0 && r.chance(1, 2) {
        for _ in 0..r.below(st.space) {
            o.push(*r.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}
fn write_str(r: &mut Rng, st: Style, s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        let u = st.escapes && r.chance(1, 4);
        match c {
            '"' if !u => o.push_str("\\\""),
            '\\' if !u => o.push_str("\\\\"),
            '\n' if !u => o.push_str("\\n"),
            '\t' if !u => o.push_str("\\t"),
            '\r' if !u => o.push_str("\\r"),
            '\u{8}' if !u => o.push_str("\\b"),
            '\u{c}' if !u => o.push_str("\\f"),
            '/' if st.escapes && r.chance(1, 2) => o.push_str("\\/"),
            c if u || (c as u32) < 0x20 => {
                for w in c.encode_utf16(&mut [0; 2]) {
                    if r.chance(1, 2) { o.push_str(&format!("\\u{:04x}", w)) } else { o.push_str(&format!("\\u{:04X}", w)) }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn write_j(r: &mut Rng, st: Style, j: &J, o: &mut String) {
    match j {
        Null => o.push_str("null"),
        B(b) => o.push_str(if *b { "true" } else { "false" }),
        N(n) => o.push_str(&n.to_string()),
        S(s) => write_str(r, st, s, o),
        A(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 { o.push(','); }
                ws(r, st, o);
                write_j(r, st, x, o);
                ws(r, st, o);
            }
            o.push(']');
        }
        O(v) => {
            let mut idx: Vec<usize> = (0..v.len()).collect();
            if st.shuffle {
                for i in (1..idx.len()).rev() { let k = r.below(i + 1); idx.swap(i, k); }
            }
            o.push('{');
            for (n, i) in idx.iter().enumerate() {
                if n > 0 { o.push(','); }
                ws(r, st, o);
                write_str(r, Style { escapes: false, ..st }, v[*i].0, o);
                ws(r, st, o);
                o.push(':');
                ws(r, st, o);
                write_j(r, st, &v[*i].1, o);
                ws(r, st, o);
            }
            o.push('}');
        }
    }
}
fn text(r: &mut Rng, st: Style, j: &J) -> String {
    let mut o = String::new();
    ws(r, st, &mut o);
    write_j(r, st, j, &mut o);
    ws(r, st, &mut o);
    o
}
fn style(r: &mut Rng) -> Style {
    Style { shuffle: r.chance(1, 2), escapes: r.chance(1, 2), space: *r.pick(&[0, 0, 3, 30]) }
}
fn gstr(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => { let n = r.below(80); hex(&r.bytes(n)) }
        2 => { let n = r.below(30); hex(&r.bytes(n)).to_uppercase() }
        3 => (0..r.below(30)).map(|_| *r.pick(&['"', '\\', '/', '\n', '\t', '\r', '\u{0}', '\u{1}', '\u{1f}', '\u{7f}', '\u{8}', '\u{c}', 'a', '{', '[', ',', ':', 'é', '中', '\u{2028}', '😀', '\u{10ffff}', '\u{feff}', '\u{fffd}'])).collect(),
        4 => { let n = r.below(300); "ab01 ".chars().cycle().take(n).collect() }
        _ => format!("{}", r.u64()),
    }
}
fn gint(r: &mut Rng, lo: i128, hi: i128) -> J {
    N(match r.below(5) {
        0 => lo,
        1 => hi,
        2 => (lo + r.below(3) as i128).min(hi),
        3 => (hi - r.below(3) as i128).max(lo),
        _ => lo + (r.u128() % ((hi - lo) as u128 + 1)) as i128,
    })
}
fn gplain(r: &mut Rng) -> J {
    O(vec![("key", S(gstr(r))), ("msg", S(gstr(r))), ("tag", S(gstr(r)))])
}
fn gleaf(r: &mut Rng) -> J {
    O(vec![("tcId", gint(r, 0, u32::MAX as i128)), ("comment", S(gstr(r))), ("ct", S(gstr(r))), ("result", B(r.chance(1, 2)))])
}
fn ggroup(r: &mut Rng, n: usize) -> J {
    let k = r.below(n + 1);
    O(vec![
        ("ivSize", gint(r, 0, u16::MAX as i128)),
        ("kind", S(gstr(r))),
        ("tests", A((0..k).map(|_| gleaf(r)).collect())),
        ("note", if r.chance(1, 3) { Null } else { S(gstr(r)) }),
    ])
}
fn gdeep(r: &mut Rng, n: usize) -> J {
    let (a, b, c, d) = (r.below(n + 1), r.below(n + 1), r.below(5), r.below(n + 1));
    O(vec![
        ("algorithm", S(gstr(r))),
        ("numberOfTests", gint(r, 0, u64::MAX as i128)),
        ("offset", gint(r, i64::MIN as i128, i64::MAX as i128)),
        ("small", gint(r, i8::MIN as i128, i8::MAX as i128)),
        ("byte", gint(r, 0, 255)),
        ("header", A((0..a).map(|_| S(gstr(r))).collect())),
        ("sizes", A((0..b).map(|_| gint(r, 0, u32::MAX as i128)).collect())),
        ("grid", A((0..c).map(|_| { let k = r.below(4); A((0..k).map(|_| gint(r, i16::MIN as i128, i16::MAX as i128)).collect()) }).collect())),
        ("testGroups", A((0..d).map(|_| ggroup(r, n)).collect())),
        ("last", if r.chance(1, 3) { Null } else { gint(r, 0, 255) }),
    ])
}
// What was loaded, in the same form.
fn jp(p: &Plain) -> J {
    O(vec![("key", S(p.key.clone())), ("msg", S(p.msg.clone())), ("tag", S(p.tag.clone()))])
}
fn jl(p: &Leaf) -> J {
    O(vec![("tcId", N(p.tcId as i128)), ("comment", S(p.comment.clone())), ("ct", S(p.ct.clone())), ("result", B(p.result))])
}
fn jg(p: &Group) -> J {
    O(vec![
        ("ivSize", N(p.ivSize as i128)),
        ("kind", S(p.kind.clone())),
        ("tests", A(p.tests.iter().map(jl).collect())),
        ("note", p.note.clone().map(S).unwrap_or(Null)),
    ])
}
fn jd(p: &Deep) -> J {
    O(vec![
        ("algorithm", S(p.algorithm.clone())),
        ("numberOfTests", N(p.numberOfTests as i128)),
        ("offset", N(p.offset as i128)),
        ("small", N(p.small as i128)),
        ("byte", N(p.byte as i128)),
        ("header", A(p.header.iter().cloned().map(S).collect())),
        ("sizes", A(p.sizes.iter().map(|x| N(*x as i128)).collect())),
        ("grid", A(p.grid.iter().map(|x| A(x.iter().map(|y| N(*y as i128)).collect())).collect())),
        ("testGroups", A(p.testGroups.iter().map(jg).collect())),
        ("last", p.last.map(|x| N(x as i128)).unwrap_or(Null)),
    ])
}
/// Scratch directory of this process, removed at the end of the check's run.
struct Scratch {
    dir: PathBuf,
    n: AtomicU64,
}
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let dir = std::env::temp_dir().join(format!("hv-{}-{}", tag, std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        Scratch { dir, n: AtomicU64::new(0) }
    }
    /// A fresh path (the loader wants a `&'static str`).
    fn path(&self) -> &'static str {
        let k = self.n.fetch_add(1, Ordering::Relaxed);
        Box::leak(self.dir.join(format!("v{}.json", k)).to_str().unwrap().to_string().into_boxed_str())
    }
    fn put(&self, b: &[u8]) -> &'static str {
        let p = self.path();
        std::fs::write(p, b).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn same_j(got: &J, want: &J, file: &[u8]) -> Res {
    ensure(got == want, || format!("loaded {} but the file says {} (file {})", clip(format!("{:?}", got), 500), clip(format!("{:?}", want), 500), clip(String::from_utf8_lossy(file).into_owned(), 300)))
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    P,
    PA,
    D,
    DA,
    O1,
    OA,
}
const KINDS: [Kind; 6] = [Kind::P, Kind::PA, Kind::D, Kind::DA, Kind::O1, Kind::OA];
fn load(k: Kind, p: &'static str) -> J {
    match k {
        Kind::P => jp(&Plain::new(p)),
        Kind::PA => A(Plain::new_array(p).iter().map(jp).collect()),
        Kind::D => jd(&Deep::new(p)),
        Kind::DA => A(Deep::new_array(p).iter().map(jd).collect()),
        Kind::O1 => O(vec![("x", N(One::new(p).x as i128))]),
        Kind::OA => A(One::new_array(p).iter().map(|o| O(vec![("x", N(o.x as i128))])).collect()),
    }
}
fn make(r: &mut Rng, k: Kind, n: usize) -> J {
    let m = r.below(n + 1);
    match k {
        Kind::P => gplain(r),
        Kind::PA => A((0..m).map(|_| gplain(r)).collect()),
        Kind::D => gdeep(r, 3),
        Kind::DA => A((0..m).map(|_| gdeep(r, 2)).collect()),
        Kind::O1 => O(vec![("x", gint(r, 0, u64::MAX as i128))]),
        Kind::OA => A((0..m).map(|_| O(vec![("x", gint(r, 0, u64::MAX as i128))])).collect()),
    }
}
fn refuse(what: &str, k: Kind, p: &'static str, file: &[u8]) -> Res {
    match attempt(|| load(k, p)) {
        Err(_) => Ok(()),
        Ok(j) => Err(format!("{} as {:?}: not refused, loaded {} from {}", what, k, clip(format!("{:?}", j), 300), clip(String::from_utf8_lossy(file).into_owned(), 400))),
    }
}
/// Every leaf position of a value, as a path of child indices.
fn paths(j: &J, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    let kids: Vec<&J> = match j { A(v) => v.iter().collect(), O(v) => v.iter().map(|x| &x.1).collect(), _ => vec![] };
    for (i, x) in kids.into_iter().enumerate() {
        at.push(i);
        paths(x, at, out);
        at.pop();
    }
}
fn at<'a>(j: &'a mut J, p: &[usize]) -> &'a mut J {
    match p.split_first() {
        None => j,
        Some((i, rest)) => match j { A(v) => at(&mut v[*i], rest), O(v) => at(&mut v[*i].1, rest), x => x },
    }
}
fn range_of(name: &str) -> Option<(i128, i128)> {
    Some(match name {
        "tcId" | "sizes" => (0, u32::MAX as i128),
        "ivSize" => (0, u16::MAX as i128),
        "numberOfTests" | "x" => (0, u64::MAX as i128),
        "offset" => (i64::MIN as i128, i64::MAX as i128),
        "small" => (-128, 127),
        "byte" | "last" => (0, 255),
        "grid" => (i16::MIN as i128, i16::MAX as i128),
        _ => return None,
    })
}
/// The declared field a path leads through last.
fn field_of(j: &J, p: &[usize]) -> Option<&'static str> {
    let mut cur = j;
    let mut f = None;
    for i in p {
        cur = match cur { A(v) => &v[*i], O(v) => { f = Some(v[*i].0); &v[*i].1 } _ => return f };
    }
    f
}
fn c28(cx: &mut Ctx) {
    let sc = Scratch::new("c28");
    let n = cx.n(1500, 20000);
    cx.cases("round trip", n, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        let j = make(&mut c.rng, k, if c.idx % 35 == 0 { 200 } else { 6 });
        let st = style(&mut c.rng);
        let t = text(&mut c.rng, st, &j);
        c.input(format!("{:?} {}", k, clip(t.clone(), 400)));
        c.obs("kind", format!("{:?}", k));
        c.obs("file size", match t.len() { 0..=63 => "<64", 64..=1023 => "<1k", 1024..=8191 => "<8k", 8192..=65535 => "<64k", _ => ">=64k" });
        if let A(v) = &j { c.obs("records", v.len().min(300)); }
        let p = sc.put(t.as_bytes());
        let got = load(k, p);
        same_j(&got, &j, t.as_bytes())?;
        tick();
        same_j(&load(k, p), &j, t.as_bytes())?;
        ensure(std::fs::read(p).ok().as_deref() == Some(t.as_bytes()), || "loading changed the file".into())?;
        std::fs::remove_file(p).unwrap();
        // once the file is gone, there is nothing left to load
        refuse("removed file", k, p, b"")
    });
    let n = cx.n(40, 400);
    cx.cases("records straddling the reader's buffer", n, |c| {
        // a multi-byte character, an escape and a number placed around multiples of 8 KiB
        let (m, d) = (1 + c.rng.below(3), c.rng.below(14));
        let mut v = vec![];
        let fill = 8192 * m - 40 + d;
        v.push(O(vec![("key", S("k".repeat(fill))), ("msg", S("é中😀\u{10ffff}\"\\".into())), ("tag", S("\n\u{1}".into()))]));
        v.push(gplain(&mut c.rng));
        let j = A(v);
        let t = text(&mut c.rng, Style { shuffle: false, escapes: c.idx % 2 == 0, space: 0 }, &j);
        c.input(format!("fill {} escapes {}", fill, c.idx % 2 == 0));
        same_j(&load(Kind::PA, sc.put(t.as_bytes())), &j, t.as_bytes())?;
        // numbers split by the buffer
        let pad = 8192 - 10 + d;
        let big = gint(&mut c.rng, u64::MAX as i128 - 5, u64::MAX as i128);
        let mut t = " ".repeat(pad - 5);
        t.push_str("{\"x\":");
        if let N(b) = big { t.push_str(&b.to_string()); }
        t.push('}');
        tick();
        same_j(&load(Kind::O1, sc.put(t.as_bytes())), &O(vec![("x", big)]), t.as_bytes())
    });
    let n = cx.n(60, 600);
    cx.cases("many records keep their order", n, |c| {
        let k = 300 + c.rng.below(1500);
        let v: Vec<J> = (0..k).map(|i| O(vec![("x", N((i as i128) << (c.idx % 40)))])).collect();
        let j = A(v);
        let st = style(&mut c.rng);
        let t = text(&mut c.rng, st, &j);
        c.input(format!("{} numbered records", k));
        same_j(&load(Kind::OA, sc.put(t.as_bytes())), &j, t.as_bytes())?;
        let k = c.rng.below(90);
        let j = A((0..k).map(|i| if i % 3 == 2 { gplain(&mut c.rng) } else { O(vec![("key", S(format!("{}", i / 2))), ("msg", S(String::new())), ("tag", S("same".into()))]) }).collect());
        let t = text(&mut c.rng, st, &j);
        tick();
        same_j(&load(Kind::PA, sc.put(t.as_bytes())), &j, t.as_bytes())
    });
    cx.cases("large files", 6, |c| {
        // files of one to twenty megabytes, long strings, more than 2^16 records
        let size = [(1usize << 20) - 7, 1 << 20, (1 << 22) + 11, 20_000_000, 0, 0][c.idx as usize];
        let st = Style { shuffle: false, escapes: false, space: 0 };
        let (k, j) = if size > 0 {
            let fill = c.rng.below(5) + size / 3;
            let ch = |i: usize| (b'a' + ((i * 7 + i / 251) % 26) as u8) as char;
            let big = |s: usize| S((s..s + fill).map(ch).collect());
            (Kind::PA, A(vec![O(vec![("key", big(0)), ("msg", S("first".into())), ("tag", big(3))]), gplain(&mut c.rng), O(vec![("key", S("k".into())), ("msg", big(9)), ("tag", S("last".into()))])]))
        } else {
            let m = [65_537usize, 140_000][c.idx as usize - 4];
            (Kind::OA, A((0..m).map(|i| O(vec![("x", N((i as i128) << (i % 40)))])).collect()))
        };
        let t = text(&mut c.rng, st, &j);
        c.input(format!("{:?} file of {} bytes", k, t.len()));
        let p = sc.put(t.as_bytes());
        same_j(&load(k, p), &j, &t.as_bytes()[..200])?;
        c.obs("file size", format!(">={} MiB", t.len() >> 20));
        // without its last bytes it is refused
        std::fs::write(p, &t.as_bytes()[..t.trim_end().len() - 1]).unwrap();
        refuse("large file without its end", k, p, &t.as_bytes()[..200])?;
        std::fs::remove_file(p).unwrap();
        Ok(())
    });
    // every kind at every size octave
    let n = if cx.thorough { 12 * 108 } else { 108 };
    cx.cases("size ladder", n, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        let size = c.rng.octave(5 + (c.idx / 6) % 18, 64);
        let st = Style { shuffle: c.rng.chance(1, 2), escapes: false, space: 0 };
        let mut j = make(&mut c.rng, k, 3);
        let ch = |i: usize| (b'a' + ((i * 11 + i / 251 + size) % 26) as u8) as char;
        let long = |n: usize| -> String { (0..n).map(ch).collect() };
        let grow = |j: &mut J, n: usize| {
            if let O(f) = j {
                for (name, v) in f.iter_mut() {
                    match (*name, v) {
                        // the growth is spread or sits in one place
                        ("msg", S(s)) => *s = long(n),
                        ("algorithm", S(s)) => *s = long(n / 2),
                        ("sizes", A(v)) => *v = (0..n / 24).map(|i| N(((i as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 32) as i128)).collect(),
                        _ => {}
                    }
                }
            }
        };
        match k {
            Kind::P | Kind::D => grow(&mut j, size),
            Kind::PA | Kind::DA => {
                let parts = 1 + c.rng.below(3);
                let mut v: Vec<J> = (0..parts).map(|_| if k == Kind::PA { gplain(&mut c.rng) } else { gdeep(&mut c.rng, 1) }).collect();
                for x in v.iter_mut() { grow(x, size / parts); }
                j = A(v);
            }
            Kind::OA => j = A((0..(size / 12).max(1)).map(|i| O(vec![("x", N(((i as u64).wrapping_mul(0x9e3779b97f4a7c15) >> (i % 64)) as i128))])).collect()),
            Kind::O1 => {}
        }
        let mut t = text(&mut c.rng, st, &j);
        if k == Kind::O1 {
            // a small record in a large file
            let at = c.rng.below(3);
            let sp = " ".repeat(size);
            t = match at { 0 => sp + &t, 1 => t + &sp, _ => t.replacen(":", &format!(":{}", sp), 1) };
        }
        c.obs("file size", format!("2^{}", 63 - (t.len() as u64).leading_zeros()));
        c.obs("ladder", format!("{:?} 2^{}", k, 63 - (t.len() as u64).leading_zeros()));
        c.input(format!("{:?} file of {} bytes", k, t.len()));
        let p = sc.put(t.as_bytes());
        same_j(&load(k, p), &j, &t.as_bytes()[..t.len().min(200)])?;
        // cut anywhere, it is refused
        let end = t.trim_end().len();
        let cut = match c.rng.below(3) { 0 => end - 1, 1 => c.rng.below(end), _ => end - 1 - c.rng.below(end.min(200)) };
        std::fs::write(p, &t.as_bytes()[..cut]).unwrap();
        refuse(&format!("{} bytes cut to {}", end, cut), k, p, &t.as_bytes()[..t.len().min(200)])?;
        std::fs::remove_file(p).unwrap();
        Ok(())
    });
    let n = cx.n(60, 500);
    cx.cases("a path is read anew on every load", n, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        let p = sc.path();
        c.input(format!("{:?} rewritten in place", k));
        for i in 0..6 {
            let st = style(&mut c.rng);
            let j = make(&mut c.rng, k, 4);
            let t = text(&mut c.rng, st, &j);
            if i % 2 == 0 { std::fs::write(p, &t).unwrap() } else { let q = sc.put(t.as_bytes()); std::fs::rename(q, p).unwrap() }
            tick();
            same_j(&load(k, p), &j, t.as_bytes())?;
            if i == 3 {
                let cut = t.trim_end().len() - 1;
                std::fs::write(p, &t[..t.floor_char_boundary(cut)]).unwrap();
                refuse("rewritten with a truncated copy", k, p, t.as_bytes())?;
            }
        }
        Ok(())
    });
    // a name stands for what it leads to now: equal lengths and times, links and directories that
    // change, equal names elsewhere, other declared types, relative names
    let n = cx.n(24, 300);
    cx.cases("names change their meaning", n, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        let st = style(&mut c.rng);
        let pad = |a: &mut String, n: usize| while a.len() < n { a.push(' ') };
        let (ja, jb) = (make(&mut c.rng, k, 3), make(&mut c.rng, k, 3));
        let (mut ta, mut tb) = (text(&mut c.rng, st, &ja), text(&mut c.rng, st, &jb));
        let n = ta.len().max(tb.len());
        pad(&mut ta, n);
        pad(&mut tb, n);
        c.input(format!("{:?} {} / {}", k, clip(ta.clone(), 150), clip(tb.clone(), 150)));
        let leak = |p: PathBuf| -> &'static str { Box::leak(p.to_str().unwrap().to_string().into_boxed_str()) };
        // the same length and time of change
        let p = sc.put(ta.as_bytes());
        let when = std::fs::metadata(p).unwrap().modified().unwrap();
        same_j(&load(k, p), &ja, ta.as_bytes())?;
        std::fs::write(p, &tb).unwrap();
        std::fs::File::options().write(true).open(p).unwrap().set_modified(when).unwrap();
        same_j(&load(k, p), &jb, tb.as_bytes())?;
        std::fs::write(p, &tb[..tb.trim_end().len() - 1]).unwrap();
        refuse("cut short after a good load", k, p, tb.as_bytes())?;
        // and with the other declared types in between
        std::fs::write(p, &tb).unwrap();
        for o in KINDS {
            let differs = matches!((o, &jb), (Kind::P | Kind::D | Kind::O1, A(_)) | (Kind::PA | Kind::DA | Kind::OA, O(_))) || (!matches!(&jb, A(v) if v.is_empty()) && o != k);
            if differs { refuse("another type", o, p, tb.as_bytes())?; }
            tick();
        }
        same_j(&load(k, p), &jb, tb.as_bytes())?;
        std::fs::remove_file(p).unwrap();
        refuse("removed", k, p, tb.as_bytes())?;
        std::fs::write(p, &ta).unwrap();
        same_j(&load(k, p), &ja, ta.as_bytes())?;
        // links and directories
        let (fa, fb, l) = (sc.put(ta.as_bytes()), sc.put(tb.as_bytes()), sc.path());
        for (f, j, t) in [(fa, &ja, &ta), (fb, &jb, &tb), (fa, &ja, &ta)] {
            let _ = std::fs::remove_file(l);
            std::os::unix::fs::symlink(f, l).unwrap();
            same_j(&load(k, l), j, t.as_bytes())?;
        }
        let (da, db, d) = (PathBuf::from(sc.path()), PathBuf::from(sc.path()), PathBuf::from(sc.path()));
        for (x, t) in [(&da, &ta), (&db, &tb)] {
            std::fs::create_dir(x).unwrap();
            std::fs::write(x.join("vectors.json"), t).unwrap();
        }
        let rel = leak(PathBuf::from("vectors.json"));
        let cwd = std::env::current_dir().unwrap();
        for (x, j, t) in [(&da, &ja, &ta), (&db, &jb, &tb), (&da, &ja, &ta)] {
            same_j(&load(k, leak(x.join("vectors.json"))), j, t.as_bytes())?;
            std::env::set_current_dir(x).unwrap();
            let got = attempt(|| load(k, rel));
            std::env::set_current_dir(&cwd).unwrap();
            same_j(&got.map_err(|e| format!("relative name: {}", e))?, j, t.as_bytes())?;
            let _ = std::fs::remove_file(&d);
            std::os::unix::fs::symlink(x, &d).unwrap();
            same_j(&load(k, leak(d.join("vectors.json"))), j, t.as_bytes())?;
            c.obs("names", "links, directories, relative");
        }
        Ok(())
    });
    // ---- malformed files
    let n = cx.n(48, 400);
    cx.cases("truncation", n, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        let j = make(&mut c.rng, k, 3);
        let st = style(&mut c.rng);
        let t = text(&mut c.rng, st, &j);
        let b = t.trim_end().as_bytes();
        c.input(format!("{:?} {}", k, clip(t.clone(), 300)));
        let step = 1 + b.len() / 600;
        let mut i = if step > 1 { c.rng.below(step) } else { 0 };
        let p = sc.path();
        while i < b.len() {
            std::fs::write(p, &b[..i]).unwrap();
            tick();
            refuse(&format!("truncated to {} of {} bytes", i, b.len()), k, p, &b[..i])?;
            i += step;
        }
        std::fs::write(p, b).unwrap();
        same_j(&load(k, p), &j, b)
    });
    let n = cx.n(900, 9000);
    cx.cases("structural fault", n, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        let mut j = make(&mut c.rng, k, 5);
        if let A(v) = &j { if v.is_empty() { j = make(&mut c.rng, k, 5); } }
        let mut all = vec![];
        paths(&j, &mut vec![], &mut all);
        let p = c.rng.pick(&all).clone();
        let f = field_of(&j, &p);
        let nullable = |f: Option<&str>| matches!(f, Some("note") | Some("last"));
        let kind = c.rng.below(6);
        let old = at(&mut j, &p).clone();
        let mut dup: Option<String> = None;
        let what = match (kind, &old) {
            (0, O(v)) => {
                // a required field is missing
                let i = c.rng.below(v.len());
                if nullable(Some(v[i].0)) { c.trivial = true; return Ok(()); }
                let mut v = v.clone();
                let x = v.remove(i);
                *at(&mut j, &p) = O(v);
                format!("without field {}", x.0)
            }
            (1, O(v)) => {
                // a field is given twice
                let i = c.rng.below(v.len());
                let mut v = v.clone();
                let x = v[i].clone();
                let pos = c.rng.below(v.len() + 1);
                v.insert(pos, x.clone());
                *at(&mut j, &p) = O(v);
                dup = Some(x.0.to_string());
                format!("field {} twice", x.0)
            }
            (2, O(v)) => {
                // a field is misnamed
                let i = c.rng.below(v.len());
                if nullable(Some(v[i].0)) { c.trivial = true; return Ok(()); }
                let mut v = v.clone();
                let old = v[i].0;
                v[i].0 = if c.rng.chance(1, 2) { Box::leak(format!("{}_", old).into_boxed_str()) } else { Box::leak(old.to_uppercase().replace("X", "y").into_boxed_str()) };
                *at(&mut j, &p) = O(v);
                format!("field {} misnamed", old)
            }
            (3, N(_)) => {
                // a number out of the declared range
                let (lo, hi) = range_of(f.unwrap()).unwrap();
                let x = match c.rng.below(4) { 0 => hi + 1, 1 => lo - 1, 2 => hi.saturating_mul(2) + 2, _ => lo - 1 - (c.rng.u64() as i128) };
                *at(&mut j, &p) = N(x);
                format!("{} out of range: {}", f.unwrap(), x)
            }
            (_, x) => {
                // a value of another type
                let new = match x {
                    N(_) => c.rng.pick(&[S("1".into()), B(true), A(vec![]), O(vec![]), S(String::new())]).clone(),
                    S(_) => c.rng.pick(&[N(0), B(false), A(vec![]), O(vec![]), N(-1)]).clone(),
                    B(_) => c.rng.pick(&[N(0), N(1), S("true".into()), Null, A(vec![])]).clone(),
                    A(_) => c.rng.pick(&[N(0), S("[]".into()), B(true), Null, O(vec![])]).clone(),
                    O(_) => c.rng.pick(&[N(0), S("{}".into()), B(true), Null]).clone(),
                    Null => c.rng.pick(&[B(true), A(vec![]), O(vec![])]).clone(),
                };
                *at(&mut j, &p) = new.clone();
                format!("{:?} replaced by {:?}", clip(format!("{:?}", x), 60), new)
            }
        };
        let st = style(&mut c.rng);
        let t = text(&mut c.rng, st, &j);
        c.obs("fault", if dup.is_some() { "duplicate field".to_string() } else { what.split(' ').next().unwrap_or("").to_string().chars().take(10).collect() });
        c.input(format!("{:?} {} {}", k, what, clip(t.clone(), 300)));
        refuse(&what, k, sc.put(t.as_bytes()), t.as_bytes())
    });
    let n = cx.n(900, 9000);
    cx.cases("textual fault", n, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        let j = make(&mut c.rng, k, 3);
        let st = Style { escapes: false, ..style(&mut c.rng) };
        let t = text(&mut c.rng, st, &j);
        let mut b = t.trim_end().as_bytes().to_vec();
        let find = |b: &[u8], x: u8| -> Vec<usize> {
            // positions outside of strings
            let (mut ins, mut esc, mut out) = (false, false, vec![]);
            for (i, c) in b.iter().enumerate() {
                if !ins && *c == x { out.push(i); }
                if esc { esc = false } else if ins && *c == b'\\' { esc = true } else if *c == b'"' { ins = !ins }
            }
            out
        };
        let what = match c.rng.below(14) {
            0 => { let tail = *c.rng.pick(&["x", "{}", "[]", ",", "1", "\"\"", "null", "}", "]", "//", "\0"]); b.extend_from_slice(tail.as_bytes()); "trailing characters" }
            1 => { let v = find(&b, b','); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b[i] = *c.rng.pick(&[b';', b' ', b':']); "comma replaced" }
            2 => { let v = find(&b, b','); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b.insert(i, b','); "double comma" }
            3 => { let v = find(&b, b'}'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b.insert(i, b','); "comma before }" }
            4 => { let v = find(&b, b']'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b.insert(i, b','); "comma before ]" }
            5 => { let v = find(&b, b':'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b[i] = *c.rng.pick(&[b'=', b' ', b',']); "colon replaced" }
            6 => { let v = find(&b, b'"'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b[i] = b'\''; "opening quote replaced" }
            7 => { let v = find(&b, b'"'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b.remove(i); "opening quote removed" }
            8 => { let v = find(&b, b'"'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b.insert(i + 1, *c.rng.pick(&[0, 1, b'\n', b'\t', 0x1f])); "raw control character in a string" }
            9 => { let v = find(&b, b'"'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); let x: &[u8] = *c.rng.pick(&[&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0x80]]); for y in x.iter().rev() { b.insert(i + 1, *y); } "invalid UTF-8 in a string" }
            10 => { let v = find(&b, b'"'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); let x: &[u8] = *c.rng.pick(&[&b"\\x"[..], b"\\u12x", b"\\ud800", b"\\udc00", b"\\u00g0", b"\\'"]); for y in x.iter().rev() { b.insert(i + 1, *y); } "invalid escape in a string" }
            11 => { b.insert(0, *c.rng.pick(&[b',', b'#', b'/', b']', b'}', 0xef])); "junk before the value" }
            12 => { let v = find(&b, b'{'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b[i] = b'['; "{ replaced by [" }
            _ => { let v = find(&b, b'}'); if v.is_empty() { c.trivial = true; return Ok(()) } let i = *c.rng.pick(&v); b[i] = b']'; "} replaced by ]" }
        };
        c.obs("text fault", what);
        c.input(format!("{:?} {} {}", k, what, clip(String::from_utf8_lossy(&b).into_owned(), 300)));
        refuse(what, k, sc.put(&b), &b)
    });
    cx.cases("unreadable", 12, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        c.input(format!("{:?}", k));
        let missing: &'static str = Box::leak(sc.dir.join("nothing/here.json").to_str().unwrap().to_string().into_boxed_str());
        refuse("missing file", k, missing, b"")?;
        refuse("missing file", k, sc.path(), b"")?;
        refuse("empty path", k, "", b"")?;
        let d = sc.path();
        std::fs::create_dir(d).unwrap();
        refuse("directory", k, d, b"")?;
        for t in ["", " ", "\n\n", "null", "1", "\"\"", "true", "\u{feff}{}", "nul", "{", "[", "]"] {
            tick();
            refuse("not a vector file", k, sc.put(t.as_bytes()), t.as_bytes())?;
        }
        // an object file read as an array, and the other way round
        let (a, b) = (make(&mut c.rng, Kind::P, 3), make(&mut c.rng, Kind::DA, 3));
        let st = style(&mut c.rng);
        let (ta, tb) = (text(&mut c.rng, st, &a), text(&mut c.rng, st, &b));
        let (pa, pb) = (sc.put(ta.as_bytes()), sc.put(tb.as_bytes()));
        refuse("object read as array", Kind::PA, pa, ta.as_bytes())?;
        refuse("array read as object", Kind::D, pb, tb.as_bytes())?;
        refuse("array of the wrong records", Kind::D, pa, ta.as_bytes())?;
        for bad in ["1.5", "1e0", "-0.0", "01", "+1", "0x1", "1_0", "NaN", "18446744073709551616", "-1", "99999999999999999999999999999999"] {
            let t = format!("{{\"x\":{}}}", bad);
            tick();
            refuse("not an unsigned integer", Kind::O1, sc.put(t.as_bytes()), t.as_bytes())?;
        }
        Ok(())
    });
    // ---- files that can be named but not opened or read, and contents that arrive in pieces
    cx.cases("cannot be opened or read", 12, |c| {
        let k = KINDS[(c.idx % 6) as usize];
        let st = style(&mut c.rng);
        let j = make(&mut c.rng, k, 3);
        let t = text(&mut c.rng, st, &j);
        c.input(format!("{:?} {}", k, clip(t.clone(), 300)));
        let good = sc.put(t.as_bytes());
        let leak = |p: PathBuf| -> &'static str { Box::leak(p.to_str().unwrap().to_string().into_boxed_str()) };
        let (link, dangling, looped) = (sc.path(), sc.path(), sc.path());
        std::os::unix::fs::symlink(good, link).unwrap();
        std::os::unix::fs::symlink(sc.path(), dangling).unwrap();
        std::os::unix::fs::symlink(looped, looped).unwrap();
        let b = t.as_bytes();
        same_j(&load(k, link), &j, b)?;
        let odd = leak(sc.dir.join(format!("väctor {} \t\"%s'\\.json", sc.path().len())));
        std::fs::write(odd, b).unwrap();
        same_j(&load(k, odd), &j, b)?;
        let long = leak(sc.dir.join("x".repeat(300)));
        for (what, p) in [("dangling link", dangling), ("link to itself", looped), ("a file as directory", leak(PathBuf::from(good).join("x"))), ("a name too long", long), ("an empty device", "/dev/null"), ("a read error", "/proc/self/mem"), ("a name with a NUL", leak(PathBuf::from(format!("{}\0", good))))] {
            tick();
            c.obs("cannot be read", what);
            refuse(what, k, p, b)?;
        }
        // without permission: this thread gives up its file system identity for the duration
        {
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(good, std::fs::Permissions::from_mode(0)).unwrap();
            let old = unsafe { setfsuid(65534) };
            let denied = std::fs::File::open(good).is_err();
            let r = if denied { refuse("no permission", k, good, b) } else { Ok(()) };
            unsafe { setfsuid(old as u32) };
            c.obs("cannot be read", if denied { "no permission" } else { "no permission: not enforced here" });
            r?;
            std::fs::set_permissions(good, std::fs::Permissions::from_mode(0o644)).unwrap();
            same_j(&load(k, good), &j, b)?;
        }
        // a pipe hands out the contents in pieces
        let n = [1, 7, 100, 4096][c.rng.below(4)];
        for cut in [None, Some(c.rng.below(t.trim_end().len()))] {
            let mut fd = [0i32; 2];
            ensure(unsafe { pipe(fd.as_mut_ptr()) } == 0, || "no pipe".into())?;
            let body = match cut { None => b.to_vec(), Some(n) => b[..n].to_vec() };
            let w = std::thread::spawn(move || {
                use std::io::Write;
                use std::os::fd::FromRawFd;
                let mut f = unsafe { std::fs::File::from_raw_fd(fd[1]) };
                for (i, x) in body.chunks(n).enumerate() {
                    if f.write_all(x).is_err() { break; }
                    if i < 20 { std::thread::yield_now() }
                }
            });
            let p = leak(PathBuf::from(format!("/proc/self/fd/{}", fd[0])));
            let got = attempt(|| load(k, p));
            unsafe { close(fd[0]) };
            let _ = w.join();
            c.obs("cannot be read", if cut.is_none() { "pipe" } else { "pipe closed early" });
            match (cut, got) {
                (None, Ok(g)) => same_j(&g, &j, b)?,
                (None, Err(e)) => return Err(format!("a pipe with {:?} not loaded: {}", k, e)),
                (Some(_), Err(_)) => {}
                (Some(x), Ok(g)) => return Err(format!("{:?} from a pipe closed after {} bytes: loaded {}", k, x, clip(format!("{:?}", g), 300))),
            }
        }
        Ok(())
    });
    let n = cx.n(6, 40);
    cx.cases("concurrent loads", n, |c| {
        let mut files = vec![];
        for i in 0..12 {
            let k = KINDS[i % 6];
            let j = make(&mut c.rng, k, 20);
            let st = style(&mut c.rng);
            let t = text(&mut c.rng, st, &j);
            files.push((k, sc.put(t.as_bytes()), j));
        }
        c.input("8 threads load the same 12 files".into());
        let files = Arc::new(files);
        let hs: Vec<_> = (0..8)
            .map(|t| {
                let f = files.clone();
                std::thread::spawn(move || {
                    for i in 0..36 {
                        let (k, p, j) = &f[(i * 5 + t) % f.len()];
                        let got = attempt(|| load(*k, p)).map_err(|e| e)?;
                        same_j(&got, j, b"")?;
                    }
                    Ok::<(), String>(())
                })
            })
            .collect();
        for h in hs { h.join().map_err(|_| "thread panicked".to_string())??; tick(); }
        Ok(())
    });
}
fn c28_selftest() {
    // the writer and an independent reader agree
    let mut r = Rng::new(9);
    for i in 0..200 {
        let j = gdeep(&mut r, 3);
        let st = Style { shuffle: i % 2 == 0, escapes: true, space: 5 };
        let t = text(&mut r, st, &j);
        let v: serde_json::Value = serde_json::from_str(&t).expect("own writer produces JSON");
        if let O(f) = &j {
            for (n, x) in f {
                match x { S(s) => assert_eq!(v[*n], **s), N(y) => assert_eq!(v[*n].to_string(), y.to_string()), _ => {} }
            }
        }
    }
}

// ===================================================================== C30
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn setfsuid(uid: u32) -> i32;
    fn pipe(fd: *mut i32) -> i32;
}
/// Run `f` with the process's standard output and error going to a file; returns what was written.
fn captured<T>(sc: &Scratch, f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    let p = sc.path();
    let file = std::fs::File::create(p).unwrap();
    let _ = (std::io::stdout().flush(), std::io::stderr().flush());
    unsafe {
        let (a, b) = (dup(1), dup(2));
        dup2(file.as_raw_fd(), 1);
        dup2(file.as_raw_fd(), 2);
        let r = f();
        let _ = (std::io::stdout().flush(), std::io::stderr().flush());
        dup2(a, 1);
        dup2(b, 2);
        close(a);
        close(b);
        let out = std::fs::read(p).unwrap();
        std::fs::remove_file(p).unwrap();
        (r, out)
    }
}
fn max_of(op: usize) -> usize {
    if ops::OPS[op].cost == 0 { 300 } else { 120 }
}
/// A multiset of operations, the expensive ones rarely.
fn pick_op(r: &mut Rng) -> (usize, u64) {
    loop {
        let o = r.below(ops::OPS.len());
        if ops::OPS[o].cost == 2 && !r.chance(1, 8) { continue; }
        return (o, r.u64() % 1000);
    }
}
fn near(op: usize, seed: u64, tweak: Option<(u32, u32)>) -> Result<(String, u32), String> {
    // HV_PURE_MAX: larger inputs than usual
    let big = std::env::var("HV_PURE_MAX").ok().and_then(|x| x.parse::<usize>().ok());
    near_max(op, seed, tweak, big)
}
fn near_max(op: usize, seed: u64, tweak: Option<(u32, u32)>, big: Option<usize>) -> Result<(String, u32), String> {
    let max = big.unwrap_or(if ops::op(op).cost == 0 { 300 } else { 120 });
    let (r, n) = ops::run_near(op, seed, max, tweak);
    r.map(|x| (x, n)).map_err(|e| format!("{} (input seed {}, changed {:?}): {}", ops::op(op).name, seed, tweak, e))
}
/// The given calls in a new process; one result each.
fn elsewhere(sc: &Scratch, list: &[(usize, u64, Option<(u32, u32)>)]) -> Result<Vec<String>, String> {
    elsewhere_max(sc, list, None)
}
fn elsewhere_max(sc: &Scratch, list: &[(usize, u64, Option<(u32, u32)>)], big: Option<usize>) -> Result<Vec<String>, String> {
    elsewhere_on(sc, list, big, 1)
}
/// The calls on each of `threads` threads at once; the different results of a call are joined.
fn elsewhere_on(sc: &Scratch, list: &[(usize, u64, Option<(u32, u32)>)], big: Option<usize>, threads: usize) -> Result<Vec<String>, String> {
    let out = sc.path();
    let arg: Vec<String> = list.iter().map(|(o, s, t)| match t { Some((j, h)) => format!("{}:{}:{}:{}", o, s, j, h), None => format!("{}:{}", o, s) }).collect();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .env("HV_PURE", arg.join(","))
        .env("HV_PURE_OUT", out)
        .env("HV_PURE_THREADS", threads.to_string())
        .envs(big.map(|b| ("HV_PURE_MAX", b.to_string())))
        .env("TZ", "Antarctica/Troll").env("LANG", "tr_TR.UTF-8").env("HOME", "/nonexistent").env_remove("PATH")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped())
        .output().map_err(|e| format!("cannot start: {}", e))?;
    let text = std::fs::read_to_string(out).unwrap_or_default();
    let mut rep: Vec<String> = text.split('\u{1e}').map(|x| x.to_string()).collect();
    ensure(rep.len() == list.len() + 1, || format!("the fresh process stopped early: {:?} after {} calls, stderr {}", st.status, rep.len() - 1, clip(String::from_utf8_lossy(&st.stderr).into_owned(), 200)))?;
    rep.pop();
    ensure(st.stdout.is_empty() && st.stderr.is_empty(), || format!("the fresh process wrote {:?}", clip(String::from_utf8_lossy(&[st.stdout.clone(), st.stderr.clone()].concat()).into_owned(), 200)))?;
    Ok(rep)
}
fn go(op: usize, seed: u64) -> Result<String, String> {
    ops::run(op, seed, max_of(op)).map_err(|e| format!("{} (input seed {}): {}", ops::OPS[op].name, seed, e))
}
fn agree(op: usize, seed: u64, when: &str, first: &str, again: &str) -> Res {
    ensure(first == again, || {
        let d = first.bytes().zip(again.bytes()).take_while(|(a, b)| a == b).count();
        let ctx = |s: &str| clip(s.get(d.saturating_sub(20)..).unwrap_or("").to_string(), 120);
        format!("{} (input seed {}): differs {}: at {} first ..{} then ..{}", ops::op(op).name, seed, when, d, ctx(first), ctx(again))
    })
}
fn listing(dir: &std::path::Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
fn c30(cx: &mut Ctx) {
    let sc = Scratch::new("c30");
    let work = sc.dir.join("cwd");
    std::fs::create_dir_all(&work).unwrap();
    std::env::set_current_dir(&work).unwrap();
    let n = cx.n(500, 6000);
    cx.cases("repeat after other calls", n, |c| {
        let (op, seed) = if c.idx < 2 * ops::OPS.len() as u64 { ((c.idx % ops::OPS.len() as u64) as usize, c.idx) } else { pick_op(&mut c.rng) };
        c.input(format!("{} seed {}", ops::OPS[op].name, seed));
        c.obs("operation", ops::OPS[op].name);
        let first = go(op, seed)?;
        for _ in 0..c.rng.below(6) {
            let (o, s) = pick_op(&mut c.rng);
            if ops::OPS[o].cost < 2 { c.obs("called in between", ops::OPS[o].name); let _ = go(o, s); }
        }
        tick();
        agree(op, seed, "on the second call", &first, &go(op, seed)?)
    });
    let n = cx.n(24, 200);
    cx.cases("fresh process", n, |c| {
        // the same calls in another process, in another order
        let mut list: Vec<(usize, u64)> = (0..40).map(|_| pick_op(&mut c.rng)).collect();
        c.input(format!("{} calls in a fresh process", list.len()));
        let here: HashMap<(usize, u64), String> = list.iter().map(|(o, s)| Ok(((*o, *s), go(*o, *s)?))).collect::<Result<_, String>>()?;
        for i in (1..list.len()).rev() { let k = c.rng.below(i + 1); list.swap(i, k); }
        let rep = elsewhere(&sc, &list.iter().map(|(o, s)| (*o, *s, None)).collect::<Vec<_>>())?;
        for ((o, s), r) in list.iter().zip(&rep) {
            tick();
            agree(*o, *s, "in a fresh process", &here[&(*o, *s)], r)?;
        }
        Ok(())
    });
    let n = cx.n(28, 240);
    cx.cases("related inputs", n, |c| {
        // Families of calls that differ in one argument, and there in a bit, a half or a byte of
        // length: what one call leaves behind must not be taken for the other's.  The expected
        // results come from processes that see one member of each family only.
        let all = ops::OPS.len() + ops::FINE.len();
        let mut fam = vec![];
        for k in 0..24u64 {
            // every single-call operation in turn, then any
            let op = if k < 16 { ops::OPS.len() + ((c.idx * 16 + k) % ops::FINE.len() as u64) as usize } else { c.rng.below(all) };
            if ops::op(op).cost == 2 && k % 8 != 0 { continue; }
            let seed = c.rng.u64() % 100_000;
            let draws = near(op, seed, None)?.1;
            if draws == 0 { continue; }
            let (d, how) = (c.rng.below(draws as usize) as u32, c.rng.below(8) as u32);
            let d2 = c.rng.below(draws as usize) as u32;
            fam.push((op, seed, [None, Some((d, how)), Some((d2, how + 1))]));
            c.obs("varied operation", ops::op(op).name);
            c.obs("variation", how);
        }
        c.input(format!("{} families of related calls", fam.len()));
        let mut want: Vec<Vec<String>> = vec![];
        for v in 0..3 {
            let mut ix: Vec<usize> = (0..fam.len()).collect();
            for i in (1..ix.len()).rev() { let k = c.rng.below(i + 1); ix.swap(i, k); }
            let list: Vec<_> = ix.iter().map(|i| (fam[*i].0, fam[*i].1, fam[*i].2[v])).collect();
            let rep = elsewhere(&sc, &list)?;
            let mut w = vec![String::new(); fam.len()];
            for (i, r) in ix.iter().zip(rep) { w[*i] = r; }
            want.push(w);
        }
        for (i, (op, seed, tw)) in fam.iter().enumerate() {
            if want[0][i] != want[1][i] { c.obs("neighbour's result", "differs"); }
            for v in [0usize, 1, 0, 2, 1, 2] {
                tick();
                let got = near(*op, *seed, tw[v])?.0;
                agree(*op, *seed, &format!("(changed {:?}) right after a call that differs from it in one argument", tw[v]), &want[v][i], &got)?;
            }
        }
        Ok(())
    });
    let n = cx.n(48, 480);
    cx.cases("sister operations", n, |c| {
        // Different functions on the same arguments (or with one of them changed a little), in
        // some order here and in the opposite order in a fresh process: of any two, each is first in
        // one of them.  One function, in turn, also follows every other one immediately.
        let seed = (c.rng.u64() % 100_000) | ops::SHARED;
        let tw = if c.idx % 3 == 0 { None } else { Some((c.rng.below(6) as u32, c.rng.below(8) as u32)) };
        let mut list: Vec<(usize, u64, Option<(u32, u32)>)> = vec![];
        for k in 0..ops::FINE.len() {
            let op = ops::OPS.len() + k;
            if ops::op(op).cost == 2 && c.idx % 16 != 5 { continue; }
            list.push((op, seed, None));
            if let Some(t) = tw { list.push((op, seed, Some(t))) }
            c.obs("sister operation", ops::op(op).name);
        }
        for i in (1..list.len()).rev() { let k = c.rng.below(i + 1); list.swap(i, k); }
        let pivot = ops::OPS.len() + (c.idx as usize) % ops::FINE.len();
        let between: Vec<_> = list.iter().map(|_| (pivot, seed, if c.rng.chance(1, 3) { tw } else { None })).collect();
        let mut list: Vec<_> = list.into_iter().zip(between).flat_map(|(a, b)| [a, b]).collect();
        if ops::op(pivot).cost == 2 { list.truncate(24) }
        c.input(format!("{} calls from one stream (seed {}, changed {:?})", list.len(), seed, tw));
        let mut back = list.clone();
        back.reverse();
        let mut rep = elsewhere(&sc, &back)?;
        rep.reverse();
        for ((op, s, t), w) in list.iter().zip(&rep) {
            tick();
            let got = near(*op, *s, *t)?.0;
            agree(*op, *s, &format!("(changed {:?}) after other functions on the same arguments, in the other order", t), w, &got)?;
        }
        Ok(())
    });
    let n = cx.n(24, 150);
    cx.cases("eight threads", n, |c| {
        let list: Vec<(usize, u64)> = (0..48).map(|_| pick_op(&mut c.rng)).collect();
        let want: Arc<HashMap<(usize, u64), String>> = Arc::new(list.iter().map(|(o, s)| Ok(((*o, *s), go(*o, *s)?))).collect::<Result<_, String>>()?);
        c.input(format!("{} calls on each of 8 threads", list.len()));
        // half of the rounds all threads run the same call at the same time
        let lock = c.idx % 2 == 0;
        c.obs("schedule", if lock { "same call at once" } else { "own order" });
        let (ticket, bar) = (Arc::new(AtomicU64::new(0)), Arc::new(Barrier::new(8)));
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let mut mine = list.clone();
                let (want, ticket, bar, mut r) = (want.clone(), ticket.clone(), bar.clone(), Rng::new(c.rng.u64()));
                if !lock { for i in (1..mine.len()).rev() { let k = r.below(i + 1); mine.swap(i, k); } }
                std::thread::spawn(move || {
                    let mut log = vec![];
                    bar.wait();
                    let mut err = None;
                    for (o, s) in mine {
                        if lock { bar.wait(); }
                        if err.is_some() { continue; }
                        for _ in 0..r.below(200) { std::hint::spin_loop(); }
                        let x = go(o, s);
                        log.push((ticket.fetch_add(1, Ordering::SeqCst), t));
                        let v = x.and_then(|x| agree(o, s, "on a thread", &want[&(o, s)], &x));
                        if let Err(e) = v { err = Some(e); }
                    }
                    match err { Some(e) => Err(e), None => Ok(log) }
                })
            })
            .collect();
        let mut log = vec![];
        let mut bad = None;
        for h in hs {
            match h.join() {
                Ok(Ok(l)) => { for _ in &l { tick(); } log.extend(l) }
                Ok(Err(e)) => bad = Some(e),
                Err(_) => bad = Some("a thread panicked".into()),
            }
        }
        if let Some(e) = bad { return Err(e); }
        log.sort();
        let order: Vec<u8> = log.iter().map(|x| x.1 as u8).collect();
        c.obs("completion order", format!("{:x}", fnv(&order)));
        c.obs("switches per run", order.windows(2).filter(|w| w[0] != w[1]).count() / 20);
        Ok(())
    });
    let n = cx.n(4 * ops::OPS.len() as u64, 40 * ops::OPS.len() as u64);
    cx.cases("silent", n, |c| {
        let op = (c.idx % ops::OPS.len() as u64) as usize;
        let k = if ops::OPS[op].cost == 2 { 1 } else { 12 };
        let s0 = c.rng.u64();
        c.input(format!("{} x{} from seed {}", ops::OPS[op].name, k, s0));
        c.obs("operation observed for output", ops::OPS[op].name);
        let (before, f0) = (listing(&work), fds());
        let cwd = std::env::current_dir().ok();
        let vars: Vec<_> = std::env::vars_os().collect();
        let (r, out) = captured(&sc, || -> Res {
            for i in 0..k { go(op, s0 + i)?; tick(); }
            Ok(())
        });
        r?;
        ensure(out.is_empty(), || format!("{} wrote to the standard streams: {:?}", ops::OPS[op].name, clip(String::from_utf8_lossy(&out).into_owned(), 300)))?;
        ensure(listing(&work) == before, || format!("{} created or removed files: {:?}", ops::OPS[op].name, listing(&work)))?;
        ensure(fds() == f0, || format!("{} left file descriptors open", ops::OPS[op].name))?;
        ensure(std::env::current_dir().ok() == cwd && std::env::vars_os().collect::<Vec<_>>() == vars, || format!("{} changed the working directory or environment", ops::OPS[op].name))
    });
    let n = cx.n(24, 200);
    cx.cases("large inputs", n, |c| {
        // twice here and once in a fresh process, on larger inputs
        let big = [700, 1500, 3000, 6000][c.rng.below(4)];
        c.obs("largest input", big);
        let ids: Vec<usize> = (0..16)
            .map(|k| (if k < 12 { (c.idx * 12 + k) as usize } else { c.rng.below(1000) }) % (ops::OPS.len() + ops::FINE.len()))
            .filter(|o| ops::op(*o).cost < 2)
            .collect();
        let list: Vec<(usize, u64, Option<(u32, u32)>)> = ids.into_iter().map(|o| (o, c.rng.u64() % 100_000, None)).collect();
        c.input(format!("{} calls on up to {} bytes", list.len(), big));
        let here: Vec<String> = list.iter().map(|(o, s, _)| near_max(*o, *s, None, Some(big)).map(|x| x.0)).collect::<Result<_, _>>()?;
        for (i, (o, s, _)) in list.iter().enumerate().rev() {
            tick();
            agree(*o, *s, "on the second call", &here[i], &near_max(*o, *s, None, Some(big))?.0)?;
        }
        let mut back = list.clone();
        back.reverse();
        let rep = elsewhere_max(&sc, &back, Some(big))?;
        for (i, (o, s, _)) in list.iter().enumerate() {
            tick();
            c.obs("operation on large inputs", ops::op(*o).name);
            agree(*o, *s, "in a fresh process", &here[i], &rep[list.len() - 1 - i])?;
        }
        Ok(())
    });
    let all = (ops::OPS.len() + ops::FINE.len()) as u64;
    let n = cx.n(4 * all, 40 * all);
    cx.cases("first calls at once", n, |c| {
        // whatever a process sets up on the first call must not show when several threads make
        // that first call: each case is a new process whose threads meet at a barrier per call
        let first = (c.idx % all) as usize;
        let mut list = vec![];
        for k in 0..4 {
            let op = if k == 0 { first } else { c.rng.below(all as usize) };
            if ops::op(op).cost < 2 || c.idx < 2 * all && k == 0 { list.push((op, c.rng.u64() % 100_000, None)) }
        }
        if list.is_empty() { return Ok(()); }
        c.input(format!("{:?} on 5 threads of a new process", list.iter().map(|x| (ops::op(x.0).name, x.1)).collect::<Vec<_>>()));
        let rep = elsewhere_on(&sc, &list, Some(40), 5)?;
        for ((o, s, _), r) in list.iter().zip(&rep) {
            let want = near_max(*o, *s, None, Some(40))?.0;
            for x in r.split('\u{1d}') {
                tick();
                agree(*o, *s, "as the first call on several threads at once", &want, x)?;
            }
        }
        c.obs("operation first called on several threads", ops::op(list[0].0).name);
        Ok(())
    });
    let n = cx.n(all, 3 * all);
    cx.cases("long history", n, |c| {
        // the same call over and over, alternating with another: nothing wears out or fills up
        let op = (c.idx % all) as usize;
        if ops::op(op).cost == 2 { return Ok(()); }
        let (s1, s2) = (c.rng.u64() % 100_000, c.rng.u64() % 100_000);
        let k = match ops::op(op).cost { 0 => 2500, _ => 300 } * if op < ops::OPS.len() { 1 } else { 2 };
        c.input(format!("{} seeds {} and {}, {} calls each on up to 20 bytes", ops::op(op).name, s1, s2, k));
        let f = |s| near_max(op, s, None, Some(20)).map(|x| x.0);
        let (a, b) = (f(s1)?, f(s2)?);
        for i in 0..k {
            agree(op, s1, &format!("on call {}", 2 * i), &a, &f(s1)?)?;
            agree(op, s2, &format!("on call {}", 2 * i + 1), &b, &f(s2)?)?;
        }
        c.inner(2 * k as u64);
        c.obs("operation with a long history", ops::op(op).name);
        Ok(())
    });
    let so = preload(&sc);
    let n = cx.n(32, 240);
    cx.cases("no effect on the outside", n, |c| {
        let so = so.as_ref().map_err(|e| e.clone()).expect("preloaded library");
        let big = [16, 60, 300, 1200, 5000][c.rng.below(5)];
        let all = ops::OPS.len() + ops::FINE.len();
        let list: Vec<(usize, u64)> = (0..all)
            .filter(|o| ops::op(*o).cost < 2 || c.idx % 8 == 0)
            .flat_map(|o| std::iter::repeat(o).take(if ops::op(o).cost == 2 || big >= 1200 { 1 } else { 6 }))
            .map(|o| (o, c.rng.u64() % 100_000))
            .collect();
        c.input(format!("{} calls on up to {} bytes with the effects on the outside intercepted", list.len(), big));
        for (o, n, what) in effects(&sc, so, &list, big)? {
            if o == usize::MAX {
                ensure(n == 5 && what == "write fd 1: probe", || format!("the interception does not work: {} {}", n, what)).expect("interception");
                continue;
            }
            tick();
            c.obs("operation observed for effects", ops::op(o).name);
            c.inner(1);
            ensure(n == 0, || format!("{}: {} effects on the outside, the first: {}", ops::op(o).name, n, what))?;
        }
        Ok(())
    });
    std::env::set_current_dir("/").unwrap();
}
/// The library that notes effects, built here.
fn preload(sc: &Scratch) -> Result<std::path::PathBuf, String> {
    let (src, so) = (sc.dir.join("effects.c"), sc.dir.join("effects.so"));
    std::fs::write(&src, include_str!("../effects.c")).map_err(|e| e.to_string())?;
    let st = std::process::Command::new("cc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(&src).arg("-ldl").output().map_err(|e| e.to_string())?;
    if st.status.success() { Ok(so) } else { Err(String::from_utf8_lossy(&st.stderr).into()) }
}
#[repr(C)]
struct Effects {
    on: i32,
    count: i32,
    first: [u8; 240],
}
extern "C" {
    fn dlsym(h: *mut std::ffi::c_void, n: *const u8) -> *mut Effects;
}
fn noted<T>(e: *mut Effects, f: impl FnOnce() -> T) -> (T, i32, String) {
    unsafe {
        std::ptr::write_volatile(&mut (*e).count, 0);
        std::ptr::write_volatile(&mut (*e).on, 1);
        let r = f();
        // what the call left in the buffers goes out now
        let _ = (std::io::stdout().flush(), std::io::stderr().flush());
        std::ptr::write_volatile(&mut (*e).on, 0);
        let n = std::ptr::read_volatile(&(*e).count);
        let b = std::ptr::read_volatile(&(*e).first);
        let l = b.iter().position(|x| *x == 0).unwrap_or(240);
        (r, n, String::from_utf8_lossy(&b[..l]).into_owned())
    }
}
/// The child that runs calls with the library loaded.
fn effects_child(list: &str) {
    quiet_panics();
    let e = unsafe { dlsym(std::ptr::null_mut(), b"hv_effects\0".as_ptr()) };
    assert!(!e.is_null(), "effects library loaded");
    let big: usize = std::env::var("HV_PURE_MAX").unwrap().parse().unwrap();
    let mut o = String::new();
    // known effects first: the interception must see them
    let dir = std::env::var("HV_PURE_OUT").unwrap() + ".probe";
    let ((), n, first) = noted(e, || {
        print!("probe");
        let _ = std::io::stdout().flush();
        let _ = std::fs::write(&dir, b"x");
        let _ = std::fs::remove_file(&dir);
        eprint!("p");
    });
    o.push_str(&format!("{}:{}:{}\n", usize::MAX, n, first));
    for x in list.split(',') {
        let (op, seed) = x.split_once(':').unwrap();
        let (op, seed): (usize, u64) = (op.parse().unwrap(), seed.parse().unwrap());
        let (r, n, first) = noted(e, || near_max(op, seed, None, Some(big)));
        let (n, first) = match r { Err(x) => (999, x.replace('\n', " ")), Ok(_) => (n, first) };
        o.push_str(&format!("{}:{}:{}\n", op, n, first));
    }
    std::fs::write(std::env::var("HV_PURE_OUT").unwrap(), o).unwrap();
}
fn effects(sc: &Scratch, so: &std::path::Path, list: &[(usize, u64)], big: usize) -> Result<Vec<(usize, i32, String)>, String> {
    let out = sc.path();
    let arg: Vec<String> = list.iter().map(|(o, s)| format!("{}:{}", o, s)).collect();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .env("HV_EFFECTS", arg.join(",")).env("HV_PURE_OUT", out).env("HV_PURE_MAX", big.to_string()).env("LD_PRELOAD", so)
        .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped())
        .output().map_err(|e| format!("cannot start: {}", e))?;
    let text = std::fs::read_to_string(out).unwrap_or_default();
    let v: Vec<(usize, i32, String)> = text.lines().filter_map(|l| { let mut p = l.splitn(3, ':'); Some((p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.next()?.to_string())) }).collect();
    ensure(v.len() == list.len() + 1, || format!("the observed process stopped early: {:?}, stderr {}", st.status, clip(String::from_utf8_lossy(&st.stderr).into_owned(), 300)))?;
    let _ = std::fs::remove_file(out);
    Ok(v)
}
fn c30_selftest() {
    // the capture sees output on both streams
    let sc = Scratch::new("c30-self");
    let ((), out) = captured(&sc, || {
        println!("a");
        eprintln!("b");
    });
    assert_eq!(out, b"a\nb\n");
    let ((), out) = captured(&sc, || ());
    assert!(out.is_empty());
}

fn main() {
    if let Ok(l) = std::env::var("HV_EFFECTS") {
        return effects_child(&l);
    }
    if let Ok(l) = std::env::var("HV_PURE") {
        quiet_panics();
        let mut o = String::new();
        let list: Vec<Vec<u64>> = l.split(',').map(|x| x.split(':').map(|y| y.parse().unwrap()).collect()).collect();
        let call = |v: &[u64]| match near(v[0] as usize, v[1], if v.len() > 2 { Some((v[2] as u32, v[3] as u32)) } else { None }) {
            Ok((s, _)) => s,
            Err(e) => format!("ERR {}", e),
        };
        let threads: usize = std::env::var("HV_PURE_THREADS").unwrap().parse().unwrap();
        if threads == 1 {
            for v in &list { o.push_str(&call(v)); o.push('\u{1e}'); }
        } else {
            let arrived = AtomicU64::new(0);
            let got: Vec<Vec<String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads).map(|t| {
                    let (list, call, arrived) = (&list, &call, &arrived);
                    sc.spawn(move || list.iter().enumerate().map(|(i, v)| {
                        arrived.fetch_add(1, Ordering::SeqCst);
                        let mut spins = 0u32;
                        while arrived.load(Ordering::SeqCst) < ((i + 1) * threads) as u64 { spins += 1; if spins % 4096 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() } }
                        for _ in 0..t * (v[1] as usize % 5) * 40 { std::hint::spin_loop(); }
                        call(v)
                    }).collect::<Vec<_>>())
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for i in 0..list.len() {
                let mut d: Vec<&str> = got.iter().map(|g| &g[i][..]).collect();
                d.sort();
                d.dedup();
                o.push_str(&d.join("\u{1d}"));
                o.push('\u{1e}');
            }
        }
        std::fs::write(std::env::var("HV_PURE_OUT").unwrap(), o).unwrap();
        return;
    }
    main_check(&[
        Check { id: "C28", shards: 8, run: c28, selftest: c28_selftest, scale: (4, 4),
            require: &[("kind", 6), ("text fault", 14), ("cannot be read", 10), ("file size", 20), ("ladder", 60)],
            rule: "one evaluation = one generated vector file loaded by the declared type and compared with the value it was written from, or one faulted file that must be refused; distinct = distinct files" },
        Check { id: "C30", shards: 4, run: c30, selftest: c30_selftest, scale: (4, 8),
            require: &[("operation", 28), ("operation observed for output", 28), ("completion order", 6), ("schedule", 2), ("varied operation", 55), ("sister operation", 44), ("variation", 8), ("neighbour's result", 1), ("operation on large inputs", 40), ("operation first called on several threads", 40), ("operation with a long history", 46), ("operation observed for effects", 46), ("largest input", 3)],
            rule: "one evaluation = one call whose result was compared with the result of the same call made earlier, on another thread or in another process, or whose output streams were captured; distinct = distinct (operation, input) groups and positions" },
    ]);
}
