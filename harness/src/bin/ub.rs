//! C29 (no undefined behaviour) and C33 (same results on every platform and build).
//! `ub work op:seed,...` executes operations of the registry and prints their results; the checks
//! run it natively, under Miri, AddressSanitizer and memcheck, for other targets under Miri and
//! optimised, and judge the reports and the results.
#[path = "../ops.rs"]
mod ops;
use hv::gen::Rng;
use hv::mon::*;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const MAX: usize = 24;
fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn spec(list: &[(usize, u64)]) -> String {
    list.iter().map(|(o, s)| format!("{}:{}", o, s)).collect::<Vec<_>>().join(",")
}
fn parse(s: &str) -> Vec<(usize, u64)> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.split_once(':').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap()).collect()
}
fn one(o: usize, s: u64, max: usize) -> String {
    escape(&match ops::run(o, s, max) {
        Ok(x) => x,
        Err(e) => format!("ERROR {}", e),
    })
}
/// The number of threads of a mode: `ops`, `threads` (3), `threads8`.
fn threads(mode: &str) -> usize {
    mode.strip_prefix("threads").map_or(1, |n| n.parse().unwrap_or(3))
}
/// The workload side.
fn work(a: &[String]) {
    quiet_panics();
    let max = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(MAX);
    let list = parse(a.get(3).map(|x| x.as_str()).unwrap_or(""));
    let t = threads(&a[2]);
    if t > 1 {
        // every thread runs all of the list; half of them start at the same place, the others elsewhere
        let start = std::sync::Arc::new(std::sync::Barrier::new(t));
        let hs: Vec<_> = (0..t)
            .map(|t| {
                let mut l = list.clone();
                let n = l.len().max(1);
                l.rotate_left(if t % 2 == 0 { 0 } else { (t * n / 7 + 1) % n });
                let b = start.clone();
                std::thread::spawn(move || { b.wait(); l.into_iter().map(|(o, s)| (o, s, one(o, s, max))).collect::<Vec<_>>() })
            })
            .collect();
        for h in hs {
            for (o, s, x) in h.join().unwrap() { println!("R {} {} {}", o, s, x); }
        }
        return;
    }
    for (o, s) in list {
        println!("B {} {}", o, s);
        println!("R {} {} {}", o, s, one(o, s, max));
    }
}

// ------------------------------------------------------------------ running it elsewhere
#[derive(Clone)]
struct Runner {
    name: &'static str,
    cmd: Vec<String>,
    env: Vec<(&'static str, String)>,
}
fn s(x: &str) -> String {
    x.to_string()
}
fn dir() -> String {
    std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "target".into())
}
fn miri(name: &'static str, target: Option<&str>, flags: &str) -> Runner {
    let mut cmd: Vec<String> = ["cargo", "miri", "run", "--offline", "--locked", "-q", "--bin", "ub", "--target-dir"].iter().map(|x| s(x)).collect();
    cmd.push(format!("{}/miri", dir()));
    let mut env = vec![("RUSTUP_TOOLCHAIN", s("nightly-x86_64-unknown-linux-gnu")), ("MIRIFLAGS", format!("-Zmiri-disable-isolation {}", flags)), ("RUSTFLAGS", s("-Awarnings -Aarithmetic-overflow -Aoverflowing-literals -Aunconditional-panic"))];
    if let Some(t) = target {
        cmd.push(s("--target"));
        cmd.push(s(t));
        env.push(("XDG_CACHE_HOME", format!("{}/xdg", dir())));
    }
    cmd.push(s("--"));
    Runner { name, cmd, env }
}
fn asan() -> Runner {
    Runner { name: "AddressSanitizer", cmd: vec![format!("{}/asan/x86_64-unknown-linux-gnu/debug/ub", dir())], env: vec![("ASAN_OPTIONS", s("detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:exitcode=98"))] }
}
fn tsan() -> Runner {
    Runner { name: "ThreadSanitizer", cmd: vec![format!("{}/tsan/x86_64-unknown-linux-gnu/debug/ub", dir())], env: vec![("TSAN_OPTIONS", s("exitcode=96:halt_on_error=0:history_size=4"))] }
}
fn msan() -> Runner {
    Runner { name: "MemorySanitizer", cmd: vec![format!("{}/msan/x86_64-unknown-linux-gnu/debug/ub", dir())], env: vec![("MSAN_OPTIONS", s("exitcode=95"))] }
}
fn memcheck() -> Runner {
    let me = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    Runner { name: "memcheck", cmd: ["valgrind", "-q", "--error-exitcode=97", "--leak-check=full", "--errors-for-leak-kinds=definite", "--num-callers=10"].iter().map(|x| s(x)).chain([me]).collect(), env: vec![] }
}
fn native(profile: &str) -> Runner {
    Runner { name: "native", cmd: vec![format!("{}/{}/ub", dir(), profile)], env: vec![] }
}
struct Seen {
    out: String,
    err: String,
    status: std::process::ExitStatus,
}
fn run(r: &Runner, mode: &str, list: &[(usize, u64)], max: usize) -> Seen {
    let base = std::env::temp_dir().join(format!("hv-ub-{}-{}", std::process::id(), r.name.replace(' ', "")));
    let (po, pe) = (base.with_extension("out"), base.with_extension("err"));
    let (fo, fe) = (std::fs::File::create(&po).unwrap(), std::fs::File::create(&pe).unwrap());
    let mut c = Command::new(&r.cmd[0]);
    c.args(&r.cmd[1..]).args(["work", mode, &spec(list), &max.to_string()]);
    for (k, v) in &r.env { c.env(k, v); }
    c.env_remove("HV_OUT").stdin(Stdio::null()).stdout(fo).stderr(fe);
    let mut ch = match c.spawn() { Ok(x) => x, Err(_) => std::process::exit(3) };
    let t = Instant::now();
    let limit = Duration::from_secs(if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 6000 } else { 600 });
    let status = loop {
        if let Ok(Some(st)) = ch.try_wait() { break st; }
        if t.elapsed() > limit { let _ = ch.kill(); let _ = ch.wait(); std::process::exit(5); }
        std::thread::sleep(Duration::from_millis(10));
    };
    let rd = |p: &std::path::Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let seen = Seen { out: rd(&po), err: rd(&pe), status };
    let _ = (std::fs::remove_file(&po), std::fs::remove_file(&pe));
    seen
}
fn results(out: &str) -> Vec<(usize, u64, String)> {
    out.lines().filter_map(|l| l.strip_prefix("R ")).filter_map(|l| { let mut p = l.splitn(3, ' '); Some((p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.next().unwrap_or("").to_string())) }).collect()
}
/// The operation that was running when the process stopped.
fn last(out: &str) -> String {
    out.lines().rev().find_map(|l| l.strip_prefix("B ")).and_then(|l| { let (o, s) = l.split_once(' ')?; Some(format!("{} (input seed {})", ops::op(o.parse::<usize>().ok()?).name, s)) }).unwrap_or_else(|| "start".into())
}
const MARKS: &[&str] = &["Undefined Behavior", "memory leaked", "Data race", "AddressSanitizer", "ThreadSanitizer: data race", "WARNING: ThreadSanitizer", "MemorySanitizer", "Invalid read", "Invalid write", "uninitialised value", "definitely lost", "Invalid free", "Mismatched free", "the evaluated program deadlocked", "abnormal termination", "the program aborted"];
/// A sanitizer run must end normally, having executed everything.
fn clean(c: &mut Case, r: &Runner, mode: &str, list: &[(usize, u64)], max: usize) -> Result<Vec<(usize, u64, String)>, String> {
    let seen = run(r, mode, list, max);
    let res = results(&seen.out);
    if let Some(l) = seen.err.lines().find(|l| MARKS.iter().any(|m| l.contains(m))) {
        let i = seen.err.find(l).unwrap_or(0);
        let from = seen.err[..i].rfind('\n').map(|x| x + 1).unwrap_or(0);
        return Err(format!("{} in {}: {}", r.name, last(&seen.out), clip(seen.err[from..].replace('\n', " | "), 900)));
    }
    use std::os::unix::process::ExitStatusExt;
    if let Some(4 | 6 | 7 | 8 | 11) = seen.status.signal() {
        return Err(format!("{}: died with {:?} in {}: {}", r.name, seen.status, last(&seen.out), clip(seen.err.replace('\n', " | "), 500)));
    }
    let want = threads(mode) * list.len();
    if !seen.status.success() || res.len() != want {
        // not a report of a sanitizer: no answer
        let _ = std::fs::write(std::env::temp_dir().join("hv-ub-last-failure"), format!("{:?}\n{}\n{}", r.cmd, clip(seen.out, 3000), seen.err));
        std::process::exit(3);
    }
    for (o, _, x) in &res {
        tick();
        c.obs(r.name, ops::op(*o).name);
        c.inner(x.matches(ops::SEP).count() as u64);
    }
    Ok(res)
}
fn idx(name: &str) -> usize {
    ops::OPS.iter().position(|o| o.name == name).unwrap_or_else(|| panic!("no operation {}", name))
}
/// Seconds under Miri, roughly.
fn weight(o: usize) -> f64 {
    match ops::op(o).name {
        "x25519" => 150.0, "p256" => 200.0, "modular integers" => 45.0, "chacha20-poly1305" => 21.0, "hkdf" => 14.0, "hmac" => 7.0, "aes-gcm" => 7.0, "polynomials" => 5.5,
        "aes" => 5.0, "poly1305" => 4.5, "arrays" => 3.6, "sha256" => 2.6, "blake2b" => 2.2, "secret integer operators" => 2.5, "bounded integers" => 2.0,
        _ => 1.0,
    }
}
/// Work units of about `secs` seconds, longest first.
fn units(r: &mut Rng, secs: f64, rounds: u64, expensive: bool) -> Vec<Vec<(usize, u64)>> {
    let mut v = vec![];
    for o in 0..ops::OPS.len() {
        if ops::op(o).cost == 2 && !expensive { continue; }
        for _ in 0..rounds {
            let k = ((secs / weight(o)) as u64).clamp(1, 8);
            v.push((0..k).map(|_| (o, r.u64() % 1_000_000)).collect::<Vec<_>>());
        }
    }
    v.sort_by(|a, b| (weight(b[0].0) * b.len() as f64).partial_cmp(&(weight(a[0].0) * a.len() as f64)).unwrap());
    v
}
/// All operations that draw their own sizes: several calls each, and single calls.
fn drawn() -> std::ops::Range<usize> {
    0..ops::OPS.len() + ops::FINE.len()
}
/// Single calls.
fn fine() -> std::ops::Range<usize> {
    ops::OPS.len()..ops::OPS.len() + ops::FINE.len()
}
/// Single calls in lists of about equal time under Miri.
fn singles(r: &mut Rng, expensive: bool, lists: usize) -> Vec<Vec<(usize, u64)>> {
    let mut v = vec![vec![]; lists];
    for (i, o) in fine().filter(|o| ops::op(*o).cost < 2 || expensive).enumerate() { v[i % lists].push((o, r.u64() % 1_000_000)); }
    v
}
/// The operations on data of an exact size.
fn bulk() -> std::ops::Range<usize> {
    let a = ops::OPS.len() + ops::FINE.len();
    a..a + ops::BULK.len()
}
fn label(l: &[(usize, u64)]) -> String {
    l.iter().map(|(o, s)| format!("{}#{}", ops::op(*o).name, s)).collect::<Vec<_>>().join(", ")
}
fn c29(cx: &mut Ctx) {
    let mut r = Rng::new(cx.seed ^ 0x29);
    let deep = cx.thorough;
    let u = units(&mut r, 9.0, if deep { 12 } else { 1 }, deep);
    cx.cases("Miri", u.len() as u64, |c| {
        let l = &u[c.idx as usize];
        c.input(label(l));
        let flags = if deep && c.idx % 2 == 1 { "-Zmiri-tree-borrows" } else { "-Zmiri-symbolic-alignment-check" };
        clean(c, &miri("Miri", None, flags), "ops", l, MAX).map(|_| ())
    });
    let u = singles(&mut r, deep, if deep { 48 } else { 8 });
    cx.cases("Miri, single calls", u.len() as u64, |c| {
        let l = &u[c.idx as usize];
        c.input(label(l));
        clean(c, &miri("Miri", None, if c.idx % 2 == 0 { "-Zmiri-tree-borrows" } else { "-Zmiri-symbolic-alignment-check" }), "ops", l, 40).map(|_| ())
    });
    let cheap: Vec<usize> = (0..ops::OPS.len()).filter(|o| weight(*o) <= 3.0).collect();
    let n = cx.n(2, 24);
    cx.cases("Miri, threads", n, |c| {
        let l: Vec<(usize, u64)> = (0..4).map(|_| (*c.rng.pick(&cheap), c.rng.u64() % 1000)).collect();
        c.input(format!("three threads: {}", label(&l)));
        let f = format!("-Zmiri-seed={} -Zmiri-preemption-rate=0.05", c.rng.u64() % 1_000_000);
        let res = clean(c, &miri("Miri (threads)", None, &f), "threads", &l, 12)?;
        for (o, s) in &l {
            let all: Vec<_> = res.iter().filter(|x| x.0 == *o && x.1 == *s).map(|x| &x.2).collect();
            ensure(all.windows(2).all(|w| w[0] == w[1]), || format!("{} (input seed {}): threads disagree", ops::op(*o).name, s))?;
        }
        Ok(())
    });
    let n = cx.n(16, 160);
    cx.cases("AddressSanitizer", n, |c| {
        let mut l: Vec<(usize, u64)> = vec![];
        for o in drawn() {
            for _ in 0..(if ops::op(o).cost == 2 { 1 } else if o >= ops::OPS.len() { 5 } else { 15 }) { l.push((o, c.rng.u64() % 1_000_000)); }
        }
        c.input(format!("{} operations under AddressSanitizer, from {}", l.len(), label(&l[..1])));
        clean(c, &asan(), "ops", &l, 200).map(|_| ())
    });
    let n = cx.n(8, 80);
    cx.cases("MemorySanitizer", n, |c| {
        let mut l: Vec<(usize, u64)> = vec![];
        for o in drawn() {
            for _ in 0..(if ops::op(o).cost == 2 { 1 } else if o >= ops::OPS.len() { 5 } else { 15 }) { l.push((o, c.rng.u64() % 1_000_000)); }
        }
        c.input(format!("{} operations under MemorySanitizer, from {}", l.len(), label(&l[..1])));
        clean(c, &msan(), "ops", &l, 200).map(|_| ())
    });
    // leaks, and a second opinion on the rest
    let n = cx.n(4, 80);
    cx.cases("memcheck", n, |c| {
        let mut l: Vec<(usize, u64)> = vec![];
        for o in drawn() {
            if ops::op(o).cost == 2 && c.idx != 0 { continue; }
            for _ in 0..(if ops::op(o).cost == 2 { 1 } else { 3 }) { l.push((o, c.rng.u64() % 1_000_000)); }
        }
        for o in bulk() { l.push((o, c.rng.u64() % 1_000_000)); }
        c.input(format!("{} operations under memcheck, from {}", l.len(), label(&l[..1])));
        let max = [60, 60, 300, 2000][c.idx as usize % 4];
        clean(c, &memcheck(), "ops", &l, max).map(|_| ())
    });
    // large inputs: code that treats them apart (in blocks, through raw buffers) runs too
    let n = cx.n(8, 80);
    cx.cases("large inputs", n, |c| {
        let max = [600, 1100, 2100, 4200, 8300, 16500][c.rng.below(6)];
        let l: Vec<(usize, u64)> = drawn().filter(|o| ops::op(*o).cost < 2).flat_map(|o| [(o, 0), (o, 0)]).map(|(o, _)| (o, c.rng.u64() % 1_000_000)).collect();
        let r = if c.idx % 2 == 0 { asan() } else { msan() };
        c.input(format!("{} operations on up to {} bytes under {}, from {}", l.len(), max, r.name, label(&l[..1])));
        c.obs("largest input", max);
        clean(c, &r, "ops", &l, max).map(|_| ())
    });
    // every size octave, and the sizes at which counters of 8 and 16 bits wrap
    let marks = [255usize, 256, 257, 4095, 4096, 65535, 65536, 65537, 131072];
    let n = 2 * (11 + marks.len() as u64) * if deep { 12 } else { 1 };
    cx.cases("size ladder", n, |c| {
        let i = (c.idx / 2) as usize % (11 + marks.len());
        let size = if i < marks.len() { marks[i] } else { c.rng.octave(7 + (i - marks.len()) as u64, 64) };
        // operations that divide the size get it multiplied, for the exact sizes
        let (r, l) = (if c.idx % 2 == 0 { asan() } else { msan() }, bulk().map(|o| (o, c.rng.u64() % 1_000_000)).collect::<Vec<_>>());
        c.input(format!("{} operations on {} bytes under {}", l.len(), size, r.name));
        c.obs("size octave", 63 - (size as u64).leading_zeros());
        clean(c, &r, "ops", &l, size)?;
        let l: Vec<_> = l.into_iter().filter(|(o, _)| ops::op(*o).name.starts_with("long seq")).collect();
        clean(c, &r, "ops", &l, size * 4).map(|_| ())
    });
    let l: Vec<usize> = bulk().filter(|o| ops::op(*o).name.starts_with("long")).collect();
    cx.cases("Miri, sequences of every type", if deep { 6 } else { 1 } * l.len() as u64, |c| {
        let o = l[c.idx as usize % l.len()];
        let l = [(o, c.rng.u64() % 1_000_000)];
        let max = if ops::op(o).name.contains("poly") { 800 } else { 40 + c.rng.below(120) };
        c.input(format!("{} of size {}", label(&l), max));
        clean(c, &miri("Miri", None, if c.idx % 2 == 1 { "-Zmiri-tree-borrows" } else { "" }), "ops", &l, max).map(|_| ())
    });
    // races: eight native threads, every operation
    let n = cx.n(8, 120);
    cx.cases("ThreadSanitizer", n, |c| {
        let mut l: Vec<(usize, u64)> = drawn().filter(|o| ops::op(*o).cost < 2 || c.idx == 0).map(|o| (o, c.rng.u64() % 1_000_000)).collect();
        let n = l.len();
        for i in (1..n).rev() { let j = c.rng.below(i + 1); l.swap(i, j); }
        c.input(format!("{} operations in each of eight threads under ThreadSanitizer, from {}", l.len(), label(&l[..1])));
        let max = if c.idx == 0 { 40 } else { 150 };
        let res = clean(c, &tsan(), "threads8", &l, max)?;
        for (o, s) in &l {
            let here = one(*o, *s, max);
            for x in res.iter().filter(|x| x.0 == *o && x.1 == *s) {
                ensure(x.2 == here, || format!("{} (input seed {}): {} alone, {} in one of eight threads", ops::op(*o).name, s, clip(here.clone(), 200), clip(x.2.clone(), 200)))?;
            }
        }
        Ok(())
    });
}
/// Every target and every build computes the same.
fn c33(cx: &mut Ctx) {
    let mut r = Rng::new(cx.seed ^ 0x33);
    let deep = cx.thorough;
    let u = units(&mut r, 9.0, if deep { 8 } else { 1 }, deep);
    let same = |c: &mut Case, got: Vec<(usize, u64, String)>, where_: &str, mask: bool, max: usize| -> Res {
        for (o, s, x) in got {
            let here = one(o, s, max);
            let (a, b): (Vec<&str>, Vec<&str>) = (here.split(ops::SEP).collect(), x.split(ops::SEP).collect());
            let name = ops::op(o).name;
            ensure(a.len() == b.len() || (mask && here == "P"), || format!("{} (input seed {}): {} results here, {} on {}", name, s, a.len(), b.len(), where_))?;
            for (i, (p, q)) in a.iter().zip(&b).enumerate() {
                // a build without debug assertions need not refuse what a debug build refuses
                if mask && (*p == "P" || p.contains("Err(")) { continue; }
                c.inner(1);
                ensure(p == q, || format!("{} (input seed {}), result {}: {} here, {} on {}", name, s, i, clip(p.to_string(), 200), clip(q.to_string(), 200), where_))?;
            }
        }
        Ok(())
    };
    let targets: &[(&str, &str)] = if deep { &[("powerpc-unknown-linux-gnu", "a 32-bit big-endian platform"), ("s390x-unknown-linux-gnu", "a 64-bit big-endian platform"), ("i686-unknown-linux-gnu", "a 32-bit little-endian platform")] } else { &[("powerpc-unknown-linux-gnu", "a 32-bit big-endian platform")] };
    for (t, w) in targets.iter().copied() {
        cx.cases(w, u.len() as u64, |c| {
            let l = &u[c.idx as usize];
            c.input(format!("{}: {}", t, label(l)));
            let res = clean(c, &miri("other platform", Some(t), ""), "ops", l, MAX)?;
            same(c, res, w, false, MAX)
        });
    }
    for (t, w) in targets.iter().copied() {
        let u = singles(&mut r, deep, if deep { 48 } else { 8 });
        cx.cases(&format!("single calls on {}", w), u.len() as u64, |c| {
            let l = &u[c.idx as usize];
            c.input(format!("{}: {}", t, label(l)));
            let res = clean(c, &miri("other platform", Some(t), ""), "ops", l, 40)?;
            same(c, res, w, false, 40)
        });
    }
    let n = cx.n(24, 400);
    cx.cases("optimised build", n, |c| {
        let mut l: Vec<(usize, u64)> = vec![];
        for o in drawn() {
            for _ in 0..(if ops::op(o).cost == 2 { 1 } else if o >= ops::OPS.len() { 8 } else { 30 }) { l.push((o, c.rng.u64() % 1_000_000)); }
        }
        c.input(format!("{} operations in an optimised build, from {}", l.len(), label(&l[..1])));
        let res = clean(c, &native("release"), "ops", &l, 200)?;
        same(c, res, "an optimised build", true, 200)
    });
    cx.cases("optimised build, size ladder", if deep { 300 } else { 20 }, |c| {
        let size = c.rng.octave(7 + c.idx % 11, 64);
        let l: Vec<_> = bulk().map(|o| (o, c.rng.u64() % 1_000_000)).collect();
        c.input(format!("{} operations on {} bytes in an optimised build", l.len(), size));
        c.obs("size octave", 63 - (size.max(1) as u64).leading_zeros());
        let res = clean(c, &native("release"), "ops", &l, size)?;
        same(c, res, "an optimised build", true, size)
    });
    for (t, w) in targets.iter().copied() {
        let l: Vec<usize> = bulk().filter(|o| ops::op(*o).name.starts_with("long")).collect();
        cx.cases(&format!("sequences of every type on {}", w), if deep { 3 } else { 1 } * l.len() as u64, |c| {
            let o = l[c.idx as usize % l.len()];
            let l = [(o, c.rng.u64() % 1_000_000)];
            let max = if ops::op(o).name.contains("poly") { 800 } else { 40 + c.rng.below(120) };
            c.input(format!("{}: {} of size {}", t, label(&l), max));
            let res = clean(c, &miri("other platform", Some(t), ""), "ops", &l, max)?;
            same(c, res, w, false, max)
        });
    }
}
/// The sanitizers see planted faults of the harness's own.
fn bad(kind: &str) {
    unsafe {
        match kind {
            "oob" => { let v = vec![1u8, 2, 3]; let n = std::hint::black_box(3); let x: u8 = *v.as_ptr().add(n); println!("{}", x); }
            "uninit" => { let v: Vec<u8> = Vec::with_capacity(8); let x = *v.as_ptr(); if std::hint::black_box(x) == 3 { println!("three") } else { println!("other") } }
            "leak" => { std::mem::forget(std::hint::black_box(vec![7u8; 100])); }
            "align" => { let a = [0u8; 16]; let p = a.as_ptr().add(std::hint::black_box(1)) as *const u64; let x: u64 = *p; println!("{}", x); }
            "race" => {
                static mut X: u64 = 0;
                let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(|| for _ in 0..50 { X += 1; })).collect();
                for h in hs { h.join().unwrap(); }
            }
            _ => {}
        }
    }
}
fn reports(r: &Runner, kind: &str) -> bool {
    let mut c = Command::new(&r.cmd[0]);
    c.args(&r.cmd[1..]).args(["bad", kind]);
    for (k, v) in &r.env { c.env(k, v); }
    let o = c.stdin(Stdio::null()).output().expect("runner starts");
    let e = String::from_utf8_lossy(&o.stderr).into_owned();
    let hit = !o.status.success() && MARKS.iter().any(|m| e.contains(m));
    if !hit { eprintln!("{} does not report {}: {:?} {}", r.name, kind, o.status, clip(e, 1500)); }
    hit
}
fn c29_selftest() {
    let m = miri("Miri", None, "-Zmiri-symbolic-alignment-check");
    let ok = std::thread::scope(|s| {
        let hs: Vec<_> = ["oob", "uninit", "leak", "align", "race"].iter().map(|k| { let m = &m; s.spawn(move || reports(m, k)) }).collect();
        hs.into_iter().all(|h| h.join().unwrap())
    });
    assert!(ok && reports(&asan(), "oob") && reports(&memcheck(), "uninit") && reports(&msan(), "uninit") && reports(&memcheck(), "leak") && reports(&tsan(), "race"));
}
fn c33_selftest() {
    let _ = (idx("sha256"), idx("p256"));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("work") => return work(&a),
        Some("bad") => return bad(&a[2]),
        _ => {}
    }
    main_check(&[
        Check { id: "C29", shards: 8, run: c29, selftest: c29_selftest, scale: (1, 1),
            require: &[("Miri", 70), ("AddressSanitizer", 76), ("MemorySanitizer", 76), ("memcheck", 76), ("size octave", 11), ("Miri (threads)", 2), ("ThreadSanitizer", 76)],
            rule: "one evaluation = one recorded result of an operation executed under a sanitizer (Miri, AddressSanitizer, MemorySanitizer, ThreadSanitizer, memcheck); distinct = distinct (sanitizer, operation, input) results" },
        Check { id: "C33", shards: 8, run: c33, selftest: c33_selftest, scale: (1, 1),
            require: &[("other platform", 70), ("native", 76), ("size octave", 10)],
            rule: "one evaluation = one recorded result of an operation executed on another platform (interpreted) or build and compared with the native result; distinct = distinct (platform, operation, input) results" },
    ]);
}
