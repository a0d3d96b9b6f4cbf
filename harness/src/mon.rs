//! The monitor: runs workload cases under panic capture, compares what the code did with what
//! the oracle says, and records what was observed.
//!
//! Process structure: `main_check` is the parent.  It starts one child process per shard (the
//! same binary), whose stdout/stderr are discarded (the library may print) and which reports
//! through a file.  A child killed by a fault signal while in a case is a violation of that
//! case; a child that burns CPU time without finishing one case is a non-termination
//! violation; a child killed from outside is inconclusive (exit 2).
use crate::gen::{fnv, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

thread_local! {
    static TICKS: std::cell::Cell<u64> = std::cell::Cell::new(0);
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"), l.line()))
            .unwrap_or_default();
        let mut m = msg;
        if m.len() > 400 {
            let mut k = 400;
            while !m.is_char_boundary(k) { k -= 1; }
            m.truncate(k);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, m)));
    }));
}

/// Run `f`; `Err` carries the panic message.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// `f` must panic.
pub fn must_panic<T: std::fmt::Debug>(what: &str, f: impl FnOnce() -> T) -> Res {
    match attempt(f) {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{}: expected a panic, got {}", what, clip(format!("{:?}", v), 300))),
    }
}

pub fn clip(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) { k -= 1; }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {} want {}", what, clip(format!("{:?}", got), 600), clip(format!("{:?}", want), 600)))
    }
}
pub fn eqb(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {} want {}", what, crate::gen::hexs(got), crate::gen::hexs(want)))
    }
}
pub fn ensure(ok: bool, what: impl FnOnce() -> String) -> Res {
    if ok { Ok(()) } else { Err(what()) }
}

/// One more distinct input was judged by the oracle inside the current case.
pub fn tick() {
    TICKS.with(|t| t.set(t.get() + 1));
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub desc: String,
    pub trivial: bool,
    pub inner: u64,
    keys: Vec<u64>,
    obs: Vec<(&'static str, String)>,
}
impl Case {
    /// Describe the input (kept for the replay file and as a sample).
    pub fn input(&mut self, d: String) {
        self.keys.push(fnv(d.as_bytes()));
        self.desc = d;
    }
    /// Count a class of behaviour as observed.
    pub fn obs(&mut self, dim: &'static str, v: impl ToString) {
        self.obs.push((dim, v.to_string()));
    }
    /// The case evaluated `n` oracle comparisons of distinct inputs beyond itself.
    pub fn inner(&mut self, n: u64) {
        self.inner += n;
    }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    scale: (u64, u64),
    replay: Option<(String, u64)>,
    out: String,
    prog: Option<fs::File>,
    case_no: u64,
    evals: u64,
    nontrivial: HashSet<u64>,
    inner_distinct: u64,
    phases: BTreeMap<String, u64>,
    obs: BTreeMap<String, BTreeMap<String, u64>>,
    samples: BTreeMap<String, Vec<String>>,
    violations: Vec<Violation>,
    stop: bool,
}
#[derive(Clone, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub phase: String,
    pub idx: u64,
    pub input: String,
    pub detail: String,
}
#[derive(serde::Serialize, serde::Deserialize)]
struct Report {
    evals: u64,
    nontrivial: Vec<u64>,
    inner_distinct: u64,
    phases: BTreeMap<String, u64>,
    obs: BTreeMap<String, BTreeMap<String, u64>>,
    samples: BTreeMap<String, Vec<String>>,
    violations: Vec<Violation>,
    done: bool,
}

impl Ctx {
    /// Tier-dependent count.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough * self.scale.1 } else { quick * self.scale.0 }
    }
    /// Run `n` cases of a phase; cases are sharded over the children.
    pub fn cases(&mut self, phase: &str, n: u64, mut f: impl FnMut(&mut Case) -> Res) {
        if let Some((p, i)) = self.replay.clone() {
            if p == phase {
                self.one(phase, i, &mut f);
            }
            return;
        }
        // interleave so that every shard gets work whatever the phase order
        let off = fnv(phase.as_bytes());
        for idx in 0..n {
            if (idx.wrapping_add(off)) % self.shards != self.shard {
                continue;
            }
            if self.stop {
                return;
            }
            self.one(phase, idx, &mut f);
        }
    }
    fn one(&mut self, phase: &str, idx: u64, f: &mut impl FnMut(&mut Case) -> Res) {
        self.case_no += 1;
        if let Some(p) = &self.prog {
            let s = format!("{:>20} {:>20} {:<40}\n", self.case_no, idx, phase);
            let _ = p.write_at(s.as_bytes(), 0);
        }
        let seed = fnv(format!("{}|{}|{}|{}", self.prop, phase, idx, self.seed).as_bytes());
        let mut c = Case { rng: Rng::new(seed), idx, desc: String::new(), trivial: false, inner: 0, keys: vec![], obs: vec![] };
        TICKS.with(|t| t.set(0));
        let r = attempt(|| f(&mut c));
        c.inner += TICKS.with(|t| t.get());
        self.evals += 1 + c.inner;
        // Ticks that came with an input of their own are told apart by that input, the others by
        // their position inside the case.
        self.inner_distinct += c.inner.saturating_sub(c.keys.len() as u64);
        *self.phases.entry(phase.to_string()).or_insert(0) += 1 + c.inner;
        if !c.trivial {
            let ph = fnv(phase.as_bytes());
            if c.keys.is_empty() {
                c.keys.push(fnv(&idx.to_le_bytes()));
            }
            for k in &c.keys {
                // bounded memory: beyond this the count is a lower bound
                if self.nontrivial.len() < 2_000_000 {
                    self.nontrivial.insert(fnv(&(k ^ ph).to_le_bytes()));
                }
            }
        }
        for (d, v) in c.obs.drain(..) {
            let m = self.obs.entry(d.to_string()).or_default();
            if m.len() < 5000 || m.contains_key(&v) {
                *m.entry(v).or_insert(0) += 1;
            }
        }
        let s = self.samples.entry(phase.to_string()).or_default();
        if s.len() < 2 && !c.desc.is_empty() {
            s.push(clip(c.desc.clone(), 500));
        }
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("unexpected {}", p)),
        };
        if let Some(detail) = err {
            self.violations.push(Violation { phase: phase.to_string(), idx, input: clip(c.desc.clone(), 6000), detail });
            if self.violations.len() >= 4 {
                self.stop = true;
            }
            self.flush(false);
        }
    }
    fn flush(&self, done: bool) {
        if self.out.is_empty() {
            return;
        }
        let r = Report {
            evals: self.evals,
            nontrivial: if done { self.nontrivial.iter().cloned().collect() } else { vec![] },
            inner_distinct: self.inner_distinct,
            phases: self.phases.clone(),
            obs: self.obs.clone(),
            samples: self.samples.clone(),
            violations: self.violations.clone(),
            done,
        };
        let tmp = format!("{}.tmp", self.out);
        fs::write(&tmp, serde_json::to_vec(&r).unwrap()).unwrap();
        fs::rename(&tmp, &self.out).unwrap();
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub shards: u64,
    pub run: fn(&mut Ctx),
    /// Oracle self-check: panics if the oracle is broken (harness error, never a violation).
    pub selftest: fn(),
    /// (dimension, minimum distinct values): fewer observed means inconclusive.
    pub require: &'static [(&'static str, usize)],
    /// Workload multipliers of the quick and thorough tiers.
    pub scale: (u64, u64),
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok()
}
pub fn seed() -> u64 {
    env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn tier() -> String {
    match env("VERIF_TIER").as_deref() {
        Some("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

/// CPU ticks (utime+stime) used so far by a process.
fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}
/// CPU seconds one case may use before it counts as not terminating.
fn hang_cpu_s(phase: &str) -> u64 {
    if tier() != "quick" { 1800 } else if phase.starts_with("huge") { 700 } else { 100 }
}

pub fn main_check(checks: &[Check]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let chk = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown check {:?}", id);
            std::process::exit(2);
        }
    };
    if let Some(out) = env("HV_OUT") {
        child(chk, out);
        return;
    }
    std::process::exit(parent(chk));
}

fn child(chk: &Check, out: String) {
    quiet_panics();
    let shard = env("HV_SHARD").and_then(|s| s.parse().ok()).unwrap_or(0);
    let shards = env("HV_SHARDS").and_then(|s| s.parse().ok()).unwrap_or(1);
    let replay = env("HV_REPLAY").and_then(|s| {
        let k = s.rfind(':')?;
        Some((s[..k].to_string(), s[k + 1..].parse().ok()?))
    });
    let prog = fs::File::create(format!("{}.prog", out)).ok();
    let mut ctx = Ctx {
        prop: chk.id.into(),
        thorough: tier() == "thorough",
        seed: seed(),
        shard,
        shards,
        scale: chk.scale,
        replay,
        out,
        prog,
        case_no: 0,
        evals: 0,
        nontrivial: HashSet::new(),
        inner_distinct: 0,
        phases: BTreeMap::new(),
        obs: BTreeMap::new(),
        samples: BTreeMap::new(),
        violations: vec![],
        stop: false,
    };
    (chk.run)(&mut ctx);
    ctx.flush(true);
}

fn parent(chk: &Check) -> i32 {
    let t0 = Instant::now();
    // Oracle self-check first: its failure is an error of the machinery.
    if catch_unwind(AssertUnwindSafe(|| (chk.selftest)())).is_err() {
        eprintln!("ERROR: oracle self-check failed for {}", chk.id);
        return 2;
    }
    let root = env("HV_ROOT").unwrap_or_else(|| "/verif".into());
    let scratch = std::env::temp_dir().join(format!("hv-{}-{}", chk.id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();
    let shards = if env("HV_REPLAY").is_some() { 1 } else { env("HV_SHARDS_N").and_then(|s| s.parse().ok()).unwrap_or(chk.shards) };
    struct Kid {
        ch: std::process::Child,
        out: String,
        last: String,
        base: u64,
        hung: bool,
        status: Option<std::process::ExitStatus>,
    }
    let mut kids: Vec<Kid> = (0..shards)
        .map(|i| {
            let out = scratch.join(format!("r{}", i)).to_str().unwrap().to_string();
            // HV_WRAP: a program (valgrind and its options) that runs the child
            let mut cmd = match env("HV_WRAP") {
                Some(w) => {
                    let w: Vec<&str> = w.split_whitespace().collect();
                    let mut c = Command::new(w[0]);
                    c.args(&w[1..]).arg(&exe);
                    c
                }
                None => Command::new(&exe),
            };
            let ch = cmd
                .arg(chk.id)
                .env("HV_OUT", &out)
                .env("HV_SHARD", i.to_string())
                .env("HV_SHARDS", shards.to_string())
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn child");
            Kid { ch, out, last: String::new(), base: 0, hung: false, status: None }
        })
        .collect();
    let wall_limit = Duration::from_secs(env("HV_WALL").and_then(|s| s.parse().ok()).unwrap_or(if tier() == "quick" { 780 } else { 6 * 3600 }));
    let mut inconclusive: Option<String> = None;
    loop {
        let mut alive = false;
        for k in kids.iter_mut() {
            if k.status.is_some() {
                continue;
            }
            if let Ok(Some(st)) = k.ch.try_wait() {
                k.status = Some(st);
                continue;
            }
            alive = true;
            let cur = fs::read_to_string(format!("{}.prog", k.out)).unwrap_or_default();
            let cpu = cpu_ticks(k.ch.id()).unwrap_or(0);
            if cur != k.last {
                k.last = cur;
                k.base = cpu;
            } else if !k.last.is_empty() && cpu.saturating_sub(k.base) > hang_cpu_s(k.last.get(42..).unwrap_or("")) * 100 {
                k.hung = true;
                let _ = k.ch.kill();
                k.status = k.ch.wait().ok();
            }
        }
        if !alive {
            break;
        }
        if t0.elapsed() > wall_limit {
            inconclusive = Some("wall-clock limit reached before the workload ended".into());
            for k in kids.iter_mut() {
                if k.status.is_none() {
                    let _ = k.ch.kill();
                    k.status = k.ch.wait().ok();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // Merge.
    let mut evals = 0;
    let mut inner_distinct = 0;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut phases: BTreeMap<String, u64> = BTreeMap::new();
    let mut obs: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut samples: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut violations: Vec<Violation> = vec![];
    for k in &kids {
        let rep: Option<Report> = fs::read(&k.out).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let done = rep.as_ref().map(|r| r.done).unwrap_or(false);
        if let Some(r) = rep {
            evals += r.evals;
            inner_distinct += r.inner_distinct;
            nontrivial.extend(r.nontrivial);
            for (p, n) in r.phases {
                *phases.entry(p).or_insert(0) += n;
            }
            for (d, m) in r.obs {
                let t = obs.entry(d).or_default();
                for (v, n) in m {
                    *t.entry(v).or_insert(0) += n;
                }
            }
            for (p, s) in r.samples {
                let t = samples.entry(p).or_default();
                for x in s {
                    if t.len() < 2 {
                        t.push(x);
                    }
                }
            }
            violations.extend(r.violations);
        }
        if !done {
            let prog = fs::read_to_string(format!("{}.prog", k.out)).unwrap_or_default();
            let w: Vec<&str> = prog.split_whitespace().collect();
            let (phase, idx) = if w.len() >= 3 { (w[2..].join(" "), w[1].parse().unwrap_or(0)) } else { ("?".into(), 0) };
            let sig = k.status.and_then(|s| s.signal());
            let hang = hang_cpu_s(&phase);
            if k.hung {
                violations.push(Violation { phase, idx, input: "see replay".into(), detail: format!("did not finish: one case used more than {} s of CPU time", hang) });
            } else if let Some(s @ (4 | 5 | 6 | 7 | 8 | 11)) = sig {
                if w.len() >= 3 {
                    violations.push(Violation { phase, idx, input: "see replay".into(), detail: format!("process died with signal {} in this case", s) });
                } else {
                    inconclusive.get_or_insert(format!("child died with signal {} before any case", s));
                }
            } else if inconclusive.is_none() {
                inconclusive = Some(format!("child ended early: {:?} at {}", k.status, prog.trim()));
            }
        }
    }
    violations.sort_by(|a, b| (a.phase.clone(), a.idx).cmp(&(b.phase.clone(), b.idx)));
    // Known findings: exact (property, phase, detail-prefix) signatures listed in a committed file.
    let known = load_known(&root, chk.id);
    let mut new: Vec<Violation> = vec![];
    let mut seen_known: BTreeSet<String> = BTreeSet::new();
    for v in violations {
        match known.iter().find(|k| k.matches(&v)) {
            Some(k) => {
                seen_known.insert(k.what.clone());
            }
            None => new.push(v),
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", chk.id, k.what);
    }
    if new.is_empty() && inconclusive.is_none() && env("HV_REPLAY").is_none() {
        for (dim, min) in chk.require {
            let n = obs.get(*dim).map(|m| m.len()).unwrap_or(0);
            if n < *min {
                inconclusive = Some(format!("observed only {} distinct values of {:?}, need {}", n, dim, min));
            }
        }
        if evals == 0 {
            inconclusive = Some("nothing was observed".into());
        }
    }
    let mut obs_json = serde_json::Map::new();
    for (d, m) in &obs {
        let mut o = serde_json::Map::new();
        o.insert("distinct".into(), m.len().into());
        if m.len() <= 24 {
            o.insert("counts".into(), serde_json::to_value(m).unwrap());
        }
        obs_json.insert(d.clone(), o.into());
    }
    let sample_list: Vec<serde_json::Value> = samples
        .iter()
        .flat_map(|(p, s)| s.iter().map(move |x| serde_json::json!({"phase": p, "case": x})))
        .take(40)
        .collect();
    let ev = serde_json::json!({
        "property": chk.id,
        "tier": tier(),
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial.len() as u64 + inner_distinct,
            "rule": chk.rule,
            "samples": sample_list,
            "evaluations_per_phase": phases,
            "observed": obs_json,
            "shards": shards,
            "conclusive": inconclusive.is_none(),
        },
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": new.len(),
    });
    if env("HV_REPLAY").is_none() {
        let evdir = format!("{}/evidence", root);
        let _ = fs::create_dir_all(&evdir);
        let mut f = fs::File::create(format!("{}/{}.json", evdir, chk.id)).unwrap();
        f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    }
    let _ = fs::remove_dir_all(&scratch);
    println!("{}: {} evaluations, {} distinct, {} phases, {} violations, {:.1}s", chk.id, evals, nontrivial.len() as u64 + inner_distinct, phases.len(), new.len(), t0.elapsed().as_secs_f64());
    if !new.is_empty() {
        let rdir = format!("{}/replays", root);
        let _ = fs::create_dir_all(&rdir);
        for (i, v) in new.iter().take(4).enumerate() {
            let path = format!("{}/{}-{}.json", rdir, chk.id, i);
            let j = serde_json::json!({"property": chk.id, "seed": seed(), "tier": tier(), "phase": v.phase, "index": v.idx,
                "input": v.input, "detail": v.detail,
                "rerun": format!("VERIF_SEED={} HV_REPLAY='{}:{}' ./check {}", seed(), v.phase, v.idx, chk.id)});
            let _ = fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            println!("  [{} #{}] {} :: input {}", v.phase, v.idx, clip(v.detail.clone(), 400), clip(v.input.clone(), 300));
            println!("VIOLATION property={} replay={}", chk.id, path);
        }
        return 1;
    }
    if let Some(w) = inconclusive {
        println!("INCONCLUSIVE: {}", w);
        return 2;
    }
    0
}

struct Known {
    what: String,
    phase: String,
    detail: String,
    input: String,
}
impl Known {
    fn matches(&self, v: &Violation) -> bool {
        self.phase == v.phase && self.detail == v.detail && self.input == v.input
    }
}
/// known_findings.jsonl: {"property","status":"known","what","phase","detail","input"} (exact match)
/// or {"status":"fixed",...}, which suppresses nothing.
fn load_known(root: &str, id: &str) -> Vec<Known> {
    let mut out = vec![];
    for l in fs::read_to_string(format!("{}/known_findings.jsonl", root)).unwrap_or_default().lines() {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
            if v["property"] == id && v["status"] == "known" {
                let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
                out.push(Known { what: g("what"), phase: g("phase"), detail: g("detail"), input: g("input") });
            }
        }
    }
    out
}
