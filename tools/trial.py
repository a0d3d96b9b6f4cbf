#!/usr/bin/env python3
"""Development aid: try a change to the code in a scratch copy.

  trial.py SLOT (PATCH | -R COMMIT... | -) [--tests] [--demo DIR] [--checks C01,C02 | all] [--seed N] [--tier T]

Copies /repo to /tmp/trial/SLOT/repo (keeping the build products between runs), applies the patch or
reverts the commits, and runs the project's tests, a demonstration (before and after) and checks there.
/repo itself is never touched.
"""
import argparse, json, os, re, subprocess, sys, time
ap = argparse.ArgumentParser()
ap.add_argument("slot"); ap.add_argument("patch")
ap.add_argument("commits", nargs="*")
ap.add_argument("-R", action="store_true")
ap.add_argument("--tests", action="store_true"); ap.add_argument("--demo"); ap.add_argument("--checks", default="")
ap.add_argument("--seed", default="1"); ap.add_argument("--tier", default="quick"); ap.add_argument("--nodemobase", action="store_true")
a = ap.parse_args()
S = f"/tmp/trial/{a.slot}"
os.makedirs(S, exist_ok=True)
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def sync():
    r = sh(f"rsync -rlpc --delete --exclude=/target --exclude=/Cargo.lock /repo/ {S}/repo/; mkdir -p {S}/repo/target; cp -an /repo/Cargo.lock {S}/repo/ 2>/dev/null; [ -d {S}/repo/target/debug ] || cp -a /repo/target/. {S}/repo/target/; cd {S}/repo && git reset -q --hard")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUST_TEST_THREADS="4", RUST_BACKTRACE="0")
sync()
def demo(label):
    b = sh(f"cd {S}/repo && cargo test --workspace --no-run --offline", env=ENV)
    if b.returncode: print(f"[{label}] build FAILED", b.stderr[-1500:]); return
    d = f"{S}/demo"
    sh(f"rm -rf {d}; cp -a {a.demo} {d}; rm -f {d}/*.diff {d}/meta.json")
    t = time.time()
    r = sh(f"cd {S}/repo && timeout 300 bash {d}/demo.sh", env=ENV)
    print(f"[{label}] demo exit {r.returncode} in {time.time()-t:.0f}s", (r.stdout + r.stderr)[-300:].replace("\n", " | "))
    print("   git status:", sh(f"cd {S}/repo && git status --short").stdout.strip()[:200])
if a.demo and not a.nodemobase: demo("unchanged")
if a.R:
    for c in [a.patch] + a.commits:
        r = sh(f"cd {S}/repo && git revert -n {c}")
        if r.returncode: print("REVERT FAILED", c, r.stderr[-400:]); sys.exit(3)
elif a.patch != "-":
    r = sh(f"cd {S}/repo && git apply {os.path.abspath(a.patch)}")
    if r.returncode: print("PATCH FAILED", r.stderr); sys.exit(3)
if a.demo: demo("changed")
if a.tests:
    r = sh(f"cd {S}/repo && cargo test --workspace --no-fail-fast --offline > {S}/test.log 2>&1; python3 /opt/vp/results.py {S}/out.json cargo:{S}/test.log", env=ENV)
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base["stable"]
    got = json.load(open(f"{S}/out.json"))
    gp = set(got.get("passed", []))
    miss = [t for t in base if t not in gp]
    print(f"tests: {len(gp)} passed, baseline missing: {miss[:5]} ({len(miss)})")
if a.checks:
    sh(f"rsync -rlpc --delete --exclude=/harness/target --exclude=.git --exclude=/seeded --exclude=/evidence --exclude=/replays /verif/ {S}/verif/; mkdir -p {S}/verif/evidence; sed -i 's#\"/repo/#\"{S}/repo/#' {S}/verif/harness/Cargo.toml")
    ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")] if a.checks == "all" else a.checks.split(",")
    for i in ids:
        t = time.time()
        r = sh(f"cd {S}/verif && ./check {i}", env=dict(os.environ, VERIF_SEED=a.seed, VERIF_TIER=a.tier))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        o = (r.stdout + r.stderr).strip().splitlines()
        tail = "" if r.returncode == 0 else (" || ".join(x[:260] for x in o[:3]) )
        print(f"{i}: exit {r.returncode} {len(v)} violation lines {time.time()-t:.0f}s {tail}", flush=True)
