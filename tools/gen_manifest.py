#!/usr/bin/env python3
"""Writes MANIFEST.json; run after adding a check."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
DIFF = "runtime monitoring: online differential oracle over panic-, hang- and signal-monitored executions"
TECH = {
    "C11": "runtime monitoring: acceptance monitor over genuine and corrupted AEAD executions",
    "C13": "runtime monitoring: differential oracle and group-law monitor on executed scalar multiplications",
    "C17": "dynamic secret-taint sanitizer: valgrind memcheck with secrets marked undefined (ctgrind), on executed operations",
    "C18": "runtime monitoring: recorded operation histories checked step by step against a vector model",
    "C19": "runtime monitoring: partition and conservation monitors over chunk-visiting executions",
    "C27": "runtime monitoring: schoolbook-reference oracle and ring/division/inverse-law monitors",
    "C28": "runtime monitoring: loader outcomes checked against the generated file contents (including faulted files)",
    "C29": "sanitizers: Miri undefined-behaviour interpreter, AddressSanitizer, MemorySanitizer, ThreadSanitizer and valgrind memcheck over a whole-API workload",
    "C30": "runtime monitoring: repeat/interleave/related-input/thread-stress determinism monitors with captured output descriptors and an LD_PRELOAD monitor of system-facing calls",
    "C33": "runtime monitoring: differential oracle between the native execution, Miri executions of the same code for other (big-endian, 32-bit) targets, and optimised executions",
    "C32": "runtime monitoring: notes, expansions and results recorded from the attribute macros as the compiler executes them, against the same source without annotations",
    "C31": "runtime monitoring: statistical and uniqueness monitors over recorded random draws, sequential and concurrent",
}
NOTE = {
    "default": "Held on every execution generated: seeded, boundary-biased and (where the domain is small) exhaustive inputs, each judged by an oracle independent of the code; inputs not generated are not covered.",
    "C17": "Held on every operation and code path executed at the tested lengths, as compiled here (unoptimized x86-64); other compilers or optimization levels may introduce branches.",
    "C29": "Held on every execution of the whole-API workload under the sanitizers; executions not generated are not covered.",
    "C33": "Held on every operation and input executed on the observed platforms (powerpc quick; s390x and i686 too when thorough) and in one optimised build.",
    "C32": "Held on every generated crate and on the library itself, with the installed nightly compiler (the attributes need unstable interfaces).",
    "C30": "Held on every interleaving the stress runs produced; schedules are sampled, not enumerated.",
}
NA = json.load(open(f"{ROOT}/tools/not_claimed.json"))
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, DIFF),
        "level": "exploration",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(NA), "not claimed")
