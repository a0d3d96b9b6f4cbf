#!/usr/bin/env python3
"""Cross-checks the oracles against hashlib and the openssl CLI.  Usage: xcheck < output-of-bin-xcheck"""
import sys, hashlib, hmac, subprocess, base64
n = {}
def ossl(args, data): return subprocess.run(["openssl"] + args, input=data, capture_output=True).stdout
for l in sys.stdin:
    f = l.rstrip("\n").split(" ")
    kind, out = f[0], f[-1]
    ins = [bytes.fromhex(x) for x in f[1].split(":")]
    if kind == "hmac": w = hmac.new(ins[0], ins[1], "sha256").hexdigest()
    elif kind.startswith("shake"): w = hashlib.new(kind.replace("shake","shake_"), ins[0]).hexdigest(len(out)//2)
    elif kind == "blake2b": w = hashlib.blake2b(ins[0]).hexdigest()
    elif kind.startswith("sha"): w = hashlib.new(kind, ins[0]).hexdigest()
    elif kind.endswith("-ctr") or kind == "chacha20":
        w = ossl(["enc", "-" + kind, "-K", ins[0].hex(), "-iv", ins[1].hex()], ins[2]).hex()
    elif kind == "poly1305":
        w = ossl(["mac", "-macopt", "hexkey:" + ins[0].hex(), "-in", "-", "POLY1305"], ins[1]).decode().strip().lower()
    elif kind == "gmac128":
        w = ossl(["mac", "-cipher", "AES-128-GCM", "-macopt", "hexkey:" + ins[0].hex(), "-macopt", "hexiv:" + ins[1].hex(), "-in", "-", "GMAC"], ins[2]).decode().strip().lower()
    elif kind == "x25519pub":
        der = bytes.fromhex("302e020100300506032b656e04220420") + ins[0]
        w = ossl(["pkey", "-inform", "DER", "-pubout", "-outform", "DER"], der)[-32:].hex()
    assert w == out, (kind, f[1], out, w)
    n[kind] = n.get(kind, 0) + 1
print("ok", n)
