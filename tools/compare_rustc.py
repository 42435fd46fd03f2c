#!/usr/bin/env python3
"""Compares data/golden.txt (what rustc 1.86.0 prints) with what an installed rustc prints now, and
lists each difference. Used by no check: compilers differ from version to version, and the list of
differences is for a reader to judge. compare_rustc.py [toolchain...]"""
import os, subprocess, sys

here = os.path.dirname(os.path.abspath(__file__))
gold = {}
for l in open(os.path.join(here, "..", "data", "golden.txt")):
    f = l.rstrip("\n").split("|")
    if len(f) == 11:
        gold[f[0]] = f


def row(t, chain):
    o = subprocess.run(["rustc", "+" + chain, "--print", "cfg", "--target", t], capture_output=True, text=True).stdout
    kv = [l.split("=", 1) for l in o.splitlines() if "=" in l]
    one = lambda k, absent: next((v.strip('"') for x, v in kv if x == k and v.strip('"') != absent), "~")
    many = lambda k: sorted(v.strip('"') for x, v in kv if x == k)
    a = sorted(many("target_has_atomic"), key=lambda s: (s == "ptr", int(s) if s.isdigit() else 0))
    return [t, one("target_os", "none"), one("target_abi", ""), one("target_arch", ""), one("target_env", ""), one("target_vendor", ""),
            "{" + ", ".join(many("target_family")) + "}", one("target_pointer_width", ""), one("target_endian", ""), "{" + ", ".join(a) + "}", one("panic", "")]


names = ["triple", "os", "abi", "arch", "env", "vendor", "families", "pointer_width", "endian", "atomics", "panic"]
for chain in sys.argv[1:] or ["stable", "nightly"]:
    print(subprocess.run(["rustc", "+" + chain, "--version"], capture_output=True, text=True).stdout.strip())
    have = subprocess.run(["rustc", "+" + chain, "--print", "target-list"], capture_output=True, text=True).stdout.split()
    print("  no longer there:", " ".join(t for t in gold if t not in have))
    diffs, same = {}, 0
    for t in have:
        if t not in gold:
            continue
        r = row(t, chain)
        d = [(n, a, b) for n, a, b in zip(names, gold[t], r) if a != b]
        same += not d
        for x in d:
            diffs.setdefault(x, []).append(t)
    print(f"  the same: {same} of {len(gold)}")
    for (n, a, b), ts in sorted(diffs.items()):
        print(f"  {n} {a} -> {b}: {len(ts)} targets: {' '.join(ts)}")
