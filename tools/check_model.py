#!/usr/bin/env python3
"""Compares the reference model of the grammar with a real rustc.

All sequences of up to N tokens whose parentheses are balanced are given to rustc as
#[cfg(TEXT)] compile_error!(..), one per line, under all 8 assignments of a, b and k = "v".
A line with an error other than its own is one which rustc rejects; its own error says that the
expression is true. Not a check: it looks at the model only, and depends on the rustc which
happens to be installed.
Up to N tokens all sequences, up to M tokens all predicates and what differs from them by one token.
Usage: check_model.py PATH_OF_MC [N [M]]
"""
import itertools, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

MC = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 6
M = int(sys.argv[3]) if len(sys.argv) > 3 else 10
TOKENS = ["a", "b", "k", "=", '"v"', "all", "any", "not", "(", ")", ","]


def balanced(ts):
    d = 0
    for t in ts:
        d += (t == "(") - (t == ")")
        if d < 0:
            return False
    return d == 0


def word(ts):
    """rustc has no keywords: all = "v" is a predicate like any other. cfg-expr does as cargo
    does, where these words are functions only"""
    return any(t in ("all", "any", "not") and ts[i + 1:i + 2] != ("(",) for i, t in enumerate(ts))


def trees(n, memo={}):
    """predicates of exactly n tokens"""
    if n not in memo:
        r = {1: [("a",), ("b",)], 3: [("k", "=", '"v"')]}.get(n, [])
        for f in ("all", "any", "not"):
            for l in lists(n - 3):
                r.append((f, "(") + l + (")",))
        memo[n] = r
    return memo[n]


def lists(n, memo={}):
    """lists of exactly n tokens, with and without a trailing comma"""
    if n < 0:
        return []
    if n not in memo:
        r = [()] if n == 0 else []
        for k in range(1, n + 1):
            for t in trees(k):
                if k == n:
                    r.append(t)
                else:
                    r += [t + (",",) + l for l in lists(n - k - 1)]
        memo[n] = r
    return memo[n]


def texts():
    seen = set()
    for n in range(N + 1):
        for ts in itertools.product(TOKENS, repeat=n):
            if balanced(ts) and not word(ts):
                seen.add(ts)
    # deeper: predicates (and ill-formed not(..)) and all their neighbours by one token
    for n in range(N + 1, M + 1):
        for ts in trees(n):
            seen.add(ts)
            for i in range(n + 1):
                for x in TOKENS:
                    seen.add(ts[:i] + (x,) + ts[i:])
                    seen.add(ts[:i] + (x,) + ts[i + 1:])
                seen.add(ts[:i] + ts[i + 1:])
    return [" ".join(ts) for ts in sorted(seen) if balanced(ts) and not word(ts)]


def rustc(part, cfgs, dir, name):
    f = os.path.join(dir, name + ".rs")
    with open(f, "w") as o:
        o.write("#![allow(unexpected_cfgs)]\n")
        for t in part:
            o.write(f'#[cfg({t})] compile_error!("TRUE");\n')
    a = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-o", f + ".o",
         "--error-format=json", f]
    for c in cfgs:
        a += ["--cfg", c]
    p = subprocess.run(a, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    bad, true = set(), set()
    for l in p.stderr.splitlines():
        m = json.loads(l)
        for s in m["spans"]:
            if s["is_primary"] and m["level"] == "error":
                (true if m["message"] == "TRUE" else bad).add(s["line_start"] - 2)
    os.remove(f)
    return bad, true


def main():
    all_ = texts()
    v = subprocess.run([MC, "model"], input="\n".join(all_) + "\n", stdout=subprocess.PIPE, text=True, check=True)
    model = v.stdout.split("\n")[:-1]
    assert len(model) == len(all_)
    diffs = []
    with tempfile.TemporaryDirectory() as d, ThreadPoolExecutor(8) as ex:
        size = 3000
        parts = [range(i, min(i + size, len(all_))) for i in range(0, len(all_), size)]

        def accepts(i):
            bad, _ = rustc([all_[k] for k in parts[i]], [], d, f"p{i}")
            return bad

        ok = []
        for i, bad in zip(range(len(parts)), ex.map(accepts, range(len(parts)))):
            for j, k in enumerate(parts[i]):
                if (j in bad) != (model[k] == "-"):
                    diffs.append((all_[k], "rejected" if j in bad else "accepted", model[k]))
                elif j not in bad:
                    ok.append(k)
        names = ["a", "b", 'k="v"']
        jobs = [(ok[i:i + size], m) for i in range(0, len(ok), size) for m in range(8)]

        def value(j):
            part, m = j
            cfgs = [n for b, n in enumerate(names) if m >> b & 1]
            bad, true = rustc([all_[k] for k in part], cfgs, d, f"v{part[0]}-{m}")
            assert not bad
            return true

        for (part, m), true in zip(jobs, ex.map(value, jobs)):
            for j, k in enumerate(part):
                if (j in true) != bool(int(model[k], 16) >> m & 1):
                    diffs.append((all_[k], m, j in true))
    print(f"{len(all_)} texts, {len(ok)} accepted by both, 8 assignments each, {len(diffs)} differences")
    for x in diffs[:60]:
        print("  ", x)
    sys.exit(1 if diffs else 0)


main()
