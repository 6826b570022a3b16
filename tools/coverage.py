#!/usr/bin/env python3
"""Which library code do the checks reach?  usage: coverage.py [runs] [property...]

Runs each property with a small budget and lists, per source file, the lines
whose control-flow edges no property executed (ignoring standard headers).
A development tool; no check depends on it.
"""
import collections
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

runs = sys.argv[1] if len(sys.argv) > 1 else "500"
props = sys.argv[2:] or sorted(check.RUNS)
exe = check.build()
hit = {}
with tempfile.TemporaryDirectory() as tmp:
    for p in props:
        out = os.path.join(tmp, p)
        n = runs if p != "C15" else str(max(1, int(runs) // 10))
        subprocess.run([exe, "run", "--property", p, "--seed", "1", "--runs", n, "--tier", "quick", "--cap", "600",
                        "--workers", "8", "--out", os.path.join(tmp, "e.json"), "--replay-dir", tmp, "--known", "/dev/null",
                        "--timeout", "60", "--edges", out], stdout=subprocess.DEVNULL)
        with open(out) as f:
            for line in f:
                h, pc = line.split()
                hit[pc] = hit.get(pc, 0) | int(h)
r = subprocess.run(["llvm-symbolizer-18", "--obj=" + exe, "--output-style=GNU", "--no-inlines", "-f"],
                   input="\n".join(hit), stdout=subprocess.PIPE, text=True).stdout.split("\n")
missed = collections.defaultdict(lambda: collections.defaultdict(set))
reached = set()  # a line counts as reached if any copy of it (inlined or not) was
for final in (False, True):
    for i, pc in enumerate(hit):
        fn, loc = r[2 * i], r[2 * i + 1]
        path, line = loc.split(" ")[0].rsplit(":", 1)
        if not os.path.normpath(path).startswith(check.REPO) or not line.isdigit():
            continue
        path = os.path.relpath(path, check.REPO)
        if not final:
            if hit[pc]:
                reached.add((path, line))
        elif not hit[pc] and (path, line) not in reached:
            missed[path][fn.split("(")[0]].add(int(line))
print("edges %d reached %d" % (len(hit), sum(hit.values())))
for path in sorted(missed):
    print(path)
    for fn in sorted(missed[path]):
        print("   " + fn)
        src = open(os.path.join(check.REPO, path)).read().split("\n")
        for n in sorted(missed[path][fn]):
            if n:
                print("      %4d %s" % (n, src[n - 1].strip()))
