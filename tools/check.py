#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs one check.

usage: check.py <property> [--tier quick|thorough] [--runs N] [--seed N] ...
       check.py --build
Exit: 0 held, 1 violation (with a VIOLATION line), anything else: error.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
COMMON = ["-std=c++17", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=address",
          "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(REPO, "include")]
LIB = COMMON + ["-w", "-fsanitize-coverage=trace-pc-guard,pc-table"]
HARNESS = COMMON + ["-Wall", "-Wno-unused-function", "-Wno-delete-non-abstract-non-virtual-dtor",
                    "-Wno-delete-abstract-non-virtual-dtor", "-I" + os.path.join(VERIF, "sim")]

# property: (quick runs, thorough runs)
RUNS = {
    "C01": (10000, 150000), "C02": (10000, 150000), "C03": (25000, 500000), "C04": (25000, 400000),
    "C05": (25000, 400000), "C06": (10000, 140000), "C07": (8000, 130000), "C08": (8000, 120000),
    "C09": (6000, 100000), "C10": (20000, 350000), "C11": (20000, 350000), "C12": (10000, 140000),
    "C13": (20000, 300000), "C14": (12000, 240000), "C15": (1200, 14000),
    "C16": (25000, 400000), "C17": (14000, 150000), "C18": (25000, 400000),
}
CAP = {"quick": 150, "thorough": 600}


def file_hash(path, cache={}):
    if path not in cache:
        try:
            with open(path, "rb") as f:
                cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            cache[path] = "missing"
    return cache[path]


def compile_one(src, obj, flags):
    dep, stamp = obj + ".d", obj + ".stamp"
    key_flags = hashlib.sha256(" ".join(flags).encode()).hexdigest()

    def key():
        try:
            with open(dep) as f:
                text = f.read()
        except OSError:
            return None
        words = text.replace("\\\n", " ").split(":", 1)[1].split()
        return key_flags + hashlib.sha256("".join(file_hash(w) for w in words).encode()).hexdigest()

    if os.path.exists(obj) and os.path.exists(stamp):
        with open(stamp) as f:
            if f.read() == key():
                return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run([CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s:\n%s" % (src, r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(key() or "")
    return None


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        for src in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cc"), recursive=True)):
            rel = os.path.relpath(src, os.path.join(REPO, "src"))
            jobs.append((src, os.path.join(BUILD, "lib", rel + ".o"), LIB))
        for src in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cc"))):
            jobs.append((src, os.path.join(BUILD, "sim", os.path.basename(src) + ".o"), HARNESS))
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        workers = max(2, min(10, os.cpu_count() or 4))
        with concurrent.futures.ThreadPoolExecutor(workers) as pool:
            errors = [e for e in pool.map(lambda j: compile_one(*j), jobs) if e]
        if errors:
            print("BUILD FAILED\n" + "\n".join(errors[:3]), file=sys.stderr)
            sys.exit(5)
        objs = [j[1] for j in sorted(jobs)]
        exe = os.path.join(BUILD, "simulator")
        key = hashlib.sha256("".join(o + open(o + ".stamp").read() for o in objs).encode()).hexdigest()
        stamp = exe + ".stamp"
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
            tmp = exe + ".new"
            r = subprocess.run([CXX, "-fsanitize=address", "-g"] + objs + ["-o", tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print("LINK FAILED\n" + r.stdout[-4000:], file=sys.stderr)
                sys.exit(5)
            os.replace(tmp, exe)
            with open(stamp, "w") as f:
                f.write(key)
        return exe


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        print(build())
        return 0
    prop = args[0]
    opts = dict(zip(args[1::2], args[2::2]))
    tier = opts.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = opts.get("--seed") or os.environ.get("VERIF_SEED") or "1"
    exe = build()
    quick, thorough = RUNS[prop]
    runs = opts.get("--runs") or str(quick if tier == "quick" else thorough)
    cap = opts.get("--cap") or str(CAP[tier])
    evidence = os.path.join(VERIF, "evidence")
    os.makedirs(evidence, exist_ok=True)
    out = opts.get("--out") or os.path.join(evidence, prop + ".json")
    cmd = [exe, "run", "--property", prop, "--seed", seed, "--runs", runs, "--tier", tier,
           "--cap", cap, "--workers", opts.get("--workers", str(min(8, os.cpu_count() or 4))),
           "--out", out, "--replay-dir", os.path.join(VERIF, "build", "replay"),
           "--known", os.path.join(VERIF, "known-findings.txt"),
           "--timeout", "60" if tier == "quick" else "120"]
    env = dict(os.environ)
    symbolizer = subprocess.run(["sh", "-c", "command -v llvm-symbolizer || command -v llvm-symbolizer-18"],
                                stdout=subprocess.PIPE, text=True).stdout.strip()
    if symbolizer:
        env["ASAN_SYMBOLIZER_PATH"] = symbolizer
    return subprocess.run(cmd, env=env).returncode


if __name__ == "__main__":
    sys.exit(main())
