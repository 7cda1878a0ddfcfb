#!/usr/bin/env python3
"""Builds the library from /repo's working tree and one property's harness, runs the search, writes the evidence.

  check.py P01                 one property (VERIF_TIER, VERIF_SEED from the environment)
  check.py P01 --replay FILE   run one recorded case again
  check.py --setup             build everything once (warms the compiler cache)
Further arguments after `--` go to the harness binary (--only GROUP, --scale X, --jobs N).
"""
import argparse
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CPPMP4_REPO", "/repo")  # overridden only while developing the checks
BUILD = os.path.join(ROOT, "build" if REPO == "/repo" else "build/alt-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
CCACHE_DIR = os.path.join(ROOT, "build", "ccache")
HARNESS = os.path.join(ROOT, "harness")
CXX = "/usr/bin/clang++"
JOBS = max(2, min(8, os.cpu_count() or 8))
DEFS = ["-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB"]
BASE = ["-std=c++20", "-w", "-O1", "-g1", "-fno-omit-frame-pointer"]
UB = ("signed-integer-overflow,shift,bounds,integer-divide-by-zero,float-cast-overflow,bool,enum,return,"
      "unreachable,vla-bound,null,alignment,pointer-overflow")
FLAVOURS = {
    "asan": ["-fsanitize=address," + UB, "-fno-sanitize-recover=all"],
    "plain": [],
    "tsan": ["-fsanitize=thread"],
    "fuzz": ["-fsanitize=address,fuzzer-no-link," + UB, "-fno-sanitize-recover=all"],
}
LIBS = ["-lfmt", "-lspdlog", "-lpthread"]
COMMON = ["pbt.cpp", "lib.cpp", "model_core.cpp", "model_basic.cpp", "model_tables.cpp", "model_codec.cpp"]


class BuildError(Exception):
    pass


def properties():
    with open(os.path.join(ROOT, "checks.json")) as f:
        return json.load(f)


def compile_one(job):
    src, obj, flags = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = [CXX] + BASE + flags + DEFS + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-c", src, "-o", obj]
    env = dict(os.environ)
    if os.path.exists("/usr/bin/ccache"):
        env["CCACHE_DIR"] = CCACHE_DIR
        env["CCACHE_NOHASHDIR"] = "1"
        env["CCACHE_MAXSIZE"] = "3G"
        env["CCACHE_COMPILERCHECK"] = "content"
        cmd = ["/usr/bin/ccache"] + cmd
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def lib_sources():
    out = []
    for dirpath, _, names in os.walk(os.path.join(REPO, "src")):
        if os.path.relpath(dirpath, os.path.join(REPO, "src")).split(os.sep)[0] == "cli":
            continue
        out += [os.path.join(dirpath, n) for n in names if n.endswith(".cpp")]
    return sorted(out)


def cli_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "cli", "**", "*.cpp"), recursive=True))


def build(targets):
    """targets: list of dicts {name, flavour, sources (relative to harness/), cli: bool, link: []}; returns name -> path"""
    jobs = {}
    links = []
    for t in targets:
        fl = t["flavour"]
        objs = []

        def add(src, base, flavour):
            rel = os.path.relpath(src, base).replace(os.sep, "_")
            tag = hashlib.sha1(src.encode()).hexdigest()[:6]
            obj = os.path.join(BUILD, "obj", flavour, tag + "_" + rel + ".o")
            jobs[obj] = (src, obj, FLAVOURS[flavour])
            objs.append(obj)

        for s in lib_sources():
            add(s, REPO, fl)
        if t.get("cli"):
            for s in cli_sources():
                add(s, REPO, fl)
        for s in t["sources"]:
            add(os.path.join(HARNESS, s), HARNESS, fl)
        links.append((t, objs))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        # the slowest translation units first
        order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0]))
        for f in [ex.submit(compile_one, j) for j in order]:
            f.result()

    def link(item):
        t, objs = item
        out = os.path.join(BUILD, "bin", t["name"])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        flags = [f.replace("fuzzer-no-link,", "") for f in FLAVOURS[t["flavour"]]] + t.get("link", [])
        lld = ["-fuse-ld=lld"] if os.path.exists("/usr/bin/ld.lld") or os.path.exists("/usr/bin/lld") else []
        for extra in (lld, []):
            cmd = [CXX] + BASE + flags + extra + objs + ["-o", out + ".tmp"] + LIBS
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0:
                os.replace(out + ".tmp", out)
                return
        raise BuildError(p.stdout[-6000:])

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(link, x) for x in links]:
            f.result()
    return {t["name"]: os.path.join(BUILD, "bin", t["name"]) for t in targets}


def targets_for(pid, spec):
    ts = [{"name": pid, "flavour": spec.get("flavour", "asan"),
           "sources": COMMON + spec.get("extra_sources", []) + [pid.lower() + ".cpp"]}]
    for x in spec.get("also", []):
        ts.append({"name": x["name"], "flavour": x["flavour"], "sources": COMMON + x["sources"]})
    if spec.get("cli"):
        ts.append({"name": "mp4-tool", "flavour": "asan", "sources": [], "cli": True})
    if spec.get("fuzz"):
        ts.append({"name": pid + "-fuzz", "flavour": "fuzz", "sources": [pid.lower() + "_fuzz.cpp"] + spec.get("fuzz_sources", []),
                   "link": ["-fsanitize=fuzzer"]})
    return ts


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                    "handle_abort=1:symbolize=1:malloc_context_size=12:max_malloc_fill_size=65536:malloc_fill_byte=190",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:die_after_fork=0",
}


def known_findings(pid):
    """(open findings, as {key: text}) of this property, from the committed list"""
    out = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                key, _, text = rest.partition(" ")
                out[key.replace("key=", "", 1)] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a, a.rest = ap.parse_known_args()  # what follows "--" goes to the harness
    props = properties()
    t0 = time.time()
    if a.setup:
        ts, seen = [], set()
        for pid, spec in sorted(props.items()):
            for t in targets_for(pid, spec):
                if t["name"] not in seen:
                    seen.add(t["name"])
                    ts.append(t)
        build(ts)
        print("built %d binaries in %.0f s" % (len(ts), time.time() - t0))
        return 0
    pid = a.property
    spec = props[pid]
    rest = [x for x in a.rest if x != "--"]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    bins = build(targets_for(pid, spec))
    built_s = time.time() - t0
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["CPPMP4_BIN"] = os.path.join(BUILD, "bin")
    env["CPPMP4_REPO"] = REPO
    scratch = os.path.join(BUILD, "scratch", "%s.%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    env["PBT_SCRATCH"] = scratch
    replay_dir = os.path.join(BUILD, "replay")
    stats_path = os.path.join(scratch, "stats.json")
    try:
        if a.replay and a.replay.endswith(".bin"):
            p = subprocess.run([bins[pid + "-fuzz"], "-rss_limit_mb=3000", "-timeout=20", "-detect_leaks=0", a.replay], env=env)
            print("FAILS" if p.returncode else "HOLDS")
            return 1 if p.returncode else 0
        if a.replay:
            group = [x for x in open(a.replay, errors="replace").read().splitlines() if x.startswith("group=")][0][6:]
            name = ([x["name"] for x in spec.get("also", []) if group in x["groups"]] + [pid])[0]
            return subprocess.run([bins[name], "--replay", a.replay] + rest, env=env).returncode
        stats = None
        violation, code = False, 0
        # the property's main harness, then any further ones (built differently)
        also = spec.get("also", [])
        t1 = time.time()
        for name in [x["name"] for x in also if x.get("first")] + [pid] + [x["name"] for x in also if not x.get("first")]:
            cmd = [bins[name], "--tier", tier, "--seed", str(seed), "--out", stats_path, "--replay-dir", replay_dir,
                   "--jobs", str(JOBS)]
            left = max(60, spec.get("max_seconds", 560) - (time.time() - t1))
            cmd += ["--max-seconds", str(left if tier == "quick" else 36000)] + rest
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, errors="replace")
            sys.stdout.write(p.stdout)
            sys.stdout.flush()
            try:
                more = json.load(open(stats_path))
                os.remove(stats_path)
            except Exception as e:  # the harness itself broke
                print("harness %s ended with %s and left no statistics: %s" % (name, p.returncode, e))
                return 2
            stats = merge_stats(stats, more)
            violation = p.returncode == 1 and ("VIOLATION property=%s " % pid) in p.stdout
            code = code or p.returncode
            if violation:
                break
        fuzz = None
        if not violation and spec.get("fuzz"):
            fuzz, msg = run_fuzz(pid, spec, bins, env, tier, seed, scratch, replay_dir)
            if msg:
                print(msg)
                violation = True
        for key, text in known_findings(pid).items():
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        write_evidence(pid, tier, seed, stats, fuzz, time.time() - t0, built_s)
        if violation:
            return 1
        return 0 if code == 0 else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def merge_stats(a, b):
    if a is None:
        return b
    for k in ("evaluations", "inner_executions", "nontrivial", "distinct_nontrivial"):
        a[k] += b[k]
    a["timed_out"] = a["timed_out"] or b["timed_out"]
    a["groups"].update(b["groups"])
    a["samples"] += b["samples"]
    a["notes"] += b["notes"]
    a["rule"] += " " + b["rule"]
    a["assumptions"] = a.get("assumptions", []) + b.get("assumptions", [])
    return a


def run_fuzz(pid, spec, bins, env, tier, seed, scratch, replay_dir):
    """coverage-guided search; each worker has its own seed and corpus"""
    corpus = os.path.join(scratch, "seeds")
    os.makedirs(corpus, exist_ok=True)
    subprocess.run([bins[pid], "--emit-seeds", corpus], env=env, check=False, stdout=subprocess.DEVNULL)
    f = spec["fuzz"][tier]
    procs = []
    for w in range(JOBS):
        d = os.path.join(scratch, "fuzz%d" % w)
        os.makedirs(os.path.join(d, "corpus"), exist_ok=True)
        cmd = [bins[pid + "-fuzz"], "-runs=%d" % f["runs"], "-max_total_time=%d" % f["seconds"], "-seed=%d" % (seed * 64 + w + 1),
               "-max_len=%d" % f.get("max_len", 4096), "-rss_limit_mb=3000", "-timeout=20", "-print_final_stats=1",
               "-artifact_prefix=" + d + "/", "-use_value_profile=%d" % (w % 2), "-detect_leaks=0",
               os.path.join(d, "corpus"), corpus]
        log = open(os.path.join(d, "log"), "w")
        procs.append((d, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=log)))
    execs = edges = 0
    msg = None
    for d, p in procs:
        rc = p.wait()
        text = open(os.path.join(d, "log"), errors="replace").read()
        for line in text.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
            if " cov: " in line:
                try:
                    edges = max(edges, int(line.split(" cov: ")[1].split()[0]))
                except ValueError:
                    pass
        if rc != 0 and msg is None:
            arts = sorted(x for x in glob.glob(d + "/*-*") if os.path.isfile(x) and not x.endswith("log"))
            for art in arts:
                confirmed = 0
                for _ in range(3):
                    q = subprocess.run([bins[pid + "-fuzz"], "-rss_limit_mb=3000", "-timeout=20", "-detect_leaks=0", art], env=env,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
                    confirmed += q.returncode != 0
                if confirmed == 3:
                    os.makedirs(replay_dir, exist_ok=True)
                    small = os.path.join(d, "minimized")
                    subprocess.run([bins[pid + "-fuzz"], "-minimize_crash=1", "-max_total_time=20", "-detect_leaks=0",
                                    "-rss_limit_mb=3000", "-timeout=20", "-exact_artifact_path=" + small, art], env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    src = small if os.path.exists(small) else art
                    dst = os.path.join(replay_dir, "%s-fuzz-%s.bin" % (pid, hashlib.sha1(open(src, "rb").read()).hexdigest()[:16]))
                    shutil.copy(src, dst)
                    tail = [x for x in q.stderr.splitlines() if x.strip()][:40]
                    msg = "\n".join(tail) + "\nVIOLATION property=%s replay=%s" % (pid, dst)
                    break
    return {"executions": execs, "edge_coverage": edges, "workers": JOBS}, msg


def write_evidence(pid, tier, seed, stats, fuzz, wall, built_s):
    cov = {
        "evaluations": stats["evaluations"] + (fuzz["executions"] if fuzz else 0),
        "distinct_nontrivial": stats["distinct_nontrivial"],
        "rule": stats["rule"],
        "samples": stats["samples"] or ["(no sample recorded)"],
        "nontrivial": stats["nontrivial"],
        "inner_executions": stats["inner_executions"],
        "groups": stats["groups"],
        "stopped_by_time": stats["timed_out"],
        "notes": stats["notes"],
        "build_s": round(built_s, 1),
    }
    if fuzz:
        cov["coverage_guided"] = fuzz
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(wall, 2), "assumptions": stats.get("assumptions", [])}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("build failed:\n%s" % e)
        sys.exit(2)
