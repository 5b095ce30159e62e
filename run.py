#!/usr/bin/env python3
"""Build and run the property-based test(s) of one property.

usage: run.py PROPERTY            explore (tier and seed from VERIF_TIER, VERIF_SEED)
       run.py PROPERTY --replay F replay a saved case
       run.py --setup             check the toolchain
Development only: VERIF_REPO (tree under test), VERIF_BUDGET (seconds), VERIF_LAW (one law), VERIF_KEEP.
"""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULES = ["LitlTypes", "LitlContainer", "LitlRaster", "LitlTransforms", "LitlRun", "LitlIo"]
CXX = "g++-9"
FLAGS = [
    "-std=c++14", "-O0", "-g1", "-DNDEBUG", "-w", "-pipe", "-fno-sanitize-recover=all",
]
SANITIZERS = "address,signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return,bool,enum"
# Seconds of exploration per tier.
BUDGET = {"quick": 14.0, "thorough": 240.0}


def config(prop):
    with open(os.path.join(HERE, "harness", "config.json")) as f:
        return json.load(f).get(prop, {})


def compile_one(args):
    src, obj, flags, inc = args
    cmd = [CXX] + FLAGS + flags + inc + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, " ".join(cmd), p.stdout


def build(prop, scratch):
    conf = config(prop)
    inc = ["-I" + os.path.join(HERE, "harness")]
    inc += ["-I" + os.path.join(REPO, m) for m in MODULES]
    inc += ["-isystem", "/usr/include/eigen3"]
    sanitizers = ["-fsanitize=" + conf.get("sanitizers", SANITIZERS)]
    flags = sanitizers + conf.get("flags", [])
    sources = sorted(glob.glob(os.path.join(HERE, "harness", prop + "*.cpp")))
    if not sources:
        print("no harness for", prop, file=sys.stderr)
        sys.exit(2)
    sources.append(os.path.join(HERE, "harness", "engine.cpp"))
    sources += [os.path.join(REPO, s) for s in conf.get("repo_sources", [])]
    # A harness is compiled in several parts (PBT_PART), to use all of the cores.
    parts = conf.get("parts", 1)
    jobs = []
    for i, s in enumerate(sources):
        harness = os.path.basename(s).startswith(prop)
        for k in range(parts if harness else 1):
            obj = os.path.join(scratch, "%02d_%d_%s.o" % (i, k, os.path.basename(s)))
            jobs.append((s, obj, flags + ["-DPBT_PART=%d" % k] + ([] if harness else ["-O1"]), inc))
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as pool:
        results = list(pool.map(compile_one, jobs))
    # A part which does not compile gives no answer, yet the others may.
    complete = True
    objs = []
    for (rc, cmd, out), job in zip(results, jobs):
        if rc == 0:
            objs.append(job[1])
            continue
        print("COMPILE ERROR\n" + cmd + "\n" + out[:6000], file=sys.stderr)
        complete = False
        if not os.path.basename(job[0]).startswith(prop) or parts == 1:
            sys.exit(2)
    if len(objs) < len(sources):
        sys.exit(2)
    exe = os.path.join(scratch, prop)
    cmd = [CXX] + FLAGS + sanitizers + objs + conf.get("libs", []) + ["-lpthread", "-o", exe]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("LINK ERROR\n" + " ".join(cmd) + "\n" + p.stdout[:6000], file=sys.stderr)
        sys.exit(2)
    return exe, complete


def known_findings(prop):
    """Lines: 'KNOWN property=Cxx law=NAME tape=1,2,3 | what fails'; lines 'fixed: ...' suppress nothing."""
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if not os.path.exists(path):
        return out
    for line in open(path):
        if not line.startswith("KNOWN property=%s " % prop):
            continue
        head, what = line.split("|", 1)
        fields = dict(x.split("=", 1) for x in head.split()[1:])
        out.append((fields["law"], fields["tape"].replace(",", " "), what.strip()))
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        subprocess.check_call([CXX, "--version"], stdout=subprocess.DEVNULL)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    evidence = os.path.join(HERE, "evidence")
    replays = os.path.join(evidence, "replays")
    os.makedirs(replays, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        exe, complete = build(prop, scratch)
        built = time.time()
        env = dict(os.environ)
        env["VERIF_SCRATCH"] = scratch
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            p = subprocess.run([exe, "--replay", sys.argv[3], "--scratch", scratch], env=env, cwd=scratch)
            if p.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(sys.argv[3])))
            return p.returncode
        replay = os.path.join(replays, "%s-%s-%d.txt" % (prop, tier, seed))
        if os.path.exists(replay):
            os.remove(replay)
        result = os.path.join(scratch, "result.json")
        budget = float(os.environ.get("VERIF_BUDGET", config(prop).get("budget", {}).get(tier, BUDGET[tier])))
        cmd = [exe, "--property", prop, "--seed", str(seed), "--budget", str(budget), "--jobs", os.environ.get("VERIF_JOBS", "8"),
               "--scratch", scratch, "--out", result, "--replay-out", replay, "--min", str(config(prop).get("min", 200))]
        if config(prop).get("reproducible"):
            cmd += ["--reproducible", "required"]
        if os.environ.get("VERIF_LAW"):
            cmd += ["--law", os.environ["VERIF_LAW"]]
        p = subprocess.run(cmd, env=env, cwd=scratch)
        if p.returncode not in (0, 1):
            print("engine error: exit %d" % p.returncode, file=sys.stderr)
            return 2
        with open(result) as f:
            r = json.load(f)
        failed = p.returncode == 1
        # Known findings: replay the listed cases, report those which still fail.
        known = []
        for i, (law, tape, what) in enumerate(known_findings(prop)):
            path = os.path.join(scratch, "known%d.txt" % i)
            with open(path, "w") as f:
                f.write("property: %s\nlaw: %s\ntape: %s\n" % (prop, law, tape))
            q = subprocess.run([exe, "--replay", path, "--scratch", scratch], env=env, cwd=scratch,
                               stdout=subprocess.DEVNULL)
            if q.returncode == 1:
                known.append(what)
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
        with open(os.path.join(HERE, "harness", "rules.json")) as f:
            conf = json.load(f).get(prop, {})
        samples = []
        for name, l in r["laws"].items():
            for s in l["samples"][:1]:
                samples.append("[%s] %s" % (name, s))
        if failed:
            samples.insert(0, "[%s] FAILED: %s" % (r["law"], r["case"]))
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": r["evaluations"],
                "distinct_nontrivial": r["distinct_nontrivial"],
                "rule": conf.get("rule", ""),
                "samples": samples,
                "laws": {
                    k: {"evaluations": v["evaluations"], "nontrivial": v["nontrivial"], "labels": v["labels"]}
                    for k, v in r["laws"].items()
                },
                "known_findings": known,
            },
            "assumptions": conf.get("assumptions", []),
            "wall_s": round(time.time() - start, 2),
            "violations": 1 if failed else 0,
        }
        with open(os.path.join(evidence, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (
            prop, r["evaluations"], r["distinct_nontrivial"], built - start, time.time() - start))
        if failed:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        if not complete:
            print("%s: part of the harness does not compile" % prop, file=sys.stderr)
            return 2
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
