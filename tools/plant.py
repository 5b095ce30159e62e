#!/usr/bin/env python3
"""Development only: confirm planted bugs (seeded/ID) in a scratch copy of /repo, and run the check(s) against them.

usage: plant.py new ID PROPERTY FILE < spec   (see below)
       plant.py check ID...                   (unpatched demo, build, stable tests, patched demo, check)
The spec on stdin has sections: @@old, @@new (replaced text), @@needs, @@breaks, @@demo (body of demo.cpp).
Several @@old/@@new pairs are allowed; a "@@file NAME" changes the file.
"""
import json, os, subprocess, sys, time
W = os.environ.get("PLANT_TREE", "/tmp/sw")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# Run with cwd at the root of the repository: 0 if the property holds on the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
inc=""
for m in LitlTypes LitlContainer LitlRaster LitlTransforms LitlRun LitlIo; do inc="$inc -I$PWD/$m"; done
g++-9 -std=c++14 -O1 -w $inc -isystem /usr/include/eigen3 "$here/demo.cpp" %s -o "$tmp/demo" %s || exit 2
cd "$tmp" && timeout 60 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q --detach FETCH_HEAD" % (W, W, W))


def new(id_, prop, file_):
    reset()
    text = sys.stdin.read()
    sections = []
    for line in text.split("\n"):
        if line.startswith("@@"):
            sections.append([line[2:].strip(), []])
        else:
            sections[-1][1].append(line)
    f, old, d = file_, None, {}
    for name, lines in sections:
        body = "\n".join(lines).strip("\n")
        if name.startswith("file "):
            f = name[5:]
        elif name == "old":
            old = body
        elif name == "new":
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("old text found %d times in %s:\n%s" % (s.count(old), f, old))
                return 1
            open(p, "w").write(s.replace(old, body))
        else:
            d[name] = body
    p = os.path.join(S, id_)
    os.makedirs(p, exist_ok=True)
    open(os.path.join(p, "patch.diff"), "w").write(sh("git -C %s diff" % W).stdout)
    open(os.path.join(p, "demo.cpp"), "w").write(d["demo"] + "\n")
    libs = d.get("libs", "")
    srcs = " ".join('"$PWD/%s"' % s for s in d.get("sources", "").split())
    open(os.path.join(p, "demo.sh"), "w").write(DEMO % (srcs, libs))
    os.chmod(os.path.join(p, "demo.sh"), 0o755)
    with open(os.path.join(p, "meta.json"), "w") as g:
        json.dump({"property": prop, "needs": " ".join(d["needs"].split()), "what_it_breaks": " ".join(d["breaks"].split())}, g, indent=1)
        g.write("\n")
    reset()
    return 0


def build_test():
    env = "export CC=gcc-9 CXX=g++-9; "
    b = sh(env + "cmake -S /opt/vp/driver -B %s/_build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wall >/dev/null && ninja -C %s/_build -j8" % (W, W, W))
    if b.returncode:
        return "BUILD FAILS\n" + "\n".join(l for l in b.stdout.split("\n") if "error" in l)[:1500]
    run = W + "/_build/run"
    sh("rm -rf " + run)
    sh("mkdir -p " + run)
    names = open(W + "/_build/tests.txt").read().split()
    for n in names:
        sh("mkdir -p %s/%s && cd %s/%s && timeout 300 %s/_build/bin/%s --logger=JUNIT,all,report.xml > output.txt 2>&1" % (run, n, run, n, W, n))
    sh("python3 /opt/vp/results.py %s/out.json 'junit:%s/*/report.xml'" % (run, run))
    r = json.load(open(run + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("stable_passing") or base.get("passed") or [v for v in base.values() if isinstance(v, list)][0]
    lost = sorted(set(stable) - set(r["passed"]))
    return "TESTS LOST " + str(lost[:5]) if lost else ""


def check(id_, only=False):
    p = os.path.join(S, id_)
    meta = json.load(open(os.path.join(p, "meta.json")))
    reset()
    demo = "cd %s && bash %s/demo.sh" % (W, p)
    r0 = sh(demo)
    if r0.returncode:
        return "DEMO FAILS UNPATCHED (%d): %s" % (r0.returncode, r0.stdout[:1500])
    a = sh("git -C %s apply %s/patch.diff" % (W, p))
    if a.returncode:
        return "PATCH FAILS " + a.stdout
    try:
        bt = build_test()
        if bt:
            return bt
        r1 = sh(demo)
        if r1.returncode == 0:
            return "DEMO PASSES PATCHED"
        if "error:" in r1.stdout:
            return "DEMO COMPILE ERROR: " + r1.stdout[:500]
        t = time.time()
        c = sh("VERIF_REPO=%s python3 %s/run.py %s" % (W, V, os.environ.get("PLANT_CHECK", meta["property"])))
        open("/tmp/plant-%s.log" % id_, "w").write(c.stdout)
        verdict = {0: "MISSED", 1: "CAUGHT"}.get(c.returncode, "NO ANSWER %d" % c.returncode)
        return "demo %d: %s | %s: %s (%.0f s)" % (r1.returncode, r1.stdout.strip()[-150:], meta["property"], verdict, time.time() - t)
    finally:
        reset()


if __name__ == "__main__":
    if sys.argv[1] == "new":
        sys.exit(new(*sys.argv[2:5]))
    for i in sys.argv[2:]:
        print(i, "->", check(i), flush=True)
