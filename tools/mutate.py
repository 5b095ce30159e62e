#!/usr/bin/env python3
"""Development only: systematic mutation of /repo's sources (in scratch copies), to look for blind spots of the checks.

usage: mutate.py list [FILE...]
       mutate.py run OUT.jsonl [FILE...]    (appends; resumes)
       mutate.py full OUT.jsonl             (re-run survivors at full budget, and the stable tests)
"""
import concurrent.futures, json, os, queue, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
N = int(os.environ.get("MUT_WORKERS", "8"))
sys.path.insert(0, os.path.join(V, "tools"))
FILES = {
    "LitlContainer/LitlContainer/AlignedBuffer.h": ["C07", "C23", "C37"],
    "LitlContainer/LitlContainer/Arithmetic.h": ["C10"],
    "LitlContainer/LitlContainer/ContiguousContainer.h": ["C04", "C06", "C12", "C13", "C35"],
    "LitlContainer/LitlContainer/DataContainer.h": ["C06", "C12", "C10", "C11", "C04", "C15", "C34", "C31", "C37"],
    "LitlContainer/LitlContainer/DataDistribution.h": ["C13", "C14"],
    "LitlContainer/LitlContainer/Holders.h": ["C06", "C01", "C31", "C37", "C34"],
    "LitlContainer/LitlContainer/Math.h": ["C11"],
    "LitlContainer/LitlContainer/Random.h": ["C15"],
    "LitlContainer/LitlContainer/Sequence.h": ["C06", "C12"],
    "LitlIo/LitlIo/Fits.h": ["C24", "C38"],
    "LitlRaster/LitlRaster/Ball.h": ["C05"],
    "LitlRaster/LitlRaster/BallIterator.h": ["C05", "C35"],
    "LitlRaster/LitlRaster/Box.h": ["C02", "C03", "C18"],
    "LitlRaster/LitlRaster/BoxIterator.h": ["C02", "C09", "C35"],
    "LitlRaster/LitlRaster/Raster.h": ["C01", "C04", "C06", "C08", "C09", "C11", "C15", "C34", "C36", "C12"],
    "LitlRaster/LitlRaster/impl/Raster.hpp": ["C01", "C04", "C08", "C09", "C06", "C34", "C36"],
    "LitlRaster/LitlRaster/Sampling.h": ["C20", "C19", "C35"],
    "LitlRaster/LitlRaster/Subraster.h": ["C09", "C34"],
    "LitlRaster/LitlRaster/SubrasterIterator.h": ["C09", "C35"],
    "LitlRaster/LitlRaster/Vector.h": ["C28", "C01", "C10", "C02", "C36"],
    "LitlRun/LitlRun/Chronometer.h": ["C27"],
    "LitlRun/LitlRun/IterationBenchmark.h": ["C30"],
    "LitlRun/LitlRun/ProgramOptions.h": ["C25"],
    "LitlRun/LitlRun/StepperPipeline.h": ["C26"],
    "LitlRun/src/lib/IterationBenchmark.cpp": ["C30"],
    "LitlTransforms/LitlTransforms/Convolution.h": ["C20", "C19"],
    "LitlTransforms/LitlTransforms/Dft.h": ["C22", "C23", "C32"],
    "LitlTransforms/LitlTransforms/DftMemory.h": ["C23", "C22"],
    "LitlTransforms/LitlTransforms/DftPlan.h": ["C23", "C22"],
    "LitlTransforms/LitlTransforms/Interpolation.h": ["C16", "C17", "C18"],
    "LitlTransforms/LitlTransforms/InterpolationMethods.h": ["C16", "C17"],
    "LitlTransforms/LitlTransforms/Kernel.h": ["C18", "C19", "C32"],
    "LitlTransforms/LitlTransforms/LineKernel.h": ["C19", "C20"],
    "LitlTransforms/LitlTransforms/MedianFilter.h": ["C21", "C32"],
    "LitlTransforms/LitlTransforms/SeparableKernel.h": ["C19"],
    "LitlTypes/LitlTypes/Exceptions.h": ["C29", "C04", "C06"],
    "LitlTypes/LitlTypes/Segment.h": ["C29"],
    "LitlTypes/LitlTypes/SeqUtils.h": ["C29", "C26"],
    "LitlTypes/LitlTypes/TypeUtils.h": ["C29", "C12", "C28"],
}
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
         (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" % ", " / "), (" += ", " -= "), (" -= ", " += "),
         (" *= ", " += "), (" && ", " || "), (" || ", " && "), ("not(", "("), ("true", "false"), ("false", "true"),
         (" + 1", ""), (" - 1", ""), ("++", "--"), ("front", "back"), ("back", "front"), ("begin(", "end("), ("end(", "begin("),
         ("std::min", "std::max"), ("std::max", "std::min"), ("min(", "max("), ("max(", "min("), ("abs(", "("),
         ("std::floor", "std::ceil"), ("lhs", "rhs"), ("rhs", "lhs"), ("m_in", "m_out"), ("m_out", "m_in"),
         ("plus<", "minus<"), ("multiplies<", "plus<"), ("lowest", "min"), ("m_size", "m_capacity"), ("first", "second"),
         ("upper_bound", "lower_bound"), ("lower_bound", "upper_bound"), (".real()", ".imag()"), (".imag()", ".real()"),
         ("== -1", "== -2"), ("std::move(", "(")]


def mutants(path):
    lines = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + path], text=True).split("\n")
    comment = False
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            comment = True
        if comment:
            if "*/" in s:
                comment = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or re.match(r"(template|using|friend|static_assert|namespace|public|private|class|struct|typedef|LITL_)\b", s):
            continue
        code = l.split(" //")[0]
        seen = set()

        def add(new, what):
            if new != code and new not in seen:
                seen.add(new)
                out.append({"file": path, "line": i + 1, "what": what, "old": code.strip(), "new": new.strip(), "text": new})
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                if a[0].isalpha() and m.start() and (code[m.start() - 1].isalnum() or code[m.start() - 1] == "_") and not a.startswith("m"):
                    if not (code[m.start() - 1] == "_" and a in ("front", "back")):
                        continue
                add(code[:m.start()] + b + code[m.end():], "%s->%s" % (a.strip(), b.strip()))
        for m in re.finditer(r"(?<![\w.:<])(\d+)(?![\w.>])", code):
            k = int(m.group(1))
            for n in ([1] if k == 0 else [0, 2] if k == 1 else [k - 1, k + 1]):
                add(code[:m.start()] + str(n) + code[m.end():], "%d->%d" % (k, n))
        m = re.search(r"\b(if|while) \((.*)\) \{", code)
        if m and m.group(1) == "if":
            add(code[:m.start(2)] + "true" + code[m.end(2):], "if true")
            add(code[:m.start(2)] + "false" + code[m.end(2):], "if false")
        if s.endswith(";") and not re.match(r"(return|const|auto|static|T |Index |using|std::|typename|break|continue|explicit|virtual|Position<N>|Vector<)", s) and ("(" in s or "=" in s):
            add("", "delete")
        if re.match(r"\s*(Index|std::size_t|long) \w+ =", code) or " Index(" in code:
            add(code.replace("Index", "int", 1), "int")
        m = re.search(r"(\w+)\(([\w\[\]\.]+), ([\w\[\]\.]+)\)", code)
        if m and not s.endswith("{"):
            add(code[:m.start(2)] + m.group(3) + ", " + m.group(2) + code[m.end(3):], "swap args")
    return out


def key(m):
    return "%s:%d:%s:%s" % (m["file"], m["line"], m["what"], m["new"])


def setup(k):
    r, v = "%s/w%d" % (W, k), "%s/v%d" % (W, k)
    shutil.rmtree(r, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    os.makedirs(v)
    for x in ("harness", "run.py", "known-findings.txt"):
        p = os.path.join(V, x)
        shutil.copytree(p, v + "/" + x) if os.path.isdir(p) else shutil.copy(p, v)
    return r, v


def check(m, r, v, jobs, budget):
    p = os.path.join(r, m["file"])
    orig = open(p).read()
    lines = orig.split("\n")
    lines[m["line"] - 1] = m["text"]
    open(p, "w").write("\n".join(lines))
    res = "survived"
    try:
        for c in FILES[m["file"]]:
            env = dict(os.environ, VERIF_REPO=r, VERIF_BUDGET=str(budget), VERIF_JOBS=str(jobs), VERIF_TIER="quick")
            try:
                q = subprocess.run(["python3", v + "/run.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return "timeout " + c
            if q.returncode == 1:
                return "killed " + c
            if q.returncode != 0:
                return "compile " + c if "COMPILE" in q.stderr else "error " + c + q.stderr[-300:]
    finally:
        open(p, "w").write(orig)
    return res


def run(out, files):
    done = set()
    if os.path.exists(out):
        done = {key(json.loads(l)) for l in open(out)}
    todo = [m for f in files for m in mutants(f) if key(m) not in done]
    random.Random(1).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    pool = queue.Queue()
    for k in range(N):
        pool.put(setup(k))

    def one(m):
        w = pool.get()
        try:
            m["result"] = check(m, w[0], w[1], 1, 7)
        except Exception as e:
            m["result"] = "exception %s" % e
        finally:
            pool.put(w)
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")
    with concurrent.futures.ThreadPoolExecutor(N) as ex:
        list(ex.map(one, todo))


if sys.argv[1] == "list":
    t = 0
    for f in sys.argv[2:] or FILES:
        n = mutants(f)
        t += len(n)
        print(f, len(n))
        if sys.argv[2:]:
            for m in n:
                print("  %d %s | %s" % (m["line"], m["what"], m["new"]))
    print(t)
elif sys.argv[1] == "run":
    run(sys.argv[2], sys.argv[3:] or list(FILES))
