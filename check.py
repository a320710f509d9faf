#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

Builds the property's harness from /repo's current working tree (cached by content under /verif/build),
searches generated inputs with it, prints one VIOLATION line per distinct violation, rewrites
/verif/evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: violated; 2: could not be decided
(the harness does not build against this tree)."""
import argparse, concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("IMAP_REPO", "/repo")
BUILD = os.path.join(V, "build")

HARNESS = {}
def _reg(h, *ids):
    for i in ids: HARNESS[i] = h
_reg("h_opt", "O01", "O02", "O03", "O04", "O05", "O06", "O07", "O08")
_reg("h_map", "M01", "M02", "M03", "M04", "M07")
_reg("h_cut", "M05", "M06")
_reg("h_core", "N01", "N02", "N03", "N04", "S01")
_reg("h_sat", "S02", "S03", "S04")
_reg("h_cli", "C01", "C02", "C03", "C04", "C05")
_reg("h_flow", "C06")
_reg("h_io", "F01", "F02", "F03", "F04", "F05", "F06")

# harnesses that drive executables built from /repo: name -> (source, extra flags)
TOOLS = {
    "imap": ("cli/imap.cpp", ["-DALICE_ENV_HOME=ALICE_HOME", "-DREADLINE_USE_READLINE", "-I%s/cli" % R, "-I%s/cli/command" % R]),
}
NEEDS_TOOLS = {"C01": ["imap"], "C02": ["imap"], "C03": ["imap"], "C04": ["imap"], "C05": ["imap", "py"]}
PYTHON = shutil.which("python3") or "/usr/bin/python3"

DEFS = ["-DABC_NAMESPACE=pabc", "-DABC_NO_USE_READLINE", "-DDISABLE_NAUTY", "-DFMT_HEADER_ONLY", "-DLIN64"]
INC = ["-I%s/%s" % (R, d) for d in ("include", "", "include/database", "libs/kitty/include", "include/utils", "include/operations",
                                    "libs/abcsat", "libs/fmt", "libs/lorina", "libs/rang", "include/flow", "libs/json")]
for d in ("libs", "libs/percy", "libs/alice/include", "libs/alice/lib/cli11", "libs/parallel_hashmap"):
    INC += ["-isystem", "%s/%s" % (R, d)]
CXX = ["g++", "-std=gnu++17", "-w", "-fopenmp"]
SAN = ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
LTO = ["-flto=8"]   # one translation unit per harness: this optimises it on all cores


def tree_hash(extra):
    h = hashlib.sha256()
    roots = [os.path.join(R, d) for d in ("include", "cli", "libs", "ai_infra")]
    files = []
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".hh", ".c", ".cpp", ".cc", ".tpp", ".inc", ".ipp", ".txt", ".py"))]
    for f in sorted(files) + sorted(extra):
        try:
            with open(f, "rb") as fd: data = fd.read()
        except OSError: continue
        h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    h.update(" ".join(CXX + SAN + LTO + DEFS).encode())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0: raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


def build_python(out):
    """The Python module of the shell (cli/imap.cpp with ALICE_PYTHON) and ai_infra's engine, under out/py."""
    tmp = tempfile.mkdtemp(dir=out)
    try:
        inc = run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).decode().strip()
        # the bundled pybind11 predates Python 3.11, which hides the frame it reports positions from
        pb = os.path.join(tmp, "include/pybind11")
        shutil.copytree(os.path.join(R, "libs/alice/lib/pybind11/include/pybind11"), pb)
        for f, begin, end, repl in (("cast.h", "        PyFrameObject *frame = trace->tb_frame;", "#endif", "        (void) trace;\n    }\n"),
                                    ("pybind11.h", "    PyFrameObject *frame = PyThreadState_Get()->frame;", "#else", "")):
            with open(os.path.join(pb, f)) as fd: t = fd.read()
            a = t.find(begin)
            if a >= 0:
                t = t[:a] + repl + t[t.index(end, a):]
                with open(os.path.join(pb, f), "w") as fd: fd.write(t)
        sat = sorted(f for f in os.listdir(os.path.join(R, "libs/abcsat")) if f.endswith(".cpp"))
        cc = CXX + LTO + ["-Og", "-fPIC"] + DEFS
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            jobs = [ex.submit(run, cc + ["-DALICE_PYTHON", "-DALICE_ENV_HOME=ALICE_HOME", "-I%s/include" % tmp, "-I" + inc, "-I%s/cli" % R, "-I%s/cli/command" % R] + INC +
                              ["-c", os.path.join(R, "cli/imap.cpp"), "-o", os.path.join(tmp, "m.o")])]
            jobs += [ex.submit(run, cc + ["-I%s/libs/abcsat" % R, "-I%s/libs" % R, "-c", os.path.join(R, "libs/abcsat", f), "-o", os.path.join(tmp, f + ".o")]) for f in sat]
            for j in jobs: j.result()
        py = os.path.join(tmp, "py")
        os.makedirs(os.path.join(py, "lib"))
        run(CXX + LTO + ["-Og", "-shared", os.path.join(tmp, "m.o")] + [os.path.join(tmp, f + ".o") for f in sat] + ["-o", os.path.join(py, "lib", "imap.so")])
        for f in os.listdir(os.path.join(R, "ai_infra")):
            if f.endswith(".py") and f != "__init__.py": shutil.copy(os.path.join(R, "ai_infra", f), py)
        os.rename(py, os.path.join(out, "py"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build(harness, props=()):
    src = os.path.join(V, "src")
    key = tree_hash([os.path.join(src, f) for f in os.listdir(src)] + [os.path.abspath(__file__)])
    out = os.path.join(BUILD, key)
    os.makedirs(out, exist_ok=True)
    want = [harness] + sorted({t for p in props for t in NEEDS_TOOLS.get(p, [])})
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # keep only the trees in use
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if d != key and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600: shutil.rmtree(p, ignore_errors=True)
        missing = [w for w in want if not os.path.exists(os.path.join(out, w))]
        if not missing: return out, key
        tmp = tempfile.mkdtemp(dir=out)
        try:
            jobs = []
            lib = os.path.join(out, "libabcsat.a")
            sat = sorted(f for f in os.listdir(os.path.join(R, "libs/abcsat")) if f.endswith(".cpp"))
            with concurrent.futures.ThreadPoolExecutor(16) as ex:
                if "py" in missing:
                    missing.remove("py")
                    jobs.append(ex.submit(build_python, out))
                if not os.path.exists(lib):
                    for f in sat:
                        jobs.append(ex.submit(run, CXX + SAN + DEFS + ["-I%s/libs/abcsat" % R, "-I%s/libs" % R, "-c", os.path.join(R, "libs/abcsat", f), "-o", os.path.join(tmp, f + ".o")]))
                for w in missing:
                    if w in TOOLS:
                        f, fl = TOOLS[w]
                        cmd = CXX + ["-Og" if x == "-O1" else x for x in SAN] + LTO + DEFS + fl + INC + ["-c", os.path.join(R, f), "-o", os.path.join(tmp, w + ".o")]
                    else:
                        cmd = CXX + SAN + LTO + DEFS + INC + ["-I" + src, "-c", os.path.join(src, w + ".cpp"), "-o", os.path.join(tmp, w + ".o")]
                    jobs.append(ex.submit(run, cmd))
                for j in jobs: j.result()
            if not os.path.exists(lib):
                run(["ar", "rcs", os.path.join(tmp, "lib.a")] + [os.path.join(tmp, f + ".o") for f in sat])
                os.rename(os.path.join(tmp, "lib.a"), lib)
            for w in missing:
                run(CXX + LTO + ["-Og" if w in TOOLS else "-O1", "-fsanitize=address", os.path.join(tmp, w + ".o"), lib, "-lreadline", "-o", os.path.join(tmp, w)])
                os.rename(os.path.join(tmp, w), os.path.join(out, w))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out, key


def known_findings():
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)["findings"]


def environment(out):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:symbolize=0:allocator_may_return_null=0"
    e["IMAP_TOOLS"] = out
    e["IMAP_PYTHON"] = PYTHON
    e["OMP_NUM_THREADS"] = "1"
    e["LC_ALL"] = "C"
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    if a.prop == "all" and a.build_only:
        for h in sorted(set(HARNESS.values())): build(h, [p for p in HARNESS if HARNESS[p] == h])
        return 0
    if a.prop not in HARNESS:
        print("no such property:", a.prop)
        return 2
    try:
        out, key = build(HARNESS[a.prop], [a.prop])
    except RuntimeError as ex:
        print("the harness does not build against this tree:\n%s" % ex)
        return 2
    t_build = time.time() - t0
    if a.build_only: return 0
    exe = os.path.join(out, HARNESS[a.prop])
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % a.prop)
    replays = os.path.join(V, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    env = environment(out)
    try:
        if a.replay:
            r = subprocess.run([exe, "--prop", a.prop, "--tier", tier, "--scratch", scratch, "--replay-dir", replays, "--replay", a.replay], env=env)
            if r.returncode == 1: print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1 if r.returncode == 1 else 0
        res = os.path.join(scratch, "result.json")
        cmd = [exe, "--prop", a.prop, "--tier", tier, "--seed", str(a.seed), "--out", res, "--scratch", scratch, "--replay-dir", replays,
               "--corpus", os.path.join(V, "corpus"), "--cap", "200" if tier == "quick" else "2400"]
        if a.cases: cmd += ["--cases", str(a.cases)]
        r = subprocess.run(cmd, env=env)
        if not os.path.exists(res):
            print("the harness gave no result (exit status %d)" % r.returncode)
            return 2
        with open(res) as f: d = json.load(f, strict=False)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    kf = [k for k in known_findings() if k["property"] == a.prop]
    hits, bad = {}, []
    for f in d["failures"]:
        k = next((k for k in kf if k["class"] == f["class"] and re.search(k["match"], f["message"] + "\n" + f["case"], re.S)), None)
        if k: hits[k["id"]] = k
        else: bad.append(f)
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    for f in bad:
        print("VIOLATION property=%s replay=%s" % (a.prop, f["path"]))
        print("  %s: %s" % (f["class"], f["message"][:1500]))
        print("  case: %s" % f["case"][:3000])
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "rule": d["rule"], "samples": d["samples"] or ["(none)"],
            "cases_planned": d["planned"], "regression_cases": d["corpus_cases"], "labels": d["labels"], "crashed_cases": d["crashed_cases"],
            "unconfirmed_failures": d["unconfirmed"], "search_s": round(d["run_s"], 1), "build_s": round(t_build, 1), "tree": key,
        },
        "assumptions": ["gcc 13 -O1 with AddressSanitizer and libstdc++ assertions stands for the shipped build", "the reference model in src/ref.hpp is right"],
        "wall_s": round(time.time() - t0, 1), "violations": len(bad),
    }
    with open(os.path.join(V, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s); build %.0f s, search %.0f s" % (
        a.prop, tier, a.seed, d["evaluations"], d["distinct_nontrivial"], len(bad), t_build, d["wall_s"]))
    return 1 if bad else 0


if __name__ == "__main__": sys.exit(main())
