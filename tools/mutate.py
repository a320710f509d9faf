#!/usr/bin/env python3
"""Development aid (no registered check runs it): automatic mutants of /repo's code against the searches.

mutate.py --cov COV.pkl --n 200 --seed 1 [--files REGEX] [--jobs 8] [--cap 20] --out LOG
Each mutant changes one executed line of a scratch copy, is compiled into the one harness that covers the file
and runs the properties mapped to it with one process each, stopping at the first failing case."""
import argparse, concurrent.futures, os, pickle, random, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # file regex, harness:properties ...
    (r"database/cut/general_cut", "h_opt:O07,O01"),
    (r"database/cut/", "h_cut:M05,M06 h_map:M01,M03"),
    (r"algorithms/klut_mapping", "h_map:M02,M01,M07,M03 h_opt:O05"),
    (r"algorithms/network_to_klut", "h_map:M01,M03,M02"),
    (r"detail/convert_to_aig", "h_opt:O05 h_sat:S04"),
    (r"choice_|aig_with_choice", "h_map:M04,M03"),
    (r"network/aig_network", "h_core:N02,N01,N04,S01 h_opt:O04,O02,O08 h_io:F02"),
    (r"network/klut_network", "h_core:N03,S01,N04 h_sat:S02 h_map:M01"),
    (r"network/details", "h_core:N02,N01,N03"),
    (r"optimization/rewrite|database_npn4", "h_opt:O01,O04"),
    (r"node_rewriting", "h_opt:O07,O01"),
    (r"optimization/refactor", "h_opt:O02,O04"),
    (r"sop_refactoring", "h_opt:O07,O02"),
    (r"and_balance", "h_opt:O03,O04"),
    (r"balancing", "h_opt:O06,O07"),
    (r"views/mapping", "h_map:M02,M01 h_sat:S04"),
    (r"cleanup|views/", "h_core:N04,N03,N01 h_opt:O04,O02"),
    (r"simulation", "h_core:S01"),
    (r"cnf|miter|equivalence", "h_sat:S02,S03,S04"),
    (r"circuit_validator", "h_sat:S03"),
    (r"debugger", "h_sat:S04"),
    (r"ref_deref", "h_opt:O08,O01"),
    (r"io/reader|aiger_reader|lorina/aiger", "h_io:F01,F03"),
    (r"write_aiger|io/writer\.hpp", "h_io:F02,F01,F04,F05"),
    (r"write_verilog|lorina/verilog|lorina/detail", "h_io:F04,F01"),
    (r"writer_lut", "h_io:F05"),
    (r"write_dot", "h_io:F06"),
    (r"flow/", "h_flow:C06"),
    (r"cli/command/|alice/", "h_cli:C02,C03,C04,C01"),
    (r"utils/(node_map|range|truth_table)", "h_core:N04,N01,N03 h_opt:O06"),
]
OPS = [
    (r"(?<![<>=!\-])<(?![<=>])(?= )", ["<=", ">="]), (r"<=", ["<", ">"]), (r"(?<![<>=\-])>(?![>=])(?= )", [">=", "<"]), (r">=(?!>)", [">", "<"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&(?! *[a-z_]+\)? *[,>{])", ["||"]), (r"\|\|", ["&&"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[a-z_(])", [""]), (r"\+ 1\b", ["+ 0", "+ 2"]), (r"- 1\b", ["- 0", "- 2"]), (r"\+1\b", ["+0", "+2"]), (r"-1\b", ["-0"]),
    (r"(?<=[\[(, ])0(?=[,\]) ;u])", ["1"]), (r"(?<=[\[(, ])1(?=[,\]) ;u])", ["0", "2"]), (r"(?<=[\[(, ])2(?=[,\]) ;u])", ["1", "3"]),
    (r"\+\+(?=[a-z_])", ["--"]), (r"\+=", ["-="]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]),
    (r"(?<= )\^(?= )", ["|", "&"]), (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&", "^"]), (r"<<(?= [0-9a-z(])", [">>"]), (r">>(?= [0-9a-z(])", ["<<"]),
    (r"\bcontinue;", [";", "break;"]), (r"\bbreak;", [";"]), (r"\breturn;", [";"]),
    (r"\bcreate_and\b", ["create_or"]), (r"\^=", ["="]), (r"\|=", ["="]), (r"&=(?!=)", ["="]),
    (r"\b(fanin|leaves|children|cut|inputs)\[0\]", [r"\1[1]"]), (r"\b(fanin|leaves|children|cut|inputs)\[1\]", [r"\1[0]"]),
    (r"\bpush_back\b", [None]),
]


def mutants(root, cov, files, rng):
    out = []
    for f, lines in cov.items():
        if not files.search(f): continue
        m = next((x for x in MAP if re.search(x[0], f)), None)
        if m is None: continue
        with open(os.path.join(root, f)) as fd: src = fd.read().split("\n")
        for ln, cnt in lines.items():
            if not cnt or ln > len(src): continue
            t = src[ln - 1]
            code = t.split("//")[0]
            if re.search(r"assert|static_cast<void>|template|#|fmt::|printf|std::cout|std::cerr|stopwatch|progress", code): continue
            for rx, reps in OPS:
                if re.search(r"\bfor\s*\(", code) and rx in (r"\+\+(?=[a-z_])",): continue
                if "<<" in rx or ">>" in rx:
                    if re.search(r"os|out|stream|cout|env", code): continue
                for mm in re.finditer(rx, code):
                    for r in reps:
                        if r is None: continue
                        nt = code[:mm.start()] + mm.expand(r) + code[mm.end():]
                        out.append((f, ln, t, nt, m))
            # delete a statement / negate a condition
            s = code.strip()
            if re.match(r"^[A-Za-z_][\w.\->\[\]():, ]*(\(.*\)|=[^=].*|\+\+|--);$", s) and not re.match(r"^(return|auto|const|bool|int|uint|size_t|std::(vector|string|array)|signal|node|using|typename|static|unsigned|double|float|kitty::\w+ \w+)\b", s):
                out.append((f, ln, t, ";", m))
            c = re.match(r"^(\s*)((?:\} *)?(?:else )?if\s*\()(.*)(\)\s*\{?)\s*$", code)
            if c and "constexpr" not in code and c.group(3).count("(") == c.group(3).count(")"):
                out.append((f, ln, t, c.group(1) + c.group(2) + "!(" + c.group(3) + ")" + c.group(4), m))
                out.append((f, ln, t, c.group(1) + c.group(2) + "false && (" + c.group(3) + ")" + c.group(4), m))
            if re.match(r"^\s*return [a-z].*;$", code) and False: pass
    rng.shuffle(out)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--cov", default="/tmp/cov/cov.pkl")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=".")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--cap", type=float, default=20)
    ap.add_argument("--per-line", type=int, default=1)
    ap.add_argument("--inner", type=int, default=1, help="processes per mutant")
    ap.add_argument("--again", help="log whose SURVIVED lines are tried again")
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    rng = random.Random(a.seed)
    with open(a.cov, "rb") as fd: cov = pickle.load(fd)
    todo, seen = [], {}
    for m in mutants("/repo", cov, re.compile(a.files), rng):
        k = (m[0], m[1])
        if seen.get(k, 0) >= a.per_line: continue
        seen[k] = seen.get(k, 0) + 1
        todo.append(m)
        if len(todo) >= a.n: break
    if a.again:
        todo = []
        with open(a.again) as fd:
            for l in fd:
                x = l.rstrip("\n").split("\t")
                if x[0] != "SURVIVED": continue
                f, ln = x[1].rsplit(":", 1)
                plan = next((y for y in MAP if re.search(y[0], f)), None)
                if plan and re.search(a.files, f): todo.append((f, int(ln), x[2], x[3] if len(x) > 3 else ";", plan))
    base = tempfile.mkdtemp(prefix="mut-")
    src = os.path.join(base, "src")
    shutil.copytree(os.path.join(V, "src"), src)
    lib = "/repo/_build/libs/abcsat/liblibabcsat.a"
    lock = threading.Lock()
    slots = list(range(a.jobs))
    for i in slots:
        subprocess.check_call(["git", "clone", "-q", "/repo", os.path.join(base, "r%d" % i)])
    log = open(a.out, "a")
    sys.path.insert(0, V)

    def one(m):
        f, ln, old, new, (_, plan) = m
        with lock: i = slots.pop()
        r, w = os.path.join(base, "r%d" % i), os.path.join(base, "w%d" % i)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        try:
            p = os.path.join(r, f)
            with open(p) as fd: L = fd.read().split("\n")
            L[ln - 1] = new
            with open(p, "w") as fd: fd.write("\n".join(L))
            inc = [x.replace("/repo", r) for x in INC]
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:symbolize=0", IMAP_TOOLS=w, IMAP_PYTHON="python3", OMP_NUM_THREADS="1", LC_ALL="C")
            res = "SURVIVED"
            for part in plan.split():
                h, props = part.split(":")
                if h == "h_cli":
                    c = subprocess.run(["g++", "-std=gnu++17", "-w", "-fopenmp", "-Og", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-DALICE_ENV_HOME=ALICE_HOME", "-DREADLINE_USE_READLINE", "-I%s/cli" % r, "-I%s/cli/command" % r] + inc + [os.path.join(r, "cli/imap.cpp"), lib, "-lreadline", "-o", w + "/imap"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    shutil.copy(HCLI, w + "/h_cli") if c.returncode == 0 else None
                else:
                    c = subprocess.run(["g++", "-std=gnu++17", "-w", "-fopenmp", "-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"] + inc + ["-I" + src, os.path.join(src, h + ".cpp"), lib, "-lreadline", "-o", w + "/" + h], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if c.returncode: res = "NOBUILD"; break
                for pr in props.split(","):
                    s = os.path.join(w, "s" + pr)
                    os.makedirs(s)
                    try:
                        q = subprocess.run([w + "/" + h, "--prop", pr, "--jobs", str(a.inner), "--first", "--seed", "1", "--cap", str(a.cap), "--scratch", s, "--replay-dir", s, "--out", s + "/r", "--corpus", V + "/corpus"], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=a.cap * 4 + 60)
                        if q.returncode: res = "killed %s %s" % (pr, q.stdout.decode(errors="replace").strip()[-90:].replace("\n", " ")); break
                    except subprocess.TimeoutExpired: res = "killed %s timeout" % pr; break
                if res != "SURVIVED": break
            with lock:
                log.write("%s\t%s:%d\t%s\t%s\n" % (res, f, ln, old.strip(), new.strip()))
                log.flush()
        finally:
            subprocess.call(["git", "-C", r, "checkout", "-q", "--", "."])
            with lock: slots.append(i)

    import check
    INC = check.DEFS + check.INC
    HCLI = os.path.join(base, "h_cli")
    if any("h_cli" in m[4][1] for m in todo):
        subprocess.check_call(["g++", "-std=gnu++17", "-w", "-fopenmp", "-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"] + INC + ["-I" + src, src + "/h_cli.cpp", lib, "-lreadline", "-o", HCLI])
    try:
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex: list(ex.map(one, todo))
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__": sys.exit(main())
