"""Mutation sweep (sensitivity experiment; no registered command uses it).

Makes line-level mutants of /repo/wicked in /tmp, runs the campaigns of the checks that belong to the file with one
worker each, and lists the mutants no check notices.   automut.py FILES... [--n N] [--seed S] [--out FILE]
"""
import argparse, importlib, json, os, random, re, shutil, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import build as vb

ROOT = "/tmp/am"
BASE = ROOT + "/base"
MAP = [
    ("api/", "C08 C13 C14 C12 C11 C10 C18 C05 C07 C19 C15 C16 C09 C04 C03"),
    ("wick_theorem", "C01 C02 C03 C04 C07 C20"),
    ("contraction.cc", "C01 C02 C04"),
    ("graph_matrix", "C01 C02 C05 C18 C06"),
    ("operator_product", "C06 C05 C01 C04"),
    ("operator_expression", "C05 C18 C06 C07 C17"),
    ("diagrams/operator.", "C05 C18 C06 C01 C04"),
    ("normal_order", "C10"),
    ("algebra/expression.", "C08 C13 C11 C14 C09 C18 C10 C17"),
    ("symbolic_term", "C09 C08 C14 C13 C12 C10"),
    ("algebra/term.", "C08 C13 C14"),
    ("equation", "C12 C11"),
    ("tensor", "C08 C13 C14 C09 C12 C11"),
    ("algebra/index", "C19 C13 C14 C09 C12"),
    ("sqoperator", "C19 C10 C08 C13 C14 C09"),
    ("rational", "C15 C13 C12 C14 C08"),
    ("orbital_space", "C16 C13 C14 C17"),
    ("combinatorics", "C19 C18 C01"),
    ("helpers/helpers.cc", "C13 C18 C19"),
    ("algebra.hpp", "C08 C05"),
    ("product.hpp", "C05 C06 C01"),
    ("utils.py", "C12 C18 C13"),
    ("", "C17"),
]
OPS = [
    (r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![<=\w:])", "<="), (r"(?<![>\-=])>(?![>=(])", ">="),
    (r"(?<=\w) < (?=\w)", " > "), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<![+\w\"'{]) ?\+ (?=[\w(])", " - "), (r" - (?=[\w(])", " + "),
    (r"\*=", "/="), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])-1(?![\w.])", "1"),
    (r"\.cre\(", ".ann("), (r"\.ann\(", ".cre("), (r"upper", "lower"), (r"lower", "upper"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
    (r"\bif \((?!auto|const)", "if (!("), (r"reversed\(", "list("), (r"\bnot ", ""), (r"\band\b", "or"), (r"first", "second"), (r"second", "first"),
    (r"Occupied", "Unoccupied"), (r"Unoccupied", "Occupied"), (r"Creation", "Annihilation"), (r"Annihilation", "Creation"), (r"% 2", "% 3"), (r"begin\(\)", "rbegin()"),
    (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bl\b", "r"), (r"numerator", "denominator"), (r"std::min", "std::max"), (r"std::max", "std::min"), (r"reverse", "std::sort"), (r"\b8\b", "4"),
]


def mutants(rel, text):
    out = []
    lines = text.split("\n")
    skip = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "using", "namespace", "import", "from", '"""')) or "PRINT" in s or "cout" in s or "def(" in s and '"' in s and not rel.startswith("api/"):
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if code[: m.start()].count('"') % 2 and not re.search("stoi|regex", code) and a not in (r"\+", ):
                    continue
                new = code[: m.start()] + b + code[m.end():]
                if b == "if (!(":
                    # close the extra parenthesis before the brace
                    if not new.rstrip().endswith(") {"):
                        continue
                    new = new.rstrip()[:-3] + ")) {"
                out.append((i, l, new))
        if s.endswith(";") and not s.startswith(("return", "break", "continue", "}", "auto ", "int ", "const ", "std::", "bool ", "size_t")) and s.count("(") == s.count(")"):
            out.append((i, l, re.match(r"\s*", l).group(0) + ";"))
    return [(rel, i, a, b) for i, a, b in out if a != b]


def flags(kind="core"):
    return ["-std=gnu++20", "-O1" if kind == "core" else "-O0", "-fPIC", "-fvisibility=hidden", "-w", "-DUSE_BOOST_1024_INT"]


def incs(w):
    return ["-I%s" % w] + ["-I%s/%s" % (w, d) for d in ("algebra", "diagrams", "fmt")] + ["-I" + sysconfig.get_paths()["include"]]


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def base():
    files = vb.snapshot()
    shutil.rmtree(BASE, ignore_errors=True)
    w = BASE + "/src/wicked"
    for rel, data in files.items():
        p = os.path.join(w, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(data)
    os.makedirs(BASE + "/obj")
    src = vb.sources(files)

    def comp(s):
        o = BASE + "/obj/" + s.replace("/", "_") + ".o"
        r = run(["g++"] + flags("api" if s.startswith("api/") else "core") + incs(w) + ["-c", os.path.join(w, s), "-o", o])
        assert r.returncode == 0, r.stdout
        # dependencies
        r = run(["g++", "-MM"] + flags() + incs(w) + [os.path.join(w, s)])
        return s, r.stdout

    with ThreadPoolExecutor(8) as ex:
        deps = dict(ex.map(comp, src))
    return files, src, deps


def do(k, mut, files, src, deps, tier_frac, checks_override):
    rel, i, a, b = mut
    d = "%s/m%d" % (ROOT, k)
    shutil.rmtree(d, ignore_errors=True)
    text = files[rel].decode().split("\n")
    text[i] = b
    text = "\n".join(text)
    pkg = d + "/wicked"
    os.makedirs(pkg)
    if rel.endswith(".py"):
        so = None
        affected = []
    else:
        affected = [s for s in src if s == rel or ("/" + rel) in deps[s].replace("/../", "/X/") or os.path.basename(rel) in deps[s]]
        if rel in src:
            affected = [rel]
    w = BASE + "/src/wicked"
    objs = {s: BASE + "/obj/" + s.replace("/", "_") + ".o" for s in src}
    if affected:
        w2 = d + "/src/wicked"
        shutil.copytree(w, w2)
        open(os.path.join(w2, rel), "w").write(text)
        for s in affected:
            o = d + "/" + s.replace("/", "_") + ".o"
            r = run(["g++"] + flags("api" if s.startswith("api/") else "core") + incs(w2) + ["-c", os.path.join(w2, s), "-o", o])
            if r.returncode:
                shutil.rmtree(d)
                return "nocompile", ""
            objs[s] = o
    so = os.path.join(pkg, "_wicked" + sysconfig.get_config_var("EXT_SUFFIX"))
    r = run(["g++", "-shared", "-o", so] + list(objs.values()) + ["-lpthread"])
    if r.returncode:
        shutil.rmtree(d)
        return "nocompile", ""
    for f, data in files.items():
        if f.endswith(".py"):
            open(os.path.join(pkg, f), "w").write(text if f == rel else data.decode())
    checks = checks_override or next(c for p, c in MAP if p in rel).split()
    env = dict(os.environ, PYTHONPATH=d + os.pathsep + HERE, VF_MODULE_DIR=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               VF_MAX_S="100", VF_SHRINK_S="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        for c in checks:
            mod = importlib.import_module("vf.checks." + c.lower())
            for ci, camp in enumerate(mod.CAMPAIGNS):
                if camp.get("variant", "std") == "tsan":
                    continue
                out = "%s/%s-%d" % (d, c, ci)
                os.makedirs(out)
                n = max(20, int(camp["n"]["quick"] * tier_frac))
                try:
                    r = subprocess.run([sys.executable, HERE + "/vf/worker.py", "explore", c, str(ci), "0", "1", str(1000 + k), str(n), "quick", out],
                                       env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=260)
                except subprocess.TimeoutExpired:
                    return "killed", "%s hang" % c
                p = out + "/result0.json"
                if not os.path.exists(p):
                    return "killed", "%s crash" % c
                res = json.load(open(p))
                if res["failure"]:
                    return "killed", "%s %s" % (c, res["failure"]["message"][:80])
                if res["error"]:
                    return "error", c + res["error"][-200:]
        return "SURVIVED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--frac", type=float, default=0.15)
    ap.add_argument("--out", default=ROOT + "/out.txt")
    ap.add_argument("--checks")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    files, src, deps = base()
    muts = []
    for f in a.files:
        muts += mutants(f, files[f].decode())
    rnd = random.Random(a.seed)
    rnd.shuffle(muts)
    muts = muts[: a.n]
    print(len(muts), "mutants", flush=True)
    t0 = time.time()
    out = open(a.out, "a")
    cnt = {}

    def job(x):
        k, m = x
        try:
            st, why = do(k, m, files, src, deps, a.frac, a.checks.split(",") if a.checks else None)
        except Exception as e:
            st, why = "toolerror", repr(e)
        cnt[st] = cnt.get(st, 0) + 1
        out.write("%s %s:%d\n   - %s\n   + %s\n   %s\n" % (st, m[0], m[1] + 1, m[2].strip(), m[3].strip(), why))
        out.flush()

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(job, list(enumerate(muts))))
    print(cnt, "%.0fs" % (time.time() - t0))


main()
