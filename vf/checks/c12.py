"""C12: the code generated for an equation computes the value of the equation."""
import os
import re
import hypothesis.strategies as st
import numpy as np
from fractions import Fraction

from vf import terms, wick
from vf.core import Discard, Violation, clip, ensure, frac, rat, setup_spaces, tensor_key
from vf.fock import rng

CAMPAIGNS = [
    dict(name="equations", n=dict(quick=9000, thorough=120000)),
    dict(name="contractions", n=dict(quick=2000, thorough=30000)),
]
RULE = (
    "a case is an equation (random left- and right-hand sides over 1-5 spaces with long, short or empty index lists), or "
    "all equations of a contracted operator product; the emitted statements (einsum in two dialects, ambit) are executed "
    "with random integer arrays and compared with the equation; non-trivial: at least two tensors on the right-hand side "
    "and a non-zero value"
)
ASSUMPTIONS = [
    "coefficients are compared to a relative accuracy of 1e-12 (double precision)",
    "every index of the left-hand side appears on the right-hand side, which has at least one tensor; at most 52 indices",
    "compile_einsum: single-character index names, and enough of them",
    "ambit statements are executed by a small interpreter of  label[i,j] += number * label[i,k] * ...;",
]


TINY = [[1, 24], [-1, 36], [1, 31104], [-1, 5760], [7, 1000000], [1, 3628800], [-1, 479001600], [1, 2000000000], [2147483647, 2], [-100000001, 3]]


@st.composite
def large_cases(draw):
    """Chains of up to 6 tensors with up to 48 distinct indices."""
    ns = draw(st.integers(1, 5))
    nt = draw(st.integers(2, 6))
    slots = [[[], []] for _ in range(nt)]
    used, size = [], [0] * nt
    counts = [0] * ns
    many = draw(st.booleans())
    for _ in range(draw(st.integers(4, 48))):
        s = draw(st.integers(0, ns - 1))
        counts[s] += draw(st.sampled_from([1, 1, 1, 2, 5])) if many else 1
        i = [s, counts[s] - 1]
        n = draw(st.integers(0, nt - 1))
        where = [n] + ([n + 1] if n + 1 < nt and draw(st.integers(0, 3)) else [])
        if any(size[x] >= 8 for x in where):
            continue
        used.append(i)
        for x in where:
            size[x] += 1
            l = slots[x][draw(st.integers(0, 1))]
            l.insert(draw(st.integers(0, len(l))), list(i))
    labels = st.sampled_from(["T", "V", "gamma1", "T2", "x_1", "Lambda", "lambda10", "A23456789012345678"])
    opened = draw(st.lists(st.integers(0, len(used) - 1), max_size=8, unique=True)) if used else []
    k = draw(st.integers(0, len(opened)))
    opened = [used[i] for i in opened]
    return dict(
        kind="equation", ns=ns, rhs=[[draw(labels)] + x for x in slots], lhs=["R", opened[:k], opened[k:]], large=True,
        f=draw(st.sampled_from(terms.FACTORS + TINY + [[1, 1024], [-1, 48], [123, 1000]])),
        names=[draw(st.sampled_from(["long", "long", "short", "none", "multi"])) for _ in range(ns)], seed=draw(st.integers(0, 99)),
    )


@st.composite
def eq_cases(draw):
    ns = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]))
    npos = draw(st.sampled_from([1, 2, 3, 3, 13]))
    pos = st.integers(0, npos) if npos < 13 else st.sampled_from([0, 1, 3, 7, 11, 13])
    ix = st.tuples(st.integers(0, ns - 1), pos).map(list)
    nt = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    labels = st.sampled_from(["T", "V", "gamma1", "T2", "x_1", "Lambda"])
    rhs = [[draw(labels), draw(st.lists(ix, max_size=3)), draw(st.lists(ix, max_size=3))] for _ in range(nt)]
    used = sorted(set(tuple(i) for t in rhs for i in t[1] + t[2]))
    opened = draw(st.lists(st.sampled_from(used), max_size=4, unique=True)) if used else []
    k = draw(st.integers(0, len(opened)))
    fr = draw(st.one_of(st.sampled_from(terms.FACTORS), st.sampled_from(TINY), st.tuples(st.integers(-999, 999).filter(bool), st.integers(1, 5000)).map(list)))
    return dict(
        kind="equation", ns=ns, rhs=rhs, lhs=[draw(st.sampled_from(["R", "H", "R_2"])), [list(i) for i in opened[:k]], [list(i) for i in opened[k:]]],
        f=fr, names=[draw(st.sampled_from(["long", "short", "none", "multi"])) for _ in range(ns)],
        seed=draw(st.integers(0, 99)),
    )


def strategy(tier):
    if os.environ.get("VF_CAMPAIGN") == "0":
        return st.integers(0, 5).flatmap(lambda k: eq_cases() if k else large_cases())
    return st.one_of(
        wick.wick_cases(["occupied", "unoccupied"], 8, 8, nops_range=(2, 3)),
        wick.wick_cases(["general", "occupied", "unoccupied"], 8, 7, nops_range=(2, 3), general=True),
    )


ALPHA = ["ijklmnpqrsIJK", "abcdefghtuA", "vwxyzOoVWX", "BCDEFGHTU", "LMNPQRSYZ"]
MULTI = ["i1", "j", "k_2", "P'", "Z1"], ["a1", "b", "c_2"], ["w1", "z", "q_9"], ["B", "d4"], ["Y", "L'", "l_1"]


def names(kind, s):
    if kind == "long":
        return list(ALPHA[s])
    if kind == "short":
        return list(ALPHA[s][:1])
    if kind == "multi":
        return MULTI[s]
    return []


class Arrays:
    def __init__(self, labels, dims, seed):
        self.labels, self.dims, self.seed = labels, dims, seed
        self.cache = {}

    def get(self, label, spaces):
        k = (label, spaces)
        if k not in self.cache:
            self.cache[k] = rng(self.seed, label, spaces).integers(-3, 4, size=[self.dims[s] for s in spaces], dtype=np.int64)
            if self.cache[k].ndim == 0 and self.cache[k] == 0:
                self.cache[k] = np.array(2, dtype=np.int64)
        return self.cache[k]


class View(dict):
    """label["oovv"] of generated code"""

    def __init__(self, arrays, label):
        self.arrays, self.label = arrays, label

    def __missing__(self, key):
        pos = {l: i for i, l in enumerate(self.arrays.labels)}
        if any(x not in pos for x in key):
            raise Violation("unknown block %s[%r] in generated code" % (self.label, key))
        return self.arrays.get(self.label, tuple(pos[x] for x in key)).astype(float)


def value(arrays, rhs, out):
    ids = {}
    args = []
    for label, up, lo in rhs:
        a = arrays.get(label, tuple(i[0] for i in up + lo))
        args += [a, [ids.setdefault(i, len(ids)) for i in up + lo]]
    return np.einsum(*args, [ids[i] for i in out], optimize="greedy")


_AMBIT = re.compile(r"^\s*(\S+)\s*\+=\s*(\S+)\s*\*\s*(.*\S)\s*;\s*$")
_AT = re.compile(r"^(\w+)(?:\[([\w,]*)\])?$")


def run_ambit(code, arrays):
    m = _AMBIT.match(code)
    ensure(m, "unreadable ambit statement %r", code)
    pos = {l: i for i, l in enumerate(arrays.labels)}

    def read(s):
        a = _AT.match(s)
        ensure(a, "unreadable ambit tensor %r in %r", s, code)
        ix = [x for x in (a.group(2) or "").split(",") if x]
        ensure(all(x[0] in pos for x in ix), "unknown space in %r", code)
        return a.group(1), ix

    lhs = read(m.group(1))
    ids, args = {}, []
    for s in m.group(3).split(" * "):
        label, ix = read(s.strip())
        args += [arrays.get(label, tuple(pos[x[0]] for x in ix)), [ids.setdefault(x, len(ids)) for x in ix]]
    for x in lhs[1]:
        ensure(x in ids, "open index %s of %r does not appear on its right-hand side", x, code)
    return lhs, float(m.group(2)), np.einsum(*args, [ids[x] for x in lhs[1]], optimize="greedy")


def run_python(code, arrays, name, shape, labels):
    ns = {"np": np}
    for l in labels:
        ns[l] = View(arrays, l)
    ns[name] = np.zeros(shape) if shape else 0.0
    try:
        exec(code, ns)
    except Violation:
        raise
    except Exception as e:
        raise Violation("the generated statement %r fails: %s: %s" % (code, type(e).__name__, e))
    return np.asarray(ns[name], dtype=float)


def close(got, c, v, code, what):
    want = float(c) * v.astype(float)
    tol = 1e-12 * np.abs(want) + 1e-3 * abs(float(c))  # the values v are integers
    tol = np.where(v == 0, tol, np.minimum(tol, 1e-12 * np.abs(want) * 4))
    ensure(got.shape == v.shape, "%s: %r gives shape %s, expected %s", what, code, got.shape, v.shape)
    bad = np.abs(got - want) > tol
    if np.any(bad):
        k = tuple(int(x) for x in np.argwhere(bad)[0]) if v.ndim else ()
        raise Violation("%s: %r gives %r at %s, the equation is %r" % (what, code, float(got[k]), k, float(want[k])))


def check_equation(w, q, arrays, einsum_ok):
    label, up, lo = tensor_key(w, q.lhs().tensors()[0])
    out = up + lo
    rhs = [tensor_key(w, t) for t in q.rhs().tensors()]
    c = frac(q.rhs_factor())
    v = value(arrays, rhs, out)
    sp = "".join(arrays.labels[i[0]] for i in out)
    rl = sorted(set(t[0] for t in rhs))
    code = q.compile("einsum")
    close(run_python(code, arrays, label + sp, v.shape, rl), c, v, code, "compile(einsum)")
    if einsum_ok:
        code = w.compile_einsum(q)
        close(run_python(code, arrays, label + sp, v.shape, rl), c, v, code, "compile_einsum")
    code = q.compile("ambit")
    (al, aix), f, val = run_ambit(code, arrays)
    ensure(al == label and len(aix) == len(out), "left-hand side of %r is not %s with %d indices", code, label, len(out))
    ensure("".join(x[0] for x in aix) == sp, "left-hand side of %r has spaces %s, expected %s", code, aix, sp)
    close(f * val, c, v, code, "compile(ambit)")
    return bool(np.any(v))


def run_case(w, case):
    if case.get("kind") == "equation":
        ns = case["ns"]
        labels = terms.LETTERS[:ns]
        lists = [names(k, s) for s, k in enumerate(case["names"])]
        setup_spaces(w, [dict(label=labels[s], type="general", indices=lists[s]) for s in range(ns)])
        used = set(tuple(i) for t in case["rhs"] for i in t[1] + t[2])
        if len(used) > (48 if case.get("large") else 9):
            raise Discard()
        if not all(tuple(i) in used for i in case["lhs"][1] + case["lhs"][2]):
            raise Discard()
        lhs, rhs = w.SymbolicTerm(), w.SymbolicTerm()
        lhs.add(terms.tensor(w, case["lhs"], w.sym.anti))
        for t in case["rhs"]:
            rhs.add(terms.tensor(w, t, w.sym.anti))
        q = w.Equation(lhs, rhs, rat(w, Fraction(*case["f"])))
        arrays = Arrays(labels, ([2] * 5 if case.get("large") else [2, 3, 2, 2, 3])[:ns], case["seed"])
        need = {s: len([i for i in used if i[0] == s]) for s in range(ns)}
        ok = all(case["names"][s] in ("long", "short", "none") and len(lists[s]) >= need[s] for s in range(ns))
        nz = check_equation(w, q, arrays, ok)
        for bad in ("numpy", "", "Einsum"):
            try:
                q.compile(bad)
            except RuntimeError:
                continue
            raise Violation("compile(%r) is accepted" % bad)
        cl = ["equation"] + (["compile_einsum"] if ok else []) + ["scalar" if not case["lhs"][1] + case["lhs"][2] else "open indices"]
        if any(tuple(i)[1] >= len(lists[i[0]]) for t in case["rhs"] for i in t[1] + t[2]):
            cl.append("index beyond the list of names")
        return dict(nontrivial=nz and len(case["rhs"]) >= 2, classes=cl, note=q.compile("einsum"))
    wick.guard(case)
    spaces = [dict(label=wick.LABELS[s], type=t, indices=list(ALPHA[s])) for s, t in enumerate(case["types"])]
    setup_spaces(w, spaces)
    expr = wick.build_product(w, spaces, case["ops"])
    res = wick.theorem(w, case).contract(rat(w, Fraction(*case["factor"])), expr, case["min"], case["max"])
    arrays = Arrays(wick.LABELS[: len(spaces)], [2] * len(spaces), case["seed"])
    n, nz = 0, False
    for k, eqs in sorted(res.to_manybody_equation("R").items()):
        for q in eqs:
            n += 1
            if n > 40:
                break
            ix = {}
            for t in q.rhs().tensors():
                for i in tensor_key(w, t)[1] + tensor_key(w, t)[2]:
                    ix.setdefault(i[0], set()).add(i)
            if sum(map(len, ix.values())) > 14:
                continue
            ok = all(len(ix[s]) <= len(ALPHA[s]) for s in ix)
            nz = check_equation(w, q, arrays, ok) and len(q.rhs().tensors()) >= 2 or nz
    return dict(nontrivial=nz, classes=["contraction"], note="%d equations" % n)
