"""C06: canonicalizing an operator expression keeps the operator it denotes."""
import os
import hypothesis.strategies as st
import numpy as np
from fractions import Fraction
from itertools import permutations

from vf import opx
from vf.core import Discard, Violation, clip, ensure, rat, setup_spaces
from vf.fock import Model, P, frac_mod, matmul, perm_sign
from vf.wick import component, space_defs

CAMPAIGNS = [
    dict(name="fock", n=dict(quick=8000, thorough=100000)),
    dict(name="orderings", n=dict(quick=8000, thorough=100000)),
]
RULE = (
    "a case is a sum of 1-4 products of 1-4 operators drawn from a small pool over 1-3 spaces; the sum is evaluated "
    "as a matrix in Fock space before and after canonicalization; for products of mutually commuting operators all "
    "orderings must give one canonical form; non-trivial: canonicalization changed the expression; orderings: sums of up to 8 products of up to 9 operators over 1-8 spaces, "
    "compared as classes of products that differ by exchanges of commuting neighbours (with the sign of the exchange)"
)
ASSUMPTIONS = ["fermionic spaces, random antisymmetric tensors modulo 1000003, at most 6 modes"]


@st.composite
def cases(draw):
    ns = draw(st.integers(1, 3))
    types = [draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in range(ns)]
    pool = []
    for _ in range(draw(st.integers(2, 4))):
        cre, ann = [0] * ns, [0] * ns
        style = draw(st.sampled_from(["any", "excite", "excite", "cre", "ann"]))
        for _ in range(draw(st.integers(1, 4))):
            s = draw(st.integers(0, ns - 1))
            up = {"any": draw(st.booleans()), "cre": True, "ann": False, "excite": types[s] != "occupied"}[style]
            (cre if up else ann)[s] += 1
        pool.append(dict(label=draw(st.sampled_from("ABT")), cre=cre, ann=ann))
    I = st.integers(0, len(pool) - 1)
    sums = [
        dict(f=draw(st.sampled_from([[1, 1], [-1, 1], [1, 2], [-3, 4]])), ops=draw(st.lists(I, min_size=1, max_size=4)))
        for _ in range(draw(st.integers(1, 4)))
    ]
    dims = [max([1] + [max(o["cre"][s], o["ann"][s]) for o in pool]) for s in range(ns)]
    for _ in range(3):
        s = draw(st.integers(0, ns - 1))
        if sum(dims) < 6 and dims[s] < 3:
            dims[s] += 1
    return dict(types=types, pool=pool, sums=sums, dims=dims, seed=draw(st.integers(0, 99)))


@st.composite
def ordering_cases(draw):
    ns = draw(st.integers(1, 8))
    types = [draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in range(ns)]
    pool = []
    for _ in range(draw(st.integers(2, 7))):
        if pool and draw(st.integers(0, 2)) == 0:
            o = dict(draw(st.sampled_from(pool)))
            if draw(st.booleans()):
                o["label"] = draw(st.sampled_from(OPLABELS))
            else:
                k = draw(st.sampled_from(["cre", "ann"]))
                o[k] = list(o[k])
                o[k][draw(st.integers(0, ns - 1))] += 1
            pool.append(o)
            continue
        cre, ann = [0] * ns, [0] * ns
        style = draw(st.sampled_from(["any", "excite", "excite", "cre", "ann"]))
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 8]))):
            s = draw(st.integers(0, ns - 1))
            up = {"any": draw(st.booleans()), "cre": True, "ann": False, "excite": types[s] != "occupied"}[style]
            (cre if up else ann)[s] += 1
        pool.append(dict(label=draw(st.sampled_from(OPLABELS)), cre=cre, ann=ann))
    I = st.integers(0, len(pool) - 1)
    fr = st.sampled_from([[1, 1], [-1, 1], [1, 2], [-3, 4], [10**20, 7]])
    base = [dict(f=draw(fr), ops=draw(st.lists(I, min_size=1, max_size=draw(st.sampled_from([3, 5, 9]))))) for _ in range(draw(st.integers(1, 3)))]
    sums = list(base)
    for _ in range(draw(st.integers(0, 5))):
        b = draw(st.sampled_from(base))
        sums.append(dict(f=draw(fr), ops=list(draw(st.permutations(b["ops"]))) if draw(st.booleans()) else b["ops"][::-1]))
    return dict(kind="orderings", types=types, pool=pool, sums=sums)


OPLABELS = ["A", "B", "T", "T1", "T10", "T2", "a", "Tdagger_of_order_2"]


def strategy(tier):
    return ordering_cases() if os.environ.get("VF_CAMPAIGN") == "1" else cases()


def commute(a, b):
    return all(x * y == 0 for x, y in zip(a[1], b[2])) and all(x * y == 0 for x, y in zip(a[2], b[1]))


def parity(a):
    return (sum(a[1]) + sum(a[2])) % 2


def normal_form(p):
    """(sign, least word) of the products that differ from p by exchanges of commuting neighbours; sign 0: p is zero."""
    rest, out, sign = list(p), [], 1
    while rest:
        free = [i for i in range(len(rest)) if all(commute(rest[i], rest[j]) for j in range(i))]
        i = min(free, key=lambda i: (rest[i], i))
        if parity(rest[i]):
            if any(rest[j] == rest[i] for j in free if j != i):
                sign = 0  # the square of an odd operator that commutes with itself
            if sum(parity(rest[j]) for j in range(i)) % 2:
                sign = -sign
        out.append(rest.pop(i))
    return sign, tuple(out)


def classes_of(d):
    out = {}
    for p, c in d.items():
        s, q = normal_form(p)
        out[q] = out.get(q, 0) + s * c
    return {q: c for q, c in out.items() if c}


def run_orderings(w, case):
    spaces = space_defs(case["types"])
    labels = [s["label"] for s in spaces]
    setup_spaces(w, spaces)
    pool = [(o["label"], tuple(o["cre"]), tuple(o["ann"])) for o in case["pool"]]
    made = [w.op(o[0], [component(spaces, o[1], o[2])]) for o in pool]

    def product(ix):
        e = None
        for i in ix:
            e = made[i] if e is None else e @ made[i]
        return e

    expr = w.OperatorExpression()
    model = {}
    for t in case["sums"]:
        expr = expr + rat(w, Fraction(*t["f"])) * product(t["ops"])
        model = opx.add(model, {tuple(pool[i] for i in t["ops"]): Fraction(*t["f"])})
    before = opx.parse(str(expr), labels)
    ensure(before == model, "the sum is %s, expected %s", clip(before), clip(model))
    expr.canonicalize()
    after = opx.parse(str(expr), labels)
    a, b = classes_of(model), classes_of(after)
    if a != b:
        bad = min((q for q in set(a) | set(b) if a.get(q) != b.get(q)), key=lambda q: (len(q), q))
        raise Violation("canonicalize changed the operator: the products equal to %s have coefficient %s, before %s" % (clip(bad), b.get(bad, 0), a.get(bad, 0)))
    ensure(all(c for c in after.values()), "a product with coefficient zero: %s", clip(after))
    expr.canonicalize()
    ensure(opx.parse(str(expr), labels) == after, "canonicalize twice changes %s into %s", clip(after), clip(expr))
    classes = ["orderings"]
    forms = {}
    for t in case["sums"]:
        p = tuple(pool[i] for i in t["ops"])
        if all(commute(p[i], p[j]) for i in range(len(p)) for j in range(i)):
            forms.setdefault(tuple(sorted(p)), []).append(p)
    for p, v in forms.items():
        if normal_form(p)[0] == 0:
            continue
        if len(set(v)) > 1:
            classes.append("orderings of a commuting product")
        ensure(sum(1 for q in after if tuple(sorted(q)) == p) <= 1, "orderings of a product of commuting operators do not merge: %s", clip(after))
    return dict(nontrivial=model != after and max(len(t["ops"]) for t in case["sums"]) >= 3, classes=classes, note="%d -> %d products" % (len(model), len(after)))


def run_case(w, case):
    if case.get("kind") == "orderings":
        return run_orderings(w, case)
    if sum(case["dims"]) > 8 or not case["pool"]:
        raise Discard()
    ns = len(case["types"])
    spaces = space_defs(case["types"])
    labels = [s["label"] for s in spaces]
    setup_spaces(w, spaces)
    pool = case["pool"]
    if any(sum(o["cre"]) + sum(o["ann"]) == 0 for o in pool):
        raise Discard()
    op = lambda o: w.op(o["label"], [component(spaces, o["cre"], o["ann"])])

    def product(idx):
        e = None
        for i in idx:
            e = op(pool[i]) if e is None else e @ op(pool[i])
        return e

    expr = w.OperatorExpression()
    for t in case["sums"]:
        expr = expr + rat(w, Fraction(*t["f"])) * product(t["ops"])
    before = opx.parse(str(expr), labels)
    expr.canonicalize()
    after = opx.parse(str(expr), labels)
    model = Model(case["types"], case["dims"], case["seed"], 2)
    mats = {}

    def mat(o):
        if o not in mats:
            mats[o] = model.gno_to_matrix(model.operator(*o))
        return mats[o]

    def value(d):
        out = np.zeros((1 << model.N, 1 << model.N), dtype=np.int64)
        for p, c in d.items():
            M = None
            for o in p:
                M = mat(o) if M is None else matmul(M, mat(o))
            out = (out + M * frac_mod(c)) % P
        return out

    a, b = value(before), value(after)
    if ((a - b) % P).any():
        raise Violation("canonicalize changed the operator: %s -> %s" % (clip(before), clip(after)))
    ensure(all(sorted(p) in [sorted(q) for q in before] for p in after), "canonicalize made up a product: %s", clip(after))
    classes = []
    if before != after:
        classes.append("reordered")
    if len(after) < len(before):
        classes.append("merged")
    # products of mutually commuting operators have one canonical form
    t = case["sums"][0]["ops"][:3]
    comm = all(
        all(pool[i]["ann"][s] * pool[j]["cre"][s] + pool[i]["cre"][s] * pool[j]["ann"][s] == 0 for s in range(ns))
        for i in t for j in t if i != j
    ) and len(set(repr((pool[i]["label"], pool[i]["cre"], pool[i]["ann"])) for i in t)) == len(t)
    if comm and len(t) > 1:
        classes.append("commuting product")
        par = [(sum(pool[i]["cre"]) + sum(pool[i]["ann"])) % 2 for i in t]
        ref = product(t)
        ref.canonicalize()
        ref = opx.parse(str(ref), labels)
        for p in permutations(range(len(t))):
            x = product([t[i] for i in p])
            x.canonicalize()
            s = 1
            for i in range(len(p)):
                for j in range(i):
                    if p[j] > p[i] and par[p[j]] and par[p[i]]:
                        s = -s
            got = opx.scale(opx.parse(str(x), labels), s)
            ensure(got == ref, "two orderings of commuting operators have canonical forms %s and %s", clip(got), clip(ref))
    return dict(nontrivial=before != after, classes=classes, note="%d -> %d products" % (len(before), len(after)))
