"""C07: similarity-transformed operators (BCH series, commutators) end to end against Fock-space matrices."""
import math
import os
import hypothesis.strategies as st
import numpy as np
from fractions import Fraction

from vf import opx
from vf.core import Discard, Violation, clip, ensure, expr_terms, rat, setup_spaces
from vf.fock import Model, P, frac_mod, inv, matmul
from vf.wick import compare, component, space_defs

CAMPAIGNS = [
    dict(name="bch", n=dict(quick=8000, thorough=50000)),
    dict(name="series", n=dict(quick=1500, thorough=20000)),
]
RULE = (
    "a case is H (1-3 components of up to 6 legs), T (1-2 components, excitation or anti-Hermitian combination T - T+), "
    "a transformation (bch_series of order 0-6, nested commutator; a third with operators of any number of legs) and a rank window, over occupied/unoccupied/general "
    "spaces; the contraction is compared with the commutators of Fock-space matrices; non-trivial: order >= 1 and the "
    "expected operator is not zero in the window; series: the products of operators of a series of order up to 40 or of a "
    "commutator of up to 25 arguments are compared with the expansion in binomial coefficients or with a dictionary model"
)
ASSUMPTIONS = ["random antisymmetric tensors modulo 1000003, at most 7 modes and 14 legs",
    "orders above 4 only with generators that conserve the number of particles of each space (up to 20 legs), since the "
    "cost of a contraction grows exponentially with the number of operators"]


@st.composite
def conserving(draw, ns, max_rank):
    k = draw(st.integers(1, max_rank))
    cre, ann = [0] * ns, [0] * ns
    for _ in range(k):
        cre[draw(st.integers(0, ns - 1))] += 1
        ann[draw(st.integers(0, ns - 1))] += 1
    return dict(cre=cre, ann=ann)


@st.composite
def high_order(draw, tier):
    """Generators that conserve the number of particles of each space: the series does not terminate."""
    types = draw(st.sampled_from([["occupied", "unoccupied"], ["unoccupied", "occupied"], ["occupied", "occupied"], ["unoccupied"], ["occupied"]]))
    ns = len(types)
    unit = lambda s: [int(i == s) for i in range(ns)]
    T = [dict(cre=unit(s), ann=unit(s)) for s in draw(st.lists(st.integers(0, ns - 1), min_size=1, max_size=2, unique=True))]
    H = [draw(conserving(ns, 2)) if draw(st.booleans()) else draw(odd_or_even(ns, 3)) for _ in range(draw(st.integers(1, 2)))]
    order = draw(st.sampled_from([5, 5, 5, 6] if len(T) == 1 else [4, 5, 5]))
    dims = [max(o[k][s] for o in H + T for k in ("cre", "ann")) for s in range(ns)]
    dims = [max(1, d) + draw(st.integers(0, 1)) for d in dims]
    lo = draw(st.sampled_from([0, 0, 1]))
    return dict(
        types=types, H=H, T=T, anti=False, order=order, how=draw(st.sampled_from(["bch", "bch", "comm"])), min=lo, max=lo + draw(st.sampled_from([1, 2, 2])),
        dims=dims, seed=draw(st.integers(0, 99)), maxcu=100, mt=False,
    )


@st.composite
def odd_or_even(draw, ns, max_legs):
    cre, ann = [0] * ns, [0] * ns
    for _ in range(draw(st.integers(1, max_legs))):
        draw(st.sampled_from([cre, ann]))[draw(st.integers(0, ns - 1))] += 1
    return dict(cre=cre, ann=ann)


@st.composite
def odd_cases(draw, tier):
    """Operators with any number of legs, so that some of them anticommute."""
    types = draw(st.sampled_from([["occupied", "unoccupied"], ["unoccupied", "occupied", "unoccupied"], ["general"], ["general", "unoccupied"], ["occupied", "general"]]))
    ns = len(types)
    H = [draw(odd_or_even(ns, 4)) for _ in range(draw(st.integers(1, 2)))]
    T = [draw(odd_or_even(ns, 3)) for _ in range(draw(st.integers(1, 2)))]
    legs = lambda l: max(sum(o["cre"]) + sum(o["ann"]) for o in l)
    anti = draw(st.sampled_from([False, False, True]))
    cap = (8 if "general" in types else 12) - (2 if anti else 0)
    order = min(draw(st.sampled_from([1, 1, 2, 2, 3])), max(1, (cap - legs(H)) // legs(T)))
    dims = [max([1] + [o[k][s] for o in H + T for k in ("cre", "ann")]) for s in range(ns)]
    for _ in range(draw(st.integers(0, 3))):
        s = draw(st.integers(0, ns - 1))
        if sum(dims) < 6 and dims[s] < 3:
            dims[s] += 1
    lo = draw(st.sampled_from([0, 0, 0, 1, 2]))
    return dict(
        types=types, H=H, T=T, anti=anti, order=order, how=draw(st.sampled_from(["bch", "comm"])), min=lo, max=lo + draw(st.integers(0, 5)), dims=dims,
        seed=draw(st.integers(0, 99)), maxcu=draw(st.sampled_from([2, 3, 100])), mt=False,
    )


@st.composite
def cases(draw, tier):
    which = draw(st.integers(0, 9))
    if which == 0:
        return draw(high_order(tier))
    if which < 4:
        return draw(odd_cases(tier))
    kind = draw(st.sampled_from(["sr", "sr", "mr"]))
    if kind == "sr":
        types = draw(st.sampled_from([["occupied", "unoccupied"], ["unoccupied", "occupied"], ["occupied", "occupied", "unoccupied"], ["occupied", "unoccupied", "unoccupied"]]))
    else:
        types = draw(st.sampled_from([["occupied", "general", "unoccupied"], ["general"], ["general", "unoccupied"], ["occupied", "general"]]))
    ns = len(types)
    H = [draw(conserving(ns, draw(st.sampled_from([2, 2, 3])))) for _ in range(draw(st.integers(1, 3)))]
    T = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
        cre, ann = [0] * ns, [0] * ns
        down = [s for s in range(ns) if types[s] != "unoccupied"]
        up = [s for s in range(ns) if types[s] != "occupied"]
        for _ in range(k):
            cre[draw(st.sampled_from(up or down))] += 1
            ann[draw(st.sampled_from(down or up))] += 1
        T.append(dict(cre=cre, ann=ann))
    if draw(st.integers(0, 3)) == 0:
        # a de-excitation that can be contracted completely
        o = draw(st.sampled_from(T))
        H.append(dict(cre=list(o["ann"]), ann=list(o["cre"])))
    anti = draw(st.sampled_from([False, False, True]))
    hl = max(sum(o["cre"]) + sum(o["ann"]) for o in H)
    tl = max(sum(o["cre"]) + sum(o["ann"]) for o in T)
    cap = 14 if kind == "sr" else 8
    if tier != "quick":
        cap += 2 if kind == "sr" else 2
    nmax = max(0, (cap - hl) // tl)
    order = min(nmax, draw(st.sampled_from([0, 1, 2, 3, 3, 4, 4])))
    if anti:
        order = min(order, 2 if tier == "quick" else 3)
    dims = [max([1] + [max(o["cre"][s], o["ann"][s]) for o in H + T] + ([max(o["ann"][s] for o in T)] if anti else [])) for s in range(ns)]
    for _ in range(draw(st.integers(0, 4))):
        s = draw(st.integers(0, ns - 1))
        if sum(dims) < (7 if kind == "sr" else 6) and dims[s] < 3:
            dims[s] += 1
    lo = draw(st.sampled_from([0, 0, 0, 2]))
    return dict(
        types=types, H=H, T=T, anti=anti, order=order, how=draw(st.sampled_from(["bch", "bch", "bch", "comm"])),
        min=lo, max=draw(st.sampled_from([0, 2, 2, 4, 4, 6])) + lo, dims=dims, seed=draw(st.integers(0, 99)),
        maxcu=draw(st.sampled_from([2, 3, 100])), mt=False,
    )


@st.composite
def series_cases(draw):
    """The products of operators of long series and commutators (without a contraction)."""
    ns = draw(st.integers(1, 3))
    types = [draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in range(ns)]
    leg = st.lists(st.integers(0, 2), min_size=ns, max_size=ns)
    ops = [dict(label=l, cre=draw(leg), ann=draw(leg)) for l in draw(st.sampled_from(["HT", "TH", "AB", "TT"]))]
    f = [draw(st.sampled_from([[1, 1], [1, 1], [-1, 2], [3, 1]])) for _ in ops]
    if draw(st.integers(0, 2)):
        # one operator each: sum over k and j of f0 f1^k (-1)^j binom(k, j)/k! B^j A B^(k - j)
        return dict(series=1, types=types, ops=ops, f=f, order=draw(st.integers(0, 40)))
    return dict(series=2, types=types, ops=ops, f=f, args=draw(st.lists(st.sampled_from([0, 1, 1]), min_size=2, max_size=25)))


def run_series(w, case):
    spaces = space_defs(case["types"])
    setup_spaces(w, spaces)
    letters = "".join(s["label"] for s in spaces)
    ops = [[o["label"], tuple(o["cre"]), tuple(o["ann"])] for o in case["ops"]]
    if any(sum(o[1]) + sum(o[2]) == 0 for o in ops):
        raise Discard()
    ex = [w.op(o["label"], [component(spaces, o["cre"], o["ann"])]) for o in case["ops"]]
    f = [Fraction(*x) for x in case["f"]]
    ex = [rat(w, x) * e for x, e in zip(f, ex)]
    a, b = tuple(ops[0]), tuple(ops[1])
    want = {}
    if case["series"] == 1:
        for k in range(case["order"] + 1):
            for j in range(k + 1):
                q = (b,) * j + (a,) + (b,) * (k - j)
                c = f[0] * f[1] ** k * Fraction((-1) ** j * math.comb(k, j), math.factorial(k))
                want[q] = want.get(q, 0) + c
        want = {q: c for q, c in want.items() if c}
        x = w.bch_series(ex[0], ex[1], case["order"])
        what = "series of order %d" % case["order"]
    else:
        m = [{(a,): f[0]}, {(b,): f[1]}]
        args = []
        want = m[case["args"][0]]
        args.append(case["args"][0])
        for r in case["args"][1:]:
            if len(want) > 200:
                break
            want = opx.comm(want, m[r])
            args.append(r)
        x = w.commutator(*[ex[r] for r in args])
        what = "commutator of %d arguments" % len(args)
    got = opx.parse(str(x), letters)
    if got != want:
        q = min((q for q in set(got) | set(want) if got.get(q) != want.get(q)), key=lambda q: (len(q), repr(q)))
        raise Violation("%s: product %s has coefficient %s, expected %s" % (what, clip(q), got.get(q, 0), want.get(q, 0)))
    ensure(x.size() == len(want), "size() is %d, expected %d", x.size(), len(want))
    return dict(nontrivial=len(want) > 2, classes=["series" if case["series"] == 1 else "long commutator"], note="%d products" % len(want))


def strategy(tier):
    return series_cases() if os.environ.get("VF_CAMPAIGN") == "1" else cases(tier)


def run_case(w, case):
    if "series" in case:
        return run_series(w, case)
    types, H, T, n = case["types"], case["H"], case["T"], case["order"]
    if not H or not T or sum(case["dims"]) > 8:
        raise Discard()
    legs = max(sum(o["cre"]) + sum(o["ann"]) for o in H) + n * max(sum(o["cre"]) + sum(o["ann"]) for o in T)
    if legs > 20 or min(sum(o["cre"]) + sum(o["ann"]) for o in H + T) == 0:
        raise Discard()
    spaces = space_defs(types)
    setup_spaces(w, spaces)
    # components with the same content would be one operator counted twice: keep them distinct
    uniq = lambda lst: [dict(cre=list(c), ann=list(a)) for c, a in dict.fromkeys((tuple(o["cre"]), tuple(o["ann"])) for o in lst)]
    H, T = uniq(H), uniq(T)
    h = w.op("H", [component(spaces, o["cre"], o["ann"]) for o in H])
    t = w.op("T", [component(spaces, o["cre"], o["ann"]) for o in T])
    if case["anti"]:
        t = t - t.adjoint()
    if case["how"] == "bch":
        x = w.bch_series(h, t, n)
    else:
        x = w.commutator(*([h] + [t] * n))
    wt = w.WickTheorem()
    wt.set_single_threaded(True)
    wt.set_max_cumulant(case["maxcu"])
    res = wt.contract(w.rational(1), x, case["min"], case["max"])
    model = Model(types, case["dims"], case["seed"], min(3, case["maxcu"]))
    mat = lambda l, c, a: model.gno_to_matrix(model.operator(l, c, a))
    Hm = sum(mat("H", o["cre"], o["ann"]) for o in H) % P
    Tm = sum(mat("T", o["cre"], o["ann"]) for o in T) % P
    if case["anti"]:
        Tm = (Tm - sum(mat("T", o["ann"], o["cre"]) for o in T)) % P
    cur, tot = Hm, Hm.copy()
    for k in range(1, n + 1):
        cur = (matmul(cur, Tm) - matmul(Tm, cur)) % P
        if case["how"] == "bch":
            cur = cur * inv(k) % P
        tot = (tot + cur) % P
    want = model.matrix_to_gno(tot if case["how"] == "bch" else cur)
    got = model.expression(expr_terms(w, res))
    compare(model, got, want, case["min"], case["max"], "%s of order %d" % (case["how"], n))
    # excitation operators commute, so that the commutator of any two of them vanishes
    classes = [case["how"], "order=%d" % n]
    pure = not case["anti"] and all((sum(o["cre"]) + sum(o["ann"])) % 2 == 0 for o in T) and all(
        (o["ann"][s] == 0 if ty != "occupied" else o["cre"][s] == 0) for o in T for s, ty in enumerate(types) if ty != "general"
    ) and "general" not in types
    if pure:
        for i in range(len(T)):
            a = w.op("T", [component(spaces, T[i]["cre"], T[i]["ann"])])
            b = w.op("S", [component(spaces, T[-1]["cre"], T[-1]["ann"])])
            c = wt.contract(w.rational(1), w.commutator(a, b), 0, 20)
            ensure(len(c) == 0, "the commutator of excitation operators is not zero: %s", clip(c))
        classes.append("excitations")
        top = max(sum(o["cre"]) + sum(o["ann"]) for o in H)
        if case["how"] == "bch" and n > top:
            classes.append("beyond termination")
    r = model.ranks()
    nz = bool((want * ((r >= case["min"]) & (r <= case["max"]))).any())
    if "general" in types:
        classes.append("multireference")
    if case["anti"]:
        classes.append("anti-Hermitian")
    if any((sum(o["cre"]) + sum(o["ann"])) % 2 for o in T):
        classes.append("odd generator")
    if nz:
        classes.append("nonzero")
    return dict(nontrivial=n >= 1 and nz, classes=classes, note="%d terms" % len(res))
