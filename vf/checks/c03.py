"""C03: rank window and cumulant cutoff are exact filters; contraction is linear."""
import hypothesis.strategies as st
from fractions import Fraction

from vf.core import Discard, Violation, clip, ensure, expr_dict, rat, setup_spaces
from vf.wick import component, operators, paired_operators, space_defs

CAMPAIGNS = [dict(name="filters", n=dict(quick=6000, thorough=60000))]
RULE = (
    "a case is two sums of operators X, Y and an operator Z over 1-3 spaces, a rank window, a cumulant cutoff and a "
    "factor; non-trivial: the unfiltered contraction has terms both kept and removed by the window or the cutoff"
)
ASSUMPTIONS = ["at most 9 legs per product"]


@st.composite
def strategy_(draw):
    types = [draw(st.sampled_from(["occupied", "unoccupied", "general", "general"])) for _ in range(draw(st.integers(1, 3)))]
    k = draw(st.integers(2, 3))
    if draw(st.booleans()):
        base = draw(paired_operators(types, 8, (k, k)))
    else:
        base = draw(operators(types, 8, (k, k)))
    extra = draw(operators(types, 4, (1, 2), max_op_legs=4))
    return dict(
        types=types, base=base, extra=extra, at=draw(st.integers(0, 5)),
        lo=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, -1])), hi=draw(st.sampled_from([0, 1, 2, 2, 3, 4, 6, 50])),
        maxcu=draw(st.sampled_from([0, 1, 1, 2, 2, 3])),
        factor=draw(st.sampled_from([[1, 2], [-3, 1], [2, 3], [0, 1], [-1, 7], [1, 10**12], [10**30, 3], [-1, 10**40]])),
        mt=draw(st.sampled_from([False, False, True])),
    )


def strategy(tier):
    return strategy_()


def kept(d, lo, hi, cu):
    out = {}
    for (tensors, ops, flag), c in d.items():
        if not lo <= len(ops) <= hi:
            continue
        r = max([0] + [int(t[0][6:]) if t[0].startswith("lambda") else 1 for t in tensors if t[0] in ("gamma1", "eta1") or t[0].startswith("lambda")])
        if r > cu:
            continue
        out[(tensors, ops, flag)] = c
    return out


def add(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def same(a, b, what):
    if a == b:
        return
    only = [k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)]
    k = min(only, key=lambda k: (len(k[0]) + len(k[1]), repr(k)))
    raise Violation(
        "%s: term %s has coefficient %s, expected %s (%d terms differ)"
        % (what, clip(k), a.get(k, 0), b.get(k, 0), len(only))
    )


def run_case(w, case):
    ops = case["base"]
    if not ops or sum(sum(o["cre"]) + sum(o["ann"]) for o in ops) > 14:
        raise Discard()
    spaces = space_defs(case["types"])
    setup_spaces(w, spaces)

    def one(o):
        return w.op(o["label"], [component(spaces, o["cre"], o["ann"])])

    def product(lst):
        e = None
        for o in lst:
            e = one(o) if e is None else e @ one(o)
        return e

    def contract(expr, lo=-5, hi=100, cu=None, factor=None):
        wt = w.WickTheorem()
        wt.set_single_threaded(not case["mt"])
        if cu is not None:
            wt.set_max_cumulant(cu)
        if factor is None:
            return expr_dict(w, wt.contract(expr, lo, hi))
        return expr_dict(w, wt.contract(rat(w, Fraction(*factor)), expr, lo, hi))

    lo, hi, cu, f = case["lo"], case["hi"], case["maxcu"], Fraction(*case["factor"])
    X = product(ops)
    full = contract(X)
    want = kept(full, lo, hi, 99)
    same(contract(X, lo, hi), want, "rank window [%d,%d]" % (lo, hi))
    wantc = kept(full, -9, 99, cu)
    same(contract(X, cu=cu), wantc, "cumulant cutoff %d" % cu)
    same(contract(X, lo, hi, cu, case["factor"]), {k: v * f for k, v in kept(full, lo, hi, cu).items() if v * f},
         "window, cutoff and factor %s" % f)
    # linearity: replace one operator by a sum
    i = case["at"] % len(ops)
    total = contract(X)
    sumexpr = one(ops[i])
    parts = [total]
    legs0 = sum(sum(o["cre"]) + sum(o["ann"]) for k, o in enumerate(ops) if k != i)
    for o in case["extra"]:
        if sum(o["cre"]) + sum(o["ann"]) == 0 or legs0 + sum(o["cre"]) + sum(o["ann"]) > 9:
            continue
        sumexpr = sumexpr + one(o)
        parts.append(contract(product(ops[:i] + [o] + ops[i + 1:])))
    Y = None
    for k, o in enumerate(ops):
        y = sumexpr if k == i else one(o)
        Y = y if Y is None else Y @ y
    same(contract(Y), add(*parts), "contraction of a product of sums")
    same(contract(Y, factor=case["factor"]), {k: v * f for k, v in add(*parts).items() if v * f}, "factor %s" % f)
    same(contract(X - X), {}, "contraction of zero")
    # coefficients of very different size
    g = Fraction(1, 10**14)
    E = w.OperatorExpression()
    if len(parts) > 1:
        E.add2(Y, rat(w, Fraction(1)))
    E.add2(X, rat(w, g))
    same(contract(E, lo, hi), add({k: v * g for k, v in kept(full, lo, hi, 99).items()}, kept(add(*parts), lo, hi, 99) if len(parts) > 1 else {}),
         "contraction of a sum with coefficients of different size")
    n = len(full)
    classes = ["terms=%s" % ("0" if n == 0 else "1-9" if n < 10 else ">=10")]
    if 0 < len(want) < n:
        classes.append("window splits")
    if 0 < len(wantc) < n:
        classes.append("cutoff splits")
    if len(parts) > 1:
        classes.append("sum of operators")
    return dict(nontrivial=0 < len(want) < n or 0 < len(wantc) < n, classes=classes,
                note="%d terms, %d in the window, %d below the cutoff" % (n, len(want), len(wantc)))
