"""C20: contraction brings equivalent terms to one form and merges them."""
import itertools
from collections import Counter
from fractions import Fraction

import hypothesis.strategies as st

from vf.core import Discard, Violation, clip, ensure, expr_terms, rat, setup_spaces
from vf.wick import build_product, operators, paired_operators, space_defs, POOLS

CAMPAIGNS = [dict(name="orders", n=dict(quick=6000, thorough=80000))]
RULE = (
    "a case is a product of 2-6 operators over 1-5 spaces, a sequence of exchanges of neighbours that share no "
    "contractible leg, and a sum of up to 4 orders of the same operators; non-trivial: the exchanges change the product or the sum has "
    "two orders or two operators are equal, and the result has a term with contractions"
)
ASSUMPTIONS = [
    "operators with an odd number of legs are pairwise different (the square of such an operator is zero, which contraction does not notice)",
    "at most 12 legs; graph canonicalization is on (the default)",
]


@st.composite
def strategy_(draw):
    pool = draw(st.sampled_from([["occupied", "unoccupied"], ["occupied", "unoccupied"], ["occupied", "unoccupied", "general"], ["general"]]))
    types = [draw(st.sampled_from(pool)) for _ in range(draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5])))]
    labels = draw(st.sampled_from(POOLS))
    nr = draw(st.sampled_from([(2, 3), (3, 4), (3, 4), (4, 6)]))
    legs = 8 if "general" in types else 12
    gen = draw(st.sampled_from([paired_operators, paired_operators, operators]))
    if draw(st.booleans()):
        ops = [dict(o) for o in draw(gen(types, legs, nr, 6, labels=labels))]
    else:
        # few different operators, each several times
        base = draw(gen(types, 6, (2, 3), 4, labels=labels))
        ops = [dict(o) for o in base]
        for i in draw(st.lists(st.integers(0, 5), max_size=3)):
            if base:
                ops.append(dict(base[i % len(base)]))
        ops = [ops[i] for i in draw(st.permutations(range(len(ops))))]
    # odd operators must differ
    seen = set()
    for o in ops:
        for l in [o["label"], "C", "D", "E", "F", "G"]:
            k = (l, tuple(o["cre"]), tuple(o["ann"]))
            if not size(o) % 2 or k not in seen:
                break
        o["label"] = l
        seen.add(k)
    n = len(ops)
    return dict(
        types=types, ops=ops, swaps=draw(st.lists(st.integers(0, 5), min_size=1, max_size=8)),
        orders=[[draw(st.permutations(range(n))), draw(st.sampled_from([1, -1, 2, 1, -3]))] for _ in range(draw(st.integers(1, 4)))],
        lo=draw(st.sampled_from([0, 0, 0, 2])), hi=draw(st.sampled_from([0, 2, 4, 6, 50, 50, 50])),
        maxcu=draw(st.sampled_from([1, 2, 2, 3])), mt=draw(st.sampled_from([False, False, False, True])),
    )


def size(o):
    return sum(o["cre"]) + sum(o["ann"])


def strategy(tier):
    return strategy_()


def diagram(key):
    """A term up to the names of its indices, the order of its tensors and of antisymmetric legs."""
    tensors, ops, flag = key
    shapes = [(t[0], tuple(sorted(i[0] for i in t[1])), tuple(sorted(i[0] for i in t[2]))) for t in tensors]
    groups = {}
    for n, s in enumerate(shapes):
        groups.setdefault(s, []).append(n)
    names = sorted(groups)
    best = None
    for perms in itertools.product(*[itertools.permutations(groups[g]) for g in names]):
        new = {n: (g, j) for g, p in enumerate(perms) for j, n in enumerate(p)}
        legs = {}
        for n, t in enumerate(tensors):
            for i in t[1]:
                legs.setdefault(i, []).append((0,) + new[n])
            for i in t[2]:
                legs.setdefault(i, []).append((1,) + new[n])
        for cre, i in ops:
            legs.setdefault(i, []).append((2 if cre else 3, 0, 0))
        c = tuple(sorted(Counter((i[0], tuple(sorted(v))) for i, v in legs.items()).items()))
        if best is None or c < best:
            best = c
    return tuple((g, len(groups[g])) for g in names), best


def share(a, b):
    return any(a["cre"][s] * b["ann"][s] or a["ann"][s] * b["cre"][s] for s in range(len(a["cre"])))


def run_case(w, case):
    ops = [o for o in case["ops"] if size(o)]
    general = "general" in case["types"]
    total = sum(map(size, ops))
    if len(ops) < 2 or len(ops) > 6 or total > (10 if general else 14):
        raise Discard()
    # the permutations tried by the canonicalization: operators! x contractions!
    if len(ops) == 6 and total > 8 or len(ops) == 5 and total > 10:
        raise Discard()
    kinds = [(o["label"], tuple(o["cre"]), tuple(o["ann"])) for o in ops]
    odd = [k for k, o in zip(kinds, ops) if size(o) % 2]
    if len(set(odd)) < len(odd):
        raise Discard()
    spaces = space_defs(case["types"])
    setup_spaces(w, spaces)

    def contract(expr, factor=1):
        wt = w.WickTheorem()
        wt.set_single_threaded(not case["mt"])
        wt.set_max_cumulant(case["maxcu"])
        return wt.contract(rat(w, Fraction(factor)), expr, case["lo"], case["hi"])

    def once(e, what):
        seen = {}
        for k, c in expr_terms(w, e):
            d = diagram(k)
            if d in seen:
                raise Violation("%s: the terms %s and %s are the same up to the names and order of their indices" % (what, clip(seen[d]), clip(k)))
            seen[d] = k
        return seen

    e1 = contract(build_product(w, spaces, ops))
    once(e1, "contraction of a product")
    # exchange neighbours that commute
    other, sign = list(ops), 1
    for i in case["swaps"]:
        i %= len(ops) - 1
        if not share(other[i], other[i + 1]):
            sign *= (-1) ** (size(other[i]) * size(other[i + 1]))
            other[i], other[i + 1] = other[i + 1], other[i]
    moved = [o is not p for o, p in zip(ops, other)]
    if any(moved):
        e2 = contract(build_product(w, spaces, other), sign)
        if not (e1 == e2) or str(e1) != str(e2):
            raise Violation("after exchanging commuting operators (sign %d) the contraction is %s instead of %s" % (sign, clip(e2), clip(e1)))
    # a sum of orders
    X = w.OperatorExpression()
    for perm, c in case["orders"]:
        perm = [i for i in perm if i < len(case["ops"])]
        lst = [case["ops"][i] for i in perm if size(case["ops"][i])]
        if len(lst) == len(ops):
            X.add2(build_product(w, spaces, lst), rat(w, Fraction(c)))
    e3 = contract(X)
    seen = once(e3, "contraction of a sum of orders")
    n = len(e1)
    contracted = sum(1 for (t, o, f), c in expr_terms(w, e1) if len(o) < total)
    classes = ["nops=%d" % len(ops), "terms=%s" % ("0" if n == 0 else "1-9" if n < 10 else ">=10")]
    if any(moved):
        classes.append("exchanged")
    if X.size() > 1:
        classes.append("several orders")
    if len(set(kinds)) < len(kinds):
        classes.append("repeated operator")
    if odd:
        classes.append("odd operator")
    if sum(size(o) % 2 for o in ops) and any(moved) and sign < 0:
        classes.append("exchange with sign")
    if general:
        classes.append("general space")
    return dict(
        nontrivial=contracted > 0 and (any(moved) or X.size() > 1 or len(set(kinds)) < len(kinds)),
        classes=classes, note="%d terms, %d with contractions, %d in the sum" % (n, contracted, len(seen)),
    )
