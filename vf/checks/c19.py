"""C19: the combinatorial kernels everything else is built on: index and operator orders, sorting signs, partitions."""
import hypothesis.strategies as st
from fractions import Fraction

from vf.core import Discard, Violation, clip, ensure, frac, idx, setup_spaces
from vf.fock import perm_sign

CAMPAIGNS = [dict(name="kernels", n=dict(quick=10000, thorough=300000))]
RULE = (
    "a case is a list of up to 40 indices over 1-8 spaces (sorted, with the sign of the sorting permutation; two lists that "
    "differ by a permutation give the same list and signs that differ by its parity), a set of up to 12 operators compared "
    "pairwise in both documented orders (strict, total, transitive, equal to the order of a key), or a partition problem "
    "(n <= 24 quick, 34 thorough; any length bound) compared with an independent enumeration; non-trivial: a list that is not sorted, "
    ">= 3 distinct operators, or n >= 3"
)
ASSUMPTIONS = ["the length bound of a partition of n >= 1 is at least 1"]


@st.composite
def cases(draw, nmax):
    kind = draw(st.sampled_from(["indices", "indices", "ops", "ops", "partitions"]))
    if kind == "partitions":
        n = draw(st.integers(-2, nmax))
        return dict(kind=kind, n=n, maxlen=draw(st.integers(1, nmax + 3)))
    ns = draw(st.sampled_from([1, 2, 3, 4, 8]))
    wide = draw(st.integers(0, 3)) == 0
    pos = st.one_of(st.integers(0, 3), st.integers(0, 70), st.integers(0, 2**31 - 1))
    ix = st.tuples(st.integers(0, ns - 1), pos).map(list)
    types = [draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in range(ns)]
    fields = [draw(st.sampled_from(["fermion", "boson"])) for _ in range(ns)]
    if kind == "indices":
        v = draw(st.lists(ix, max_size=40 if wide else 9, unique_by=None if draw(st.integers(0, 3)) == 0 else tuple))
        return dict(kind=kind, types=types, fields=fields, v=v, perm=draw(st.permutations(range(len(v)))), reverse=draw(st.booleans()))
    return dict(kind=kind, types=types, fields=fields, ops=draw(st.lists(st.tuples(st.booleans(), ix).map(list), min_size=1, max_size=12 if wide else 7)))


def strategy(tier):
    return cases(24 if tier == "quick" else 34)


def partitions(n, largest):
    """All non-increasing lists of positive integers summing to n."""
    if n == 0:
        yield ()
    for k in range(min(n, largest), 0, -1):
        for rest in partitions(n - k, k):
            yield (k,) + rest


def run_case(w, case):
    kind = case["kind"]
    if kind == "partitions":
        n, m = case["n"], case["maxlen"]
        got = w.integer_partitions(n, m)
        want = set(p for p in partitions(n, n) if len(p) <= m) if n >= 0 else set()
        ensure(len(set(map(tuple, got))) == len(got), "integer_partitions(%d,%d) lists a partition twice", n, m)
        have = set(tuple(sorted(p, reverse=True)) for p in got)
        ensure(have == want, "integer_partitions(%d,%d): missing %s, wrong %s", n, m, clip(sorted(want - have)), clip(sorted(have - want)))
        ensure(all(list(p) == sorted(p, reverse=True) for p in got), "integer_partitions(%d,%d): a partition is not in decreasing order", n, m)
        return dict(nontrivial=n >= 3, classes=["partitions", "bounded" if m < n else "all"], note="%d partitions" % len(want))
    setup_spaces(w, [dict(label="oavbcdgh"[i], type=t, field=f, indices=["oavbcdgh"[i]]) for i, (t, f) in enumerate(zip(case["types"], case["fields"]))])
    if kind == "indices":
        v = [tuple(i) for i in case["v"]]
        arg = [w.Index(*i) for i in v]
        sign, out = w.canonicalize_indices(arg, case["reverse"])
        ensure([idx(i) for i in arg] == v, "canonicalize_indices changed its argument")
        got = [idx(i) for i in out]
        ensure(got == sorted(v, reverse=case["reverse"]), "canonicalize_indices(%s, %s) gives %s", v, case["reverse"], got)
        s = frac(sign)
        ensure(s in (1, -1), "canonicalize_indices gives the sign %s", s)
        if len(set(v)) == len(v):
            want = perm_sign([sorted(v, reverse=case["reverse"]).index(i) for i in v])
            ensure(s == want, "canonicalize_indices(%s, %s) gives the sign %s, expected %s", v, case["reverse"], s, want)
            # a permutation of the list changes the sign by its parity
            s2, out2 = w.canonicalize_indices([arg[k] for k in case["perm"]], case["reverse"])
            ensure([idx(i) for i in out2] == got and frac(s2) == s * perm_sign(case["perm"]), "canonicalize_indices(%s, %s) is not antisymmetric: permutation %s", v, case["reverse"], case["perm"])
        for a in v:
            for b in v:
                x, y = w.Index(*a), w.Index(*b)
                ensure((x < y) == (a < b) and (x == y) == (a == b), "indices %s and %s are compared wrongly", a, b)
        return dict(nontrivial=len(v) >= 2 and got != v, classes=["indices", "repeated index" if len(set(v)) < len(v) else "distinct"], note="%s -> %s" % (v, s))
    ops = [(bool(c), tuple(i)) for c, i in case["ops"]]
    objs = [w.SQOperator(w.type.cre if c else w.type.ann, w.Index(*i)) for c, i in ops]
    for (c, i), o in zip(ops, objs):
        ensure((o.type() == w.type.cre) == c and idx(o.index()) == i, "operator %s is %s", (c, i), o)
        ensure((o.field_type() == w.stat.fermion) == (case["fields"][i[0]] == "fermion"), "field type of %s", o)

    def key(c, i):
        return (0, i) if c else (1, (-i[0], -i[1]))

    def nkey(c, i):
        q = (not c) if case["types"][i[0]] == "occupied" else c
        return (0, i) if q else (1, (-i[0], -i[1]))

    for a, x in zip(ops, objs):
        for b, y in zip(ops, objs):
            ensure((x == y) == (a == b), "%s == %s is %s", x, y, x == y)
            ensure((x < y) == (key(*a) < key(*b)), "%s < %s is %s", x, y, x < y)
            ensure(
                x.normal_ordered_less(y) == (nkey(*a) < nkey(*b)), "normal_ordered_less(%s, %s) is %s (spaces %s)", x, y, x.normal_ordered_less(y), case["types"],
            )
    return dict(nontrivial=len(set(ops)) >= 3, classes=["operators"], note=clip(objs, 100))
