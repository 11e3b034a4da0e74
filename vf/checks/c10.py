"""C10: rewriting plain operator products in vacuum normal order keeps the operator."""
import hashlib
import os
from itertools import product

import hypothesis.strategies as st
from fractions import Fraction

from vf import terms
from vf.core import Discard, Violation, clip, ensure, expr_dict, expr_terms, setup_spaces
from vf.fock import P, frac_mod

CAMPAIGNS = [
    dict(name="fock", n=dict(quick=6000, thorough=120000)),
    dict(name="long", n=dict(quick=2500, thorough=40000)),
]
RULE = (
    "a case is an expression of 1-3 plain operator strings (up to 7 operators, fermions and bosons over 1-3 spaces, "
    "with or without tensors) and two expressions are compared as operators on Fock space for assignments of modes to "
    "index labels; non-trivial: an operator pair was contracted and the operator is not zero; long: up to 14 operators on few labels (same-index contractions) or up to 9 over 1-8 spaces"
)
ASSUMPTIONS = [
    "normal order is with respect to the true vacuum: creation operators (ascending) before annihilation operators (descending)",
    "a tensor labelled delta made by the rewriting is the Kronecker delta; with only_same_index_contractions different "
    "labels stand for different modes",
    "occupation-number states with up to 2 (thorough 3) bosons per mode more than a string can remove",
]


@st.composite
def cases(draw, tier):
    ns = draw(st.sampled_from([1, 1, 2, 3]))
    fields = [draw(st.sampled_from(["fermion", "fermion", "boson"])) for _ in range(ns)]
    pos = st.integers(0, draw(st.sampled_from([0, 1, 1, 2, 3])))
    ix = st.tuples(st.integers(0, ns - 1), pos).map(list)
    maxops = 7 if tier == "quick" else 9
    labels = st.sampled_from(["t", "V", "x"])
    ts = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        nt = draw(st.sampled_from([0, 0, 1, 2]))
        n = draw(st.integers(0, maxops))
        mode = draw(st.integers(0, 2))
        ops = []
        for k in range(n):
            if mode == 1:  # anti-ordered: annihilators first
                c = k >= n // 2
            else:
                c = draw(st.booleans())
            ops.append([c, draw(ix)])
        ts.append(
            dict(
                t=[[draw(labels), draw(st.lists(ix, max_size=2)), draw(st.lists(ix, max_size=2))] for _ in range(nt)],
                o=ops, flag=False, f=draw(st.sampled_from(terms.FACTORS)),
            )
        )
    return dict(
        types=[draw(st.sampled_from(terms.TYPES)) for _ in range(ns)], fields=fields, terms=ts,
        same=draw(st.sampled_from([False, False, True])), dims=[draw(st.sampled_from([2, 3])) for _ in range(ns)],
        seed=draw(st.integers(0, 99)), flagged=draw(st.sampled_from([-1, -1, -1, 0, 1])),
    )


@st.composite
def long_cases(draw):
    """Up to 14 operators on few modes, or up to 9 over many spaces; any index positions."""
    same = draw(st.sampled_from([True, True, False]))
    ns = draw(st.sampled_from(terms.MANY))
    fields = [draw(st.sampled_from(["fermion", "fermion", "boson"])) for _ in range(ns)]
    pool = draw(st.lists(st.tuples(st.integers(0, ns - 1), st.sampled_from([0, 1, 2, 9, 10, 11, 31, 64, 100, 1000, 2**31 - 1])).map(list), min_size=1, max_size=3 if same else 8))
    ops = draw(st.lists(st.tuples(st.booleans(), st.sampled_from(pool)).map(list), min_size=6, max_size=14 if same else 9))
    shape = draw(st.integers(0, 3))
    if shape == 0:  # annihilators first
        ops = [o for o in ops if not o[0]] + [o for o in ops if o[0]]
    elif shape == 1:  # in order up to one operator
        ops.sort(key=lambda o: (not o[0], o[1] if o[0] else [-o[1][0], -o[1][1]]))
        o = ops.pop(draw(st.integers(0, len(ops) - 1)))
        ops.insert(draw(st.integers(0, len(ops))), o)
    ts = [dict(t=[["V", [], []]] if draw(st.booleans()) else [], o=ops, flag=False, f=draw(st.sampled_from(terms.FACTORS)))]
    if draw(st.booleans()):
        o2 = list(ops)
        k = draw(st.integers(0, len(ops) - 2))
        o2[k], o2[k + 1] = o2[k + 1], o2[k]
        ts.append(dict(ts[0], o=o2, f=draw(st.sampled_from(terms.FACTORS))))
    return dict(
        types=[draw(st.sampled_from(terms.TYPES)) for _ in range(ns)], fields=fields, terms=ts, same=same, dims=[2] * ns,
        seed=draw(st.integers(0, 99)), flagged=draw(st.sampled_from([-1, -1, -1, 0, 1])),
    )


def strategy(tier):
    return long_cases() if os.environ.get("VF_CAMPAIGN") == "1" else cases(tier)


def element(seed, label, up, lo):
    h = hashlib.sha256(repr((seed, label, up, lo)).encode()).digest()
    return int.from_bytes(h[:6], "big") % (P - 1) + 1


def act(string, state, ferm):
    """string of (cre, mode) on a basis state {mode: n}; unnormalized bosons (d/dx, x).
    -> (factor, state) or None"""
    s = dict(state)
    f = 1
    for cre, m in reversed(string):
        n = s.get(m, 0)
        if ferm[m[0]]:
            if cre == bool(n):
                return None
            if sum(1 for q, k in s.items() if k and ferm[q[0]] and q < m) % 2:
                f = -f
            s[m] = 1 if cre else 0
        elif cre:
            s[m] = n + 1
        else:
            if n == 0:
                return None
            f *= n
            s[m] = n - 1
    return f, tuple(sorted((q, k) for q, k in s.items() if k))


def apply_terms(ts, assign, ferm, states, seed, delta):
    out = {}
    for (tensors, ops, _), c in ts:
        v = frac_mod(c)
        for label, up, lo in tensors:
            u, l = tuple(assign[i] for i in up), tuple(assign[i] for i in lo)
            if label == "delta" and delta:
                ensure(len(u) == len(l) == 1, "delta with %d+%d indices", len(u), len(l))
                v *= u == l
            else:
                v = v * element(seed, label, u, l) % P
        if not v:
            continue
        string = [(o[0], assign[o[1]]) for o in ops]
        for n, s in enumerate(states):
            r = act(string, s, ferm)
            if r:
                k = (n, r[1])
                out[k] = (out.get(k, 0) + v * r[0]) % P
    return {k: v for k, v in out.items() if v}


def in_order(ops):
    key = lambda o: (not o[0], o[1]) if o[0] else (True, (-o[1][0], -o[1][1]))
    return all(key(a) <= key(b) for a, b in zip(ops, ops[1:]))


def run_case(w, case):
    fields = case["fields"]
    setup_spaces(w, terms.spaces_of(fields, case["types"]))
    ferm = [f == "fermion" for f in fields]
    e = w.Expression()
    for t in case["terms"]:
        e += terms.term(w, dict(t, flag=False), w.sym.anti)
    before = expr_terms(w, e)
    ensure(
        e.is_vacuum_normal_ordered() == all(in_order(k[1]) for k, c in before),
        "is_vacuum_normal_ordered says %s for %s", e.is_vacuum_normal_ordered(), clip(e),
    )
    if 0 <= case["flagged"] < len(case["terms"]) and case["terms"][case["flagged"]]["o"]:
        e2 = e + w.Expression()
        t = dict(case["terms"][case["flagged"]], flag=True, f=[1, 1])
        e2 += terms.term(w, t, w.sym.anti)
        try:
            e2.vacuum_normal_ordered(case["same"])
        except RuntimeError:
            pass
        else:
            raise Violation("an expression with a term labelled normal ordered was rewritten: %s" % clip(e2))
    r = e.vacuum_normal_ordered(case["same"])
    ensure(expr_terms(w, e) == before, "vacuum_normal_ordered changed the expression it was called on")
    after = expr_terms(w, r)
    for k, c in after:
        ensure(in_order(k[1]), "a term is not in normal order: %s", clip(k))
        ensure(not k[2], "a term is labelled normal ordered: %s", clip(k))
        ensure(c != 0, "a term with coefficient zero: %s", clip(k))
    ensure(r.is_vacuum_normal_ordered(), "is_vacuum_normal_ordered is false for %s", clip(r))
    r2 = r.vacuum_normal_ordered(case["same"])
    # a second pass only drops terms with squares of fermionic operators, there are none left
    ensure(expr_dict(w, r2) == expr_dict(w, r), "normal ordering twice changes %s into %s", clip(r), clip(r2))

    labels = sorted(set(i for k, c in before + after for i in [o[1] for o in k[1]] + [i for t in k[0] for i in t[1] + t[2]]))
    opl = sorted(set(o[1] for k, c in before for o in k[1]))
    per = {s: [i for i in opl if i[0] == s] for s in range(len(fields))}
    if case["same"]:
        choices = [{i: i for i in labels}]
    else:
        free = opl[:]
        n = 1
        for i in free:
            n *= case["dims"][i[0]]
        if n > 4096:
            raise Discard()
        fixed = {i: (i[0], i[1] % case["dims"][i[0]]) for i in labels}
        alls = list(product(*[[(i[0], k) for k in range(case["dims"][i[0]])] for i in free]))
        # a spread of assignments, including all-equal ones
        step = max(1, len(alls) // 12)
        off = case["seed"] % step
        pick = [alls[0]] + alls[off::step][:12] + [alls[-1]]
        choices = [{**fixed, **dict(zip(free, a))} for a in pick]
    nonzero = False
    for assign in choices:
        modes = sorted(set(assign[i] for i in opl))
        nann = {m: max([0] + [sum(1 for o in k[1] if not o[0] and assign[o[1]] == m) for k, c in before]) for m in modes}
        ranges = [range(2) if ferm[m[0]] else sorted({0, 1, nann[m], nann[m] + 1} | ({2, nann[m] + 2} if len(modes) < 3 else set())) for m in modes]
        total = 1
        for x in ranges:
            total *= len(x)
        states = [dict(zip(modes, x)) for x in product(*ranges)]
        if total > 64:
            states = states[:: total // 64 + 1] + [states[-1]]
        a = apply_terms(before, assign, ferm, states, case["seed"], False)
        b = apply_terms(after, assign, ferm, states, case["seed"], True)
        nonzero = nonzero or bool(a)
        if a != b:
            k = min(q for q in set(a) | set(b) if a.get(q, 0) != b.get(q, 0))
            raise Violation(
                "%s -> %s changes the operator: on the state %s (labels %s) the amplitude of %s is %d before and %d after"
                % (clip(before), clip(after), states[k[0]], assign, k[1], a.get(k, 0), b.get(k, 0))
            )
    most = max([0] + [len(k[1]) for k, c in before])
    contracted = any(len(k[1]) < most for k, c in after) and len(after) > len(before)
    classes = ["same index only" if case["same"] else "all contractions"]
    if any(t[0] == "delta" for k, c in after for t in k[0]):
        classes.append("delta")
    for s in range(len(fields)):
        if per[s]:
            classes.append(fields[s])
    if len(after) >= 8:
        classes.append(">=8 terms")
    return dict(nontrivial=contracted and nonzero, classes=sorted(set(classes)), note="%d -> %d terms" % (len(before), len(after)))
