"""C09: canonicalizing an expression keeps its value and identifies renamed terms."""
import os
import hypothesis.strategies as st
from fractions import Fraction

from vf import terms
from vf.core import Discard, Violation, clip, ensure, expr_dict, expr_terms, setup_spaces
from vf.values import Values

CAMPAIGNS = [
    dict(name="values", n=dict(quick=12000, thorough=160000)),
    dict(name="networks", n=dict(quick=5000, thorough=50000)),
]
RULE = (
    "a case is an expression of 1-3 terms with up to 4 tensors of up to 3+3 indices and up to 4 operators (labelled "
    "normal ordered, or creators before annihilators) over 1-3 fermionic or bosonic spaces, with a renaming of the "
    "dummy indices and a reordering of the tensors of the first term; non-trivial: canonicalization changed a term "
    "that has a non-zero value; networks: chains of up to 6 tensors with 6 slots each over up to 16 spaces, any index positions; tensors of one label and shape that differ in their spaces"
)
ASSUMPTIONS = [
    "all indices that appear in a tensor are summed; an index found only in operators is external and keeps its label",
    "tensors of one expression are all antisymmetric or all symmetric, with random values modulo 1000003",
    "identical canonical forms after renaming/reordering are required when the tensors of the term differ in their label "
    "or in the number of their upper and lower indices per space",
]


@st.composite
def a_term(draw, ns, labels):
    """Indices are drawn from a few per space, so that contractions are frequent."""
    npos = draw(st.sampled_from([1, 2, 2, 3]))
    pos = st.integers(0, npos - 1) if draw(st.integers(0, 3)) else st.sampled_from([0, 1, 3, 5, 12])
    ix = st.tuples(st.integers(0, ns - 1), pos).map(list)
    nt = draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4]))
    rank = draw(st.sampled_from([1, 2, 2, 3]))
    ts = [
        [draw(labels), draw(st.lists(ix, max_size=rank, unique_by=tuple)), draw(st.lists(ix, max_size=rank, unique_by=tuple))]
        for _ in range(nt)
    ]
    used = [i for t in ts for i in t[1] + t[2]]
    opix = ix if not used or draw(st.integers(0, 5)) == 0 else st.sampled_from(used)
    ops = draw(st.lists(st.tuples(st.booleans(), opix).map(list), max_size=4))
    flag = draw(st.booleans())
    if not flag:
        ops = [o for o in ops if o[0]] + [o for o in ops if not o[0]]
    return dict(t=ts, o=ops, flag=flag, f=draw(st.sampled_from(terms.FACTORS)))


@st.composite
def network(draw, ns, labels, spaces=None):
    """A chain of up to 6 tensors with 6 slots and arbitrary index positions; up to 6 operators."""
    spaces = st.sampled_from(spaces if spaces else list(range(ns)))
    nt = draw(st.integers(2, 6))
    pos = draw(st.sampled_from([list(range(9)), [0, 1, 2, 9, 10, 11, 31, 32, 63, 64], [5, 7, 100, 127, 128, 1000, 65536, 2**31 - 1]]))
    slots = [[[], []] for _ in range(nt)]
    room = lambda x, s: [k for k in (0, 1) if len(slots[x][0]) + len(slots[x][1]) < 6 and sum(1 for i in slots[x][k] if i[0] == s) < 3]
    single, used = [], set()
    for _ in range(draw(st.integers(3, 18))):
        i = [draw(spaces), draw(st.sampled_from(pos))]
        n = draw(st.integers(0, nt - 1))
        m = n + 1 if n + 1 < nt and draw(st.integers(0, 3)) else n
        if tuple(i) in used or not room(n, i[0]) or not room(m, i[0]):
            continue
        used.add(tuple(i))
        for x in {n, m}:
            l = slots[x][draw(st.sampled_from(room(x, i[0])))]
            l.insert(draw(st.integers(0, len(l))), list(i))
        if n == m:
            single.append(i)
    ops = draw(st.lists(st.sampled_from(single), max_size=5, unique_by=tuple)) if single else []
    if draw(st.integers(0, 5)) == 0:
        ops = ops + [[draw(st.integers(0, ns - 1)), draw(st.sampled_from(pos))]]
    ops = [[draw(st.booleans()), i] for i in ops]
    flag = draw(st.booleans())
    if not flag:
        ops = [o for o in ops if o[0]] + [o for o in ops if not o[0]]
    return dict(t=[[draw(labels)] + x for x in slots], o=ops, flag=flag, f=draw(st.sampled_from(terms.FACTORS)))


@st.composite
def alike(draw, ns, label):
    """Two or three tensors of one label and shape that differ in their spaces."""
    s = draw(st.integers(0, ns - 1))
    d = draw(st.sampled_from([k for k in (1, 2, 3, 4, 8) if k < ns]))
    pool = [s, (s + d) % ns]
    nu, nl = draw(st.sampled_from([(0, 1), (1, 0), (1, 1), (1, 1), (2, 0), (2, 1), (1, 2), (2, 2)]))
    nt = draw(st.sampled_from([2, 2, 3]))
    free, n, slots = [], [0] * ns, [[[], []] for _ in range(nt)]
    for x in range(nt):
        for k, c in enumerate((nu, nl)):
            for _ in range(c):
                sp = draw(st.sampled_from(pool))
                old = [f for f in free if f[1] != x and f[0][0] == sp]
                if old and draw(st.booleans()):
                    f = draw(st.sampled_from(old))
                    free.remove(f)
                    i = f[0]
                else:
                    i = [sp, n[sp]]
                    n[sp] += 1
                    free.append((i, x))
                slots[x][k].append(list(i))
    ops = draw(st.lists(st.sampled_from([f[0] for f in free]), max_size=6, unique_by=tuple)) if free else []
    ops = [[draw(st.booleans()), i] for i in ops]
    flag = draw(st.booleans())
    if not flag:
        ops = [o for o in ops if o[0]] + [o for o in ops if not o[0]]
    return dict(t=[[label] + x for x in slots], o=ops, flag=flag, f=draw(st.sampled_from(terms.FACTORS)))


@st.composite
def large_cases(draw):
    ns = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 9, 12, 16]))
    fields = [draw(st.sampled_from(["fermion", "fermion", "fermion", "boson"])) for _ in range(ns)]
    pool = draw(st.permutations(["T", "V", "gamma1", "T2", "x", "R", "t", "lambda10"]))
    kinds = draw(st.sampled_from([1, 2, 8]))
    spaces = None
    if ns > 1 and draw(st.booleans()):
        # few spaces, at a given distance
        s, d = draw(st.integers(0, ns - 1)), draw(st.sampled_from([k for k in (1, 2, 4, 8) if k < ns]))
        spaces = sorted({s, (s + d) % ns, (s + draw(st.sampled_from([0, 1, 2 * d]))) % ns})
    if ns > 1 and draw(st.integers(0, 2)) == 0:
        kinds = 1
        ts = draw(st.lists(alike(ns, pool[0]), min_size=1, max_size=2))
    else:
        ts = draw(st.lists(network(ns, st.sampled_from(pool[:kinds]), spaces), min_size=1, max_size=2))
    for t in ts:
        if kinds == 8:
            for k, x in enumerate(t["t"]):
                x[0] = pool[k]
    return dict(
        types=[draw(st.sampled_from(terms.TYPES)) for _ in range(ns)], fields=fields, terms=ts, large=True,
        sym=draw(st.sampled_from(["anti", "anti", "anti", "symm"])), seed=draw(st.integers(0, 99)), dims=[3] * ns,
        rename=draw(st.permutations(list(range(8)))), order=draw(st.permutations(list(range(6)))),
    )


@st.composite
def cases(draw):
    ns = draw(st.sampled_from([1, 2, 2, 3]))
    fields = [draw(st.sampled_from(["fermion", "fermion", "fermion", "boson"])) for _ in range(ns)]
    labels = st.sampled_from(["T", "V", "gamma1", "T2", "x", "R"][: draw(st.sampled_from([1, 2, 6, 6]))])
    ts = draw(st.lists(a_term(ns, labels), min_size=1, max_size=3))
    return dict(
        types=[draw(st.sampled_from(terms.TYPES)) for _ in range(ns)], fields=fields, terms=ts,
        sym=draw(st.sampled_from(["anti", "anti", "anti", "symm"])), seed=draw(st.integers(0, 99)),
        dims=[draw(st.sampled_from([2, 3])) for _ in range(ns)],
        rename=draw(st.permutations(list(range(8)))), order=draw(st.permutations(list(range(4)))),
    )


def strategy(tier):
    return large_cases() if os.environ.get("VF_CAMPAIGN") == "1" else cases()


def run_case(w, case):
    fields, sym = case["fields"], getattr(w.sym, case["sym"])
    setup_spaces(w, terms.spaces_of(fields, case["types"]))
    for t in case["terms"]:
        ix = set(tuple(i) for x in t["t"] for i in x[1] + x[2]) | set(tuple(o[1]) for o in t["o"])
        if len(ix) > (20 if case.get("large") else 9) or not case["terms"]:
            raise Discard()
    e = w.Expression()
    for t in case["terms"]:
        e += terms.term(w, t, sym)
    before = expr_terms(w, e)
    r = e.canonicalize()
    after = expr_terms(w, e)
    ensure(r == e, "canonicalize does not return the expression")
    vals = Values(case["dims"], case["seed"], case["sym"], fields)

    def value(ts):
        # strings labelled normal ordered and plain products are kept apart
        return [vals.expression([t for t in ts if t[0][2] == f]) for f in (False, True)]

    a, b = value(before), value(after)
    if a != b:
        f = 0 if a[0] != b[0] else 1
        k = min((k for k in set(a[f]) | set(b[f]) if a[f].get(k, 0) != b[f].get(k, 0)), key=lambda k: (len(k), k))
        raise Violation(
            "canonicalize changed the value: %s -> %s (coefficient of %s: %s -> %s mod 1000003)"
            % (clip(before), clip(after), k, a[f].get(k, 0), b[f].get(k, 0))
        )
    classes = []
    changed = sorted(before) != sorted(after)
    if changed:
        classes.append("changed")
    if len(after) < len(before):
        classes.append("merged")
    nonzero = any(a)
    if nonzero:
        classes.append("nonzero value")
    for t in case["terms"]:
        labs = [x[0] for x in t["t"]]
        if len(set(labs)) < len(labs):
            classes.append("repeated tensor label")
        used = set(tuple(i) for x in t["t"] for i in x[1] + x[2])
        if any(tuple(o[1]) not in used for o in t["o"]) and t["t"]:
            classes.append("external operator index")
    # renaming and reordering, one term at a time
    for t in case["terms"]:
        labs = [(x[0], sorted(i[0] for i in x[1]), sorted(i[0] for i in x[2])) for x in t["t"]]
        if any(labs.count(x) > 1 for x in labs):
            continue
        one = w.Expression()
        one += terms.term(w, t, sym)
        one.canonicalize()
        ref = expr_dict(w, one)
        twice = w.Expression() + one
        twice.canonicalize()
        ensure(expr_dict(w, twice) == ref, "canonicalize is not idempotent: %s -> %s", clip(ref), clip(expr_dict(w, twice)))
        used = sorted(set(tuple(i) for x in t["t"] for i in x[1] + x[2]))
        taken = set(tuple(o[1]) for o in t["o"]) - set(used)
        new, names = {}, list(case["rename"]) + list(range(8, 60))
        for i in used:
            while (i[0], names[0]) in taken or names[0] in [v[1] for k, v in new.items() if k[0] == i[0]]:
                names.append(names.pop(0))
            new[i] = [i[0], names[0]]
            names.append(names.pop(0))
        f = lambda i: new.get(tuple(i), i)
        t2 = dict(t)
        ts = [[x[0], [f(i) for i in x[1]], [f(i) for i in x[2]]] for x in t["t"]]
        t2["t"] = [ts[k] for k in case["order"] if k < len(ts)]
        t2["o"] = [[o[0], f(o[1])] for o in t["o"]]
        two = w.Expression()
        two += terms.term(w, t2, sym)
        two.canonicalize()
        ensure(
            expr_dict(w, two) == ref, "a renamed term has another canonical form: %s versus %s (from %s and %s)",
            clip(ref), clip(expr_dict(w, two)), terms.term_text(t, fields), terms.term_text(t2, fields),
        )
        k = Fraction(*terms.FACTORS[case["seed"] % len(terms.FACTORS)])
        both = w.Expression()
        both += terms.term(w, t, sym)
        c2 = k * Fraction(*t["f"])
        both += terms.term(w, dict(t2, f=[c2.numerator, c2.denominator]), sym)
        both.canonicalize()
        want = {q: c * (1 + k) for q, c in ref.items() if k != -1}
        ensure(expr_dict(w, both) == want, "the sum of a term and %s times a renamed copy of it is %s, expected %s", k, clip(expr_dict(w, both)), clip(want))
        classes.append("renamed" if k != -1 else "renamed and cancelled")
    return dict(nontrivial=changed and nonzero, classes=sorted(set(classes)), note="%d -> %d terms" % (len(before), len(after)))
