"""C08: expressions form an algebra of formal sums over the rationals (stateful, model based)."""
import math
import os
import hypothesis.strategies as st
from fractions import Fraction

from vf import opx, terms
from vf.core import Violation, clip, ensure, expr_dict, frac, rat, setup_spaces

CAMPAIGNS = [
    dict(name="programs", n=dict(quick=10000, thorough=150000)),
    dict(name="families", n=dict(quick=4000, thorough=60000)),
]
RULE = (
    "a case is a program of 4-14 operations (construction in four ways, +, -, negation, @, * rational, adjoint, += of "
    "terms, dot, norm, canonicalization-free comparison) over 4 registers of expressions; after every step each register "
    "is compared with a dictionary model; non-trivial: a register reaches >= 3 terms and terms merged or "
    "cancelled on the way; families: the terms are wide (up to 6 tensors, 8+8 indices each, 14 operators, any positions, long "
    "labels, 1-8 spaces) and differ from one another in one place"
)
ASSUMPTIONS = [
    "tensors are real (the adjoint of a tensor element is the element itself) and of one symmetry",
    "products of terms labelled normal ordered are documented as not implemented and must raise",
]


@st.composite
def cases(draw, wide=False):
    ns = draw(st.sampled_from(terms.MANY) if wide else st.integers(1, 3))
    types = [draw(st.sampled_from(terms.TYPES)) for _ in range(ns)]
    fields = [draw(st.sampled_from(["fermion", "fermion", "fermion", "boson"])) for _ in range(ns)]
    ix = st.tuples(st.integers(0, ns - 1), st.sampled_from([0, 0, 1, 2, 13])).map(list)
    labels = st.sampled_from(["t", "V", "T2", "gamma1", "x_1"])
    tens = st.tuples(labels, st.lists(ix, max_size=2), st.lists(ix, max_size=2)).map(list)
    opst = st.tuples(st.booleans(), ix).map(list)
    flags = draw(st.sampled_from([False, False, True]))
    pool = draw(
        st.lists(
            st.fixed_dictionaries(
                dict(t=st.lists(tens, max_size=2), o=st.lists(opst, max_size=3),
                     flag=st.booleans() if flags else st.just(False))
            ),
            min_size=2, max_size=4,
        )
    )
    R = st.integers(0, 3)
    fr = st.sampled_from(terms.FACTORS + [[0, 1]])
    if wide:
        pool = draw(terms.families(ns, st.sampled_from(terms.LONG_LABELS)))
        if not flags:
            pool = [dict(t, flag=False) for t in pool]
        fr = st.sampled_from(terms.FACTORS + [[0, 1], [10**25, 3], [-(10**25), 3], [1, 10**25]])

    def new():
        t = dict(draw(st.sampled_from(pool)))
        t["f"] = draw(fr)
        return t

    prog = []
    for r in range(draw(st.integers(2, 4))):
        prog.append(["sum", r, [new() for _ in range(draw(st.integers(1, 12 if wide else 4)))], draw(st.integers(0, 3))])
    for _ in range(draw(st.integers(3, 11))):
        k = draw(st.sampled_from(["add", "add", "add", "sub", "sub", "mul", "mul", "scale", "neg", "adj", "iadd", "iadd", "new"]))
        if k == "new":
            prog.append(["new", draw(R), new(), draw(st.integers(0, 3))])
        elif k == "iadd":
            prog.append(["iadd", draw(R), new(), draw(st.integers(0, 2))])
        elif k in ("add", "sub", "mul"):
            prog.append([k, draw(R), draw(R), draw(R)])
        elif k == "scale":
            prog.append([k, draw(R), draw(R), draw(fr)])
        else:
            prog.append([k, draw(R), draw(R)])
    return dict(types=types, fields=fields, prog=prog, sym=draw(st.sampled_from(["anti", "anti", "symm"])))


def strategy(tier):
    return cases(os.environ.get("VF_CAMPAIGN") == "1")


def adj(d):
    out = {}
    for (t, o, fl), c in d.items():
        k = (t, tuple((not cr, i) for cr, i in reversed(o)), fl)
        out[k] = out.get(k, 0) + c
    return out


def mul(a, b):
    out = {}
    for (t, o, fl), c in a.items():
        for (t2, o2, fl2), c2 in b.items():
            k = (t + t2, o + o2, False)
            out[k] = out.get(k, 0) + c * c2
    return {k: v for k, v in out.items() if v}


def run_case(w, case):
    fields = case["fields"]
    setup_spaces(w, terms.spaces_of(fields, case["types"]))
    sym = getattr(w.sym, case["sym"])
    reg = [w.Expression() for _ in range(4)]
    mod = [{} for _ in range(4)]
    classes = set()
    merged, best = 0, 0
    for n, ins in enumerate(case["prog"]):
        k, d = ins[0], ins[1]
        raises = False
        expected_terms = None
        if k == "new":
            t = dict(ins[2], _fields=fields)
            f = Fraction(*t["f"])
            new, x = ({terms.key(t): f} if f else {}), lambda: terms.single(w, t, sym, ins[3])
        elif k == "sum":
            new = {}
            for t in ins[2]:
                f = Fraction(*t["f"])
                new = opx.add(new, {terms.key(t): f} if f else {})
            expected_terms = len(ins[2])

            def x():
                e = w.Expression()
                for t in ins[2]:
                    e = e + terms.single(w, dict(t, _fields=fields), sym, ins[3])
                return e
        elif k == "iadd":
            t = dict(ins[2])
            f = Fraction(*t["f"]) if ins[3] < 2 else Fraction(1)
            new = opx.add(mod[d], {terms.key(t): f} if f else {})
            expected_terms = len(mod[d]) + 1

            def x():
                e = reg[d] + w.Expression()  # a copy nobody else holds
                if ins[3] == 0:
                    e += terms.term(w, t, sym)
                elif ins[3] == 1:
                    e += (terms.symterm(w, t, sym), rat(w, f))
                else:
                    e += terms.symterm(w, t, sym)
                return e
        elif k == "add":
            new, x = opx.add(mod[ins[2]], mod[ins[3]]), lambda: reg[ins[2]] + reg[ins[3]]
            expected_terms = len(mod[ins[2]]) + len(mod[ins[3]])
        elif k == "sub":
            new, x = opx.add(mod[ins[2]], mod[ins[3]], -1), lambda: reg[ins[2]] - reg[ins[3]]
            expected_terms = len(mod[ins[2]]) + len(mod[ins[3]])
        elif k == "mul":
            a, b = mod[ins[2]], mod[ins[3]]
            if len(a) * len(b) > 60 or any(len(q[0]) + len(q[1]) > 20 for q in list(a) + list(b)):
                continue
            raises = bool(a) and bool(b) and any(q[2] for q in list(a) + list(b))
            new, x = (None if raises else mul(a, b)), lambda: reg[ins[2]] @ reg[ins[3]]
            expected_terms = len(a) * len(b)
        elif k == "scale":
            f = Fraction(*ins[3])
            new, x = opx.scale(mod[ins[2]], f), lambda: reg[ins[2]] * rat(w, f)
        elif k == "neg":
            new, x = opx.scale(mod[ins[2]], -1), lambda: -reg[ins[2]]
        elif k == "adj":
            new, x = adj(mod[ins[2]]), lambda: reg[ins[2]].adjoint()
        if not raises and any(max(abs(c.numerator), c.denominator) > 10**40 for c in new.values()):
            continue
        if raises:
            try:
                x()
            except RuntimeError:
                classes.add("rejected product")
                new, k = mod[d], "rejected"
            else:
                raise Violation("step %d: the product of normal-ordered terms was accepted" % n)
        else:
            reg[d] = x()
            mod[d] = new
        classes.add(k)
        if expected_terms is not None and not raises and len(new) < expected_terms:
            merged += 1
        best = max(best, len(new))
        for r in range(4):
            got = expr_dict(w, reg[r])
            if got != mod[r]:
                bad = [q for q in set(got) | set(mod[r]) if got.get(q) != mod[r].get(q)]
                q = min(bad, key=lambda q: (len(q[0]) + len(q[1]), repr(q)))
                raise Violation(
                    "after step %d (%s) register %d: term %s has coefficient %s, expected %s"
                    % (n, clip(ins), r, clip(q), got.get(q, 0), mod[r].get(q, 0))
                )
            ensure(len(reg[r]) == len(mod[r]), "len() is %d, expected %d", len(reg[r]), len(mod[r]))
            for r2 in range(r):
                ensure((reg[r] == reg[r2]) == (mod[r] == mod[r2]), "after step %d: registers %d and %d compare %s", n, r, r2, reg[r] == reg[r2])
                ensure((reg[r2] == reg[r]) == (mod[r] == mod[r2]), "after step %d: == is not symmetric", n)
        a, b = reg[d], reg[(d + 1) % 4]
        ma, mb = mod[d], mod[(d + 1) % 4]
        dot = sum((c * mb.get(q, 0) for q, c in ma.items()), Fraction(0))
        ensure(frac(a.dot(b)) == dot, "after step %d: dot is %s, expected %s", n, a.dot(b), dot)
        ensure(frac(b.dot(a)) == dot, "after step %d: dot is not symmetric", n)
        nrm = math.sqrt(sum((c * c for c in ma.values()), Fraction(0)))
        ensure(abs(a.norm() - nrm) <= 1e-9 * max(1.0, nrm), "after step %d: norm is %r, expected %r", n, a.norm(), nrm)
    return dict(nontrivial=best >= 3 and merged >= 1, classes=sorted(classes), note="largest expression: %d terms" % best)
