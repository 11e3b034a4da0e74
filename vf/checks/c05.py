"""C05: operator expressions form the free associative algebra over the rationals (stateful, model based)."""
import hypothesis.strategies as st
from fractions import Fraction

from vf import opx
from vf.core import Violation, clip, ensure, rat, setup_spaces

CAMPAIGNS = [dict(name="programs", n=dict(quick=18000, thorough=200000))]
RULE = (
    "a case is a straight-line program of 3-12 operations (op, +, -, @, rational *, commutator of 1-4 arguments, "
    "bch_series, adjoint, add2, copy) over 4 registers; after each step every register is compared with a "
    "dictionary model of the free algebra and with every other register; non-trivial: some register reaches >= 3 "
    "products of length >= 2"
)
ASSUMPTIONS = ["expressions are read back from their printed form"]
LABELS = ["T", "V", "T2", "h", "A_x"]


@st.composite
def comp(draw, letters):
    toks = [draw(st.sampled_from(letters)) + draw(st.sampled_from(["+", "", "^"])) for _ in range(draw(st.integers(1, 4)))]
    sep = draw(st.sampled_from([" ", " ", "", "  "]))
    return sep.join(toks)


@st.composite
def many_legs(draw, letters):
    slots = draw(st.permutations([l + k for l in letters for k in ("+", "")]))[: draw(st.integers(2, 4))]
    counts = draw(st.lists(st.sampled_from([0, 1, 1, 2, 10, 11, 12, 21, 22, 31]), min_size=len(slots), max_size=len(slots)))
    out = []
    for _ in range(draw(st.integers(2, 3))):
        out.append(" ".join(s for s, n in zip(slots, counts) for _ in range(n)) or slots[0])
        counts = draw(st.permutations(counts))
    return out


@st.composite
def cases(draw):
    ns = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 8]))
    types = [draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in range(ns)]
    letters = "oaVgBhzX"[:ns]
    R = st.integers(0, 3)
    pool = [dict(label=draw(st.sampled_from(LABELS)), comps=draw(st.lists(comp(letters), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 3, 5]))))) for _ in range(3)]
    if draw(st.integers(0, 5)) == 0:
        # operators with the same label whose legs are counted by the same digits
        pool = [dict(label=pool[0]["label"], comps=[c]) for c in draw(many_legs(letters))]
    prog = []
    fr = st.sampled_from([[1, 1], [-1, 1], [1, 2], [-2, 3], [0, 1], [5, 1], [7, 4], [-(10**20), 3], [1, 7 * 10**19]])
    for r in range(draw(st.integers(2, 4))):
        p = draw(st.sampled_from(pool))
        prog.append(["op", r, p["label"], p["comps"], draw(st.booleans())])
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(["add", "add", "sub", "sub", "mul", "mul", "mul", "scale", "comm", "bch", "adj", "add2", "copy", "op"]))
        if k == "op":
            p = draw(st.sampled_from(pool))
            prog.append(["op", draw(R), p["label"], p["comps"], draw(st.booleans())])
        elif k in ("add", "sub", "mul"):
            prog.append([k, draw(R), draw(R), draw(R)])
        elif k == "scale":
            prog.append([k, draw(R), draw(R), draw(fr)])
        elif k == "comm":
            prog.append([k, draw(R), draw(st.lists(R, min_size=1, max_size=4))])
        elif k == "bch":
            prog.append([k, draw(R), draw(R), draw(R), draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7]))])
        elif k in ("adj", "copy"):
            prog.append([k, draw(R), draw(R)])
        elif k == "add2":
            prog.append([k, draw(R), draw(R), draw(fr)])
    return dict(types=types, prog=prog)


def strategy(tier):
    return cases()


def model_op(label, comps, unique, letters):
    out = {}
    for c in comps:
        cre, ann = [0] * len(letters), [0] * len(letters)
        i = 0
        while i < len(c):
            if c[i] in letters:
                if i + 1 < len(c) and c[i + 1] in "+^":
                    cre[letters.index(c[i])] += 1
                else:
                    ann[letters.index(c[i])] += 1
            i += 1
        k = ((label, tuple(cre), tuple(ann)),)
        out[k] = 1 if unique else out.get(k, 0) + 1
    return {k: Fraction(v) for k, v in out.items()}


def big(m):
    return len(m) > 80 or any(len(k) > 7 for k in m)


def run_case(w, case):
    letters = "oaVgBhzX"[: len(case["types"])]
    setup_spaces(w, [dict(label=l, type=t, indices=[l]) for l, t in zip(letters, case["types"])])
    reg = [w.OperatorExpression() for _ in range(4)]
    mod = [{} for _ in range(4)]
    classes = set()
    best = 0
    for n, ins in enumerate(case["prog"]):
        k, d = ins[0], ins[1]
        if k == "op":
            new, x = model_op(ins[2], ins[3], ins[4], letters), lambda: w.op(ins[2], ins[3], ins[4])
        elif k == "add":
            new, x = opx.add(mod[ins[2]], mod[ins[3]]), lambda: reg[ins[2]] + reg[ins[3]]
        elif k == "sub":
            new, x = opx.add(mod[ins[2]], mod[ins[3]], -1), lambda: reg[ins[2]] - reg[ins[3]]
        elif k == "mul":
            if len(mod[ins[2]]) * len(mod[ins[3]]) > 400:
                continue
            new, x = opx.mul(mod[ins[2]], mod[ins[3]]), lambda: reg[ins[2]] @ reg[ins[3]]
        elif k == "scale":
            f = Fraction(*ins[3])
            new, x = opx.scale(mod[ins[2]], f), lambda: rat(w, f) * reg[ins[2]]
        elif k == "comm":
            new = mod[ins[2][0]]
            for r in ins[2][1:]:
                if big(new) or big(mod[r]) or len(new) * len(mod[r]) > 300:
                    break
                new = opx.comm(new, mod[r])
            else:
                pass
            if big(new) or any(len(new) * len(mod[r]) > 300 for r in ins[2]):
                continue
            x = lambda: w.commutator(*[reg[r] for r in ins[2]])
            new = mod[ins[2][0]]
            for r in ins[2][1:]:
                new = opx.comm(new, mod[r])
        elif k == "bch":
            a, b, m = mod[ins[2]], mod[ins[3]], ins[4]
            if len(a) * (2 * len(b)) ** m > 400 or max([0] + [len(p) for p in a]) + m * max([0] + [len(p) for p in b]) > 8:
                continue
            classes.add("bch order %d" % m)
            new, x = opx.bch(a, b, m), lambda: w.bch_series(reg[ins[2]], reg[ins[3]], m)
        elif k == "adj":
            new, x = opx.adj(mod[ins[2]]), lambda: reg[ins[2]].adjoint()
        elif k == "copy":
            new, x = mod[ins[2]], lambda: w.OperatorExpression(reg[ins[2]])
        elif k == "add2":
            f = Fraction(*ins[3])
            new = opx.add(mod[d], mod[ins[2]], f)

            def x():
                reg[d].add2(reg[ins[2]], rat(w, f))
                return reg[d]
        if big(new):
            if k == "add2":
                continue
            continue
        if k == "add2":
            # in place on a copy that only this register holds
            reg[d] = reg[d] if d == ins[2] else w.OperatorExpression(reg[d])
        reg[d] = x()
        mod[d] = new
        classes.add(k)
        if k in ("add2", "sub") and ins[2] == (d if k == "add2" else ins[3]):
            classes.add("self " + k)
        for r in range(4):
            got = opx.parse(str(reg[r]), letters)
            if got != mod[r]:
                bad = [q for q in set(got) | set(mod[r]) if got.get(q) != mod[r].get(q)]
                q = min(bad, key=lambda q: (len(q), repr(q)))
                raise Violation(
                    "after step %d (%s) register %d: product %s has coefficient %s, expected %s"
                    % (n, ins, r, clip(q), got.get(q, 0), mod[r].get(q, 0))
                )
            ensure(reg[r].size() == len(mod[r]), "size() is %d, expected %d", reg[r].size(), len(mod[r]))
            for r2 in range(r):
                ensure((reg[r] == reg[r2]) == (mod[r] == mod[r2]), "after step %d: registers %d and %d compare %s", n, r, r2, reg[r] == reg[r2])
        best = max(best, sum(1 for q in new if len(q) >= 2))
    return dict(nontrivial=best >= 3, classes=sorted(classes), note="largest expression: %d products" % best)
