"""C18: the operator builders produce exactly the operators that their arguments name."""
import os
from itertools import combinations, combinations_with_replacement
import hypothesis.strategies as st
import numpy as np
from fractions import Fraction
from math import factorial

from vf import opx, wick
from vf.core import Discard, Violation, clip, ensure, expr_dict, expr_terms, rat, setup_spaces
from vf.fock import I64, P, Model, antisymmetrize, frac_mod, rng

CAMPAIGNS = [
    dict(name="builders", n=dict(quick=12000, thorough=200000)),
    dict(name="fock", n=dict(quick=1500, thorough=30000)),
]
RULE = (
    "builders: a case names components in any order, spacing and spelling (o+, o^, o), and op, operator_expr, gen_op, "
    "diag_operator and Operator are compared with a model that counts legs per space (up to 24 legs of one kind), including "
    "repeated components, unique=True, unknown labels and argument aliasing; fock: gen_op is the full antisymmetric operator "
    "over the union of its spaces and op equals operator_expr with the symmetry factor, as operators in Fock space; "
    "non-trivial: at least two components with legs, or a rejected label (builders), >= 2 components and rank >= 2 (fock)"
)
ASSUMPTIONS = [
    "labels of the spaces given to gen_op are distinct",
    "components of operator_expr are separated by blanks and do not start with one",
]
FOCK = os.environ.get("VF_CAMPAIGN") == "1"
LETTERS = "oavVXghK"
LABELS = ["T", "V", "T2", "Lambda", "h", "A_x"]


@st.composite
def component(draw, letters, big):
    toks = []
    n = draw(st.integers(0, 5))
    for _ in range(n):
        toks.append([draw(st.sampled_from(letters)), draw(st.booleans())])
    if big and toks:
        toks += [draw(st.sampled_from(toks))] * draw(st.integers(0, 20))
    return toks


@st.composite
def builder_cases(draw):
    ns = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 7, 8]))
    letters = LETTERS[:ns]
    big = draw(st.sampled_from([False, False, False, True]))
    kind = draw(st.sampled_from(["op", "op", "expr", "expr", "gen", "gen", "diag"]))
    case = dict(
        kind=kind, types=[draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in range(ns)],
        fields=[draw(st.sampled_from(["fermion", "fermion", "fermion", "boson"])) for _ in range(ns)],
        label=draw(st.sampled_from(LABELS)),
    )
    if kind in ("op", "expr"):
        base = draw(st.lists(component(letters, big), min_size=1, max_size=4))
        comps = list(base)
        for _ in range(draw(st.integers(0, 2))):
            comps.append(draw(st.permutations(draw(st.sampled_from(base)))))
        case.update(
            comps=comps, seps=draw(st.lists(st.sampled_from([" ", " ", "  ", ""] if kind == "op" else [" ", " ", "  ", "\t"]), min_size=1, max_size=4)),
            hats=draw(st.integers(0, 7)), unique=draw(st.booleans()),
            bad=draw(st.sampled_from([None] * 9 + ["z+", "q", "Q^"])), badpos=draw(st.integers(0, 9)),
            flag=draw(st.booleans()), sym=draw(st.sampled_from(["anti", "symm", "none"])),
            f=draw(st.sampled_from([[1, 1], [1, 1], [-1, 2], [7, 3], [0, 1]])), defaults=draw(st.booleans()),
        )
    elif kind == "gen":
        case.update(
            rank=draw(st.integers(0, 4 if ns <= 3 else 3 if ns <= 5 else 2)), cre=draw(st.permutations(letters))[: draw(st.integers(1, ns))],
            ann=draw(st.permutations(letters))[: draw(st.integers(1, ns))], diag=draw(st.booleans()),
            how=draw(st.integers(0, 2)), bad=draw(st.sampled_from([None] * 12 + ["z"])),
        )
    else:
        m = st.integers(0, 24 if big else 4)
        case.update(cre=[draw(m) for _ in letters], ann=[draw(m) for _ in letters], shuffle=draw(st.integers(0, 99)))
    return case


@st.composite
def fock_cases(draw):
    ns = draw(st.integers(1, 3))
    types = [draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in range(ns)]
    case = dict(types=types, seed=draw(st.integers(0, 99)), dims=[draw(st.integers(1, 3)) for _ in types])
    while sum(case["dims"]) > 6:
        case["dims"][case["dims"].index(max(case["dims"]))] -= 1
    if draw(st.booleans()):
        case.update(kind="fgen", rank=draw(st.integers(1, 3)), cre=draw(st.permutations(wick.LABELS[:ns])), ann=draw(st.permutations(wick.LABELS[:ns])))
    else:
        ops = draw(wick.operators(types, 6, (1, 2), 6))
        case.update(kind="fop", ops=ops[:3], f=draw(st.sampled_from([[1, 1], [-1, 2], [5, 3]])), order=draw(st.integers(0, 99)))
    return case


def strategy(tier):
    return fock_cases() if FOCK else builder_cases()


def spell(toks, seps, hats, bad, badpos):
    out = ""
    words = [l + ("" if not c else "^" if (hats >> (k % 3)) & 1 else "+") for k, (l, c) in enumerate(toks)]
    if bad:
        words.insert(badpos % (len(words) + 1), bad)
    for k, x in enumerate(words):
        out += (seps[k % len(seps)] if k else "") + x
    return out


def counts(toks, letters):
    cre, ann = [0] * len(letters), [0] * len(letters)
    for l, c in toks:
        (cre if c else ann)[letters.index(l)] += 1
    return tuple(cre), tuple(ann)


def operator_text(label, cre, ann, letters):
    f = Fraction(1)
    for n in list(cre) + list(ann):
        f /= factorial(n)
    toks = [] if f == 1 else [str(f)]
    toks += [label, "{"]
    for s, n in enumerate(cre):
        toks += [letters[s] + "+"] * n
    for s in reversed(range(len(letters))):
        toks += [letters[s]] * ann[s]
    return " ".join(toks + ["}"])


def run_builder(w, case):
    ns = len(case["types"])
    letters = LETTERS[:ns]
    setup_spaces(w, [dict(label=l, type=t, field=f, indices=[l]) for l, t, f in zip(letters, case["types"], case["fields"])])
    kind = case["kind"]
    if kind == "op":
        texts = [spell(c, case["seps"], case["hats"], None, 0) for c in case["comps"]]
        if case["bad"]:
            k = case["badpos"] % len(texts)
            texts[k] = spell(case["comps"][k], case["seps"], case["hats"], case["bad"], case["badpos"] // 3)
        given = list(texts)
        try:
            e = w.op(case["label"], texts, case["unique"]) if case["unique"] or not case["defaults"] else w.op(case["label"], texts)
        except RuntimeError as err:
            ensure(case["bad"] is not None, "op(%r) is rejected: %s", texts, str(err).strip())
            return dict(nontrivial=True, classes=["unknown label rejected"], note=clip(texts, 100))
        ensure(not case["bad"], "op(%r) accepts an unknown space: %s", given, clip(e))
        ensure(texts == given, "op changed its argument")
        want = {}
        for c in case["comps"]:
            k = ((case["label"],) + counts(c, letters),)
            want[k] = Fraction(1) if case["unique"] else want.get(k, 0) + 1
        got = opx.parse(str(e), letters)
        ensure(got == want, "op(%r, %r, unique=%s) is %s, expected %s", case["label"], given, case["unique"], clip(e), clip(want))
        ensure(e.size() == len(want), "size() is %d, expected %d", e.size(), len(want))
        # the order of the components and of the legs does not matter
        if not case["unique"]:
            e2 = w.op(case["label"], [spell(c[::-1], [" "], 0, None, 0) for c in case["comps"][::-1]])
            ensure(e2 == e and str(e2) == str(e), "op depends on the order of legs or components: %s / %s", clip(e), clip(e2))
        return dict(nontrivial=sum(1 for c in case["comps"] if c) >= 2, classes=["op", "unique" if case["unique"] else "repeated"], note=clip(given, 100))
    if kind == "expr":
        comps = [c for c in case["comps"] if c]
        if not comps:
            raise Discard()
        texts = [spell(c, case["seps"], case["hats"], None, 0) for c in comps]
        if case["bad"]:
            k = case["badpos"] % len(texts)
            texts[k] = spell(comps[k], case["seps"], case["hats"], case["bad"], case["badpos"] // 3)
        f = Fraction(*case["f"])
        sym = getattr(w.sym, case["sym"])
        if case["defaults"]:
            f = Fraction(1)
        try:
            if case["defaults"]:
                e = w.operator_expr(case["label"], texts, case["flag"])
            else:
                e = w.operator_expr(case["label"], texts, case["flag"], sym, rat(w, f))
        except RuntimeError as err:
            ensure(case["bad"] is not None, "operator_expr(%r) is rejected: %s", texts, str(err).strip())
            return dict(nontrivial=True, classes=["unknown label rejected"], note=clip(texts, 100))
        ensure(not case["bad"], "operator_expr(%r) accepts an unknown space: %s", texts, clip(e))
        # each term is coefficient * tensor * string; read back the component it stands for
        got = {}
        for (ts, ops, flag), c in expr_terms(w, e):
            ensure(len(ts) == 1 and ts[0][0] == case["label"], "operator_expr gives the term %s", clip((ts, ops)))
            ensure(flag == case["flag"], "operator_expr(normal_ordered=%s) gives %s", case["flag"], clip(e))
            cre = [i for isc, i in ops if isc]
            ann = [i for isc, i in ops if not isc]
            ensure(len(set(cre + ann)) == len(ops), "an index appears twice in %s", clip(e))
            ensure([x[0] for x in ops] == [True] * len(cre) + [False] * len(ann), "creators of %s do not come first", clip(e))
            ensure(ts[0][2] == tuple(cre) and ts[0][1] == tuple(ann[::-1]), "the tensor and the operators of %s do not match", clip(e))
            k = (tuple(i[0] for i in cre), tuple(i[0] for i in ann))
            got[k] = got.get(k, 0) + c
        want = {}
        for c in comps:
            k = (tuple(letters.index(l) for l, isc in c if isc), tuple(letters.index(l) for l, isc in c if not isc))
            want[k] = want.get(k, 0) + f
        want = {k: v for k, v in want.items() if v}
        ensure(got == want, "operator_expr(%r, %r, coefficient %s) is %s", case["label"], texts, f, clip(e))
        if not case["defaults"]:
            for s, c in e:
                for t in s.tensors():
                    ensure(t.symmetry() == sym, "operator_expr(symmetry=%s) gives a tensor with symmetry %s", sym, t.symmetry())
        return dict(nontrivial=len(comps) >= 2, classes=["operator_expr"], note=clip(texts, 100))
    if kind == "gen":
        cre, ann = "".join(case["cre"]), "".join(case["ann"])
        if case["bad"]:
            cre = cre + case["bad"]
        r = case["rank"]
        fn = w.gen_op if case["how"] else w.utils.gen_op
        try:
            e = fn(case["label"], r, cre, ann) if case["diag"] and case["how"] == 2 else fn(case["label"], r, cre, ann, diagonal=case["diag"])
        except (RuntimeError, KeyError) as err:
            ensure(case["bad"] is not None, "gen_op(%r, %r, %r) is rejected: %s", r, cre, ann, str(err).strip())
            return dict(nontrivial=True, classes=["unknown label rejected"], note=cre)
        if case["bad"]:
            ensure(r == 0, "gen_op(%r, %r, %r) accepts an unknown space", r, cre, ann)
            raise Discard()
        want = {}
        for c in combinations_with_replacement(sorted(cre, key=letters.index), r):
            for a in combinations_with_replacement(sorted(ann, key=letters.index), r):
                if case["diag"] or c != a:
                    want[((case["label"],) + counts([(x, True) for x in c] + [(x, False) for x in a], letters),)] = Fraction(1)
        got = opx.parse(str(e), letters)
        if got != want:
            bad = [q for q in set(got) | set(want) if got.get(q) != want.get(q)]
            raise Violation(
                "gen_op(%r, %d, %r, %r, diagonal=%s): component %s has coefficient %s, expected %s"
                % (case["label"], r, cre, ann, case["diag"], min(bad), got.get(min(bad), 0), want.get(min(bad), 0))
            )
        ensure(e.size() == len(want), "size() is %d, expected %d", e.size(), len(want))
        return dict(nontrivial=len(want) >= 2 and r >= 1, classes=["gen_op", "gen_op rank %d" % r, "diagonal" if case["diag"] else "no diagonal"], note="%d components" % len(want))
    want = operator_text(case["label"], case["cre"], case["ann"], letters)
    o = w.Operator(case["label"], case["cre"], case["ann"])
    ensure(str(o) == want and repr(o) == want, "Operator(%r, %r, %r) is %s, expected %s", case["label"], case["cre"], case["ann"], o, want)
    r = np.random.RandomState(case["shuffle"])
    c = [letters[s] for s, n in enumerate(case["cre"]) for _ in range(n)]
    a = [letters[s] for s, n in enumerate(case["ann"]) for _ in range(n)]
    r.shuffle(c)
    r.shuffle(a)
    d = w.diag_operator(case["label"], c, a)
    ensure(str(d) == want, "diag_operator(%r, %r, %r) is %s, expected %s", case["label"], c, a, d, want)
    e = w.op(case["label"], [" ".join([x + "+" for x in c] + a)])
    ensure(str(e) == "+" + want or str(e).replace("+1 ", "+", 1) == "+" + want or opx.parse(str(e), letters) == {((case["label"], tuple(case["cre"]), tuple(case["ann"])),): 1},
           "op gives %s, expected %s", e, want)
    ensure(str(e.adjoint()) == str(w.op(case["label"], [" ".join([x + "+" for x in a] + c)])), "the adjoint of %s is %s", e, e.adjoint())
    return dict(nontrivial=sum(1 for n in case["cre"] + case["ann"] if n > 1) >= 1, classes=["Operator", "> 20 legs" if max(case["cre"] + case["ann"]) > 20 else "Operator small"], note=want[:100])


class FullModel(Model):
    """Tensors with r upper and r lower indices are blocks of one antisymmetric tensor over all modes."""

    def random_tensor(self, label, up, lo):
        r = len(up)
        key = ("full", label, r)
        if key not in self._tens:
            a = rng(self.seed, label, r, self.N).integers(1, P, size=[self.N] * (2 * r), dtype=I64)
            self._tens[key] = antisymmetrize(antisymmetrize(a, list(range(r))), list(range(r, 2 * r)))
        ix = [slice(self.off[s], self.off[s + 1]) for s in tuple(up) + tuple(lo)]
        return self._tens[key][tuple(ix)]


def run_fgen(w, case):
    spaces = wick.space_defs(case["types"])
    setup_spaces(w, spaces)
    r = case["rank"]
    N = sum(case["dims"])
    if N > 6:
        raise Discard()
    e = w.gen_op("V", r, "".join(case["cre"]), "".join(case["ann"]))
    res = w.WickTheorem().contract(w.rational(1), e, 2 * r, 2 * r)
    model = FullModel(case["types"], case["dims"], case["seed"], 0)
    got = model.expression(expr_terms(w, res))
    full = FullModel.random_tensor(model, "V", (0,) * r, (0,) * r) is not None and model._tens[("full", "V", r)]
    want = model.zeros()
    space = [s for s in range(len(case["dims"])) for _ in range(case["dims"][s])]
    for lo in combinations(range(N), r):
        for up in combinations(range(N), r):
            # (1/r!)^2 sum_{all} = sum over ascending sets;  {c+_lo1 .. c+_lor c_upr .. c_up1}
            gens = [model.generator(True, space[m], m) for m in lo] + [model.generator(False, space[m], m) for m in up[::-1]]
            par = sum(1 for i in range(2 * r) for j in range(i) if gens[j] > gens[i])
            c = sum(1 << g for g in gens if g < N)
            a = sum(1 << (g - N) for g in gens if g >= N)
            want[c, a] = (want[c, a] + (-1) ** par * int(full[tuple(up) + tuple(lo)])) % P
    wick.compare(model, got, want, 0, 4 * N, "gen_op(V, %d, %s, %s)" % (r, "".join(case["cre"]), "".join(case["ann"])))
    return dict(nontrivial=len(case["types"]) >= 2 and r >= 2 and bool(want.any()), classes=["full operator of rank %d" % r], note="%d terms" % len(res))


def run_fop(w, case):
    """op(X) = (symmetry factor) * operator_expr(X), for each component, as operators in normal order"""
    spaces = wick.space_defs(case["types"])
    setup_spaces(w, spaces)
    dims = [max(a, b) for a, b in zip(case["dims"], wick.needed_dims(case["types"], case["ops"] or [dict(cre=[0] * 9, ann=[0] * 9)]))]
    c2 = dict(case, dims=dims)
    wick.guard(c2, 7)
    model = Model(case["types"], dims, case["seed"], 0)
    total = None
    want = model.zeros()
    e = w.OperatorExpression()
    r = np.random.RandomState(case["order"])
    for o in case["ops"]:
        toks = [spaces[s]["label"] + "+" for s, n in enumerate(o["cre"]) for _ in range(n)] + [spaces[s]["label"] for s, n in enumerate(o["ann"]) for _ in range(n)]
        e = e + w.op(o["label"], [" ".join(toks)])
        f = Fraction(*case["f"])
        for n in o["cre"] + o["ann"]:
            f /= factorial(n)
        r.shuffle(toks)
        x = w.operator_expr(o["label"], [" ".join(toks)], True, w.sym.anti, rat(w, f))
        total = x if total is None else total + x
        want = (want + model.operator(o["label"], o["cre"], o["ann"]) * frac_mod(Fraction(*case["f"]))) % P
    res = w.WickTheorem().contract(rat(w, Fraction(*case["f"])), e, 0, 12)
    wick.compare(model, model.expression(expr_terms(w, res)), want, 0, 40, "op")
    wick.compare(model, model.expression(expr_terms(w, total)), want, 0, 40, "operator_expr")
    return dict(nontrivial=len(case["ops"]) >= 2, classes=["op = operator_expr"], note="%d operators" % len(case["ops"]))


def run_case(w, case):
    k = case["kind"]
    return run_fgen(w, case) if k == "fgen" else run_fop(w, case) if k == "fop" else run_builder(w, case)
