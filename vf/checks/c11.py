"""C11: the many-body equations of an expression are a lossless partition of it."""
import os
import hypothesis.strategies as st
import numpy as np
from fractions import Fraction

from vf import terms, wick
from vf.core import Discard, Violation, clip, ensure, expr_dict, expr_terms, frac, rat, setup_spaces, tensor_key, term_key
from vf.fock import P, contract_all, frac_mod

CAMPAIGNS = [
    dict(name="partition", n=dict(quick=6000, thorough=100000)),
    dict(name="fock", n=dict(quick=4000, thorough=60000)),
]
RULE = (
    "partition: a case is an expression of 1-16 terms with operators in standard order over 1-8 spaces; every term must "
    "appear in exactly one equation of the block named by its open indices. fock: the equations of a contracted product "
    "of operators are evaluated block by block and the operator they define is compared with the Fock-space matrices; "
    "non-trivial: at least two blocks (partition), contractions and a non-zero operator (fock)"
)
ASSUMPTIONS = [
    "the operators of every term are in standard order (creators by space, then annihilators by descending space), as the library's results are",
]


@st.composite
def partition_cases(draw):
    wide = draw(st.integers(0, 3)) == 0
    ns = draw(st.sampled_from(terms.MANY) if wide else st.integers(1, 4))
    npos = draw(st.sampled_from([2, 4, 12, 999999] if wide else [2, 4, 12]))
    rank = draw(st.sampled_from([3, 6, 9])) if wide else 3
    ix = st.tuples(st.integers(0, ns - 1), st.integers(0, npos)).map(list)
    shapes = draw(st.lists(st.tuples(st.lists(ix, max_size=rank, unique_by=tuple), st.lists(ix, max_size=rank, unique_by=tuple)), min_size=1, max_size=10 if wide else 4))
    ts = []
    within = draw(st.booleans())  # any order of the indices of one space
    for _ in range(draw(st.integers(1, 16 if wide else 6))):
        cre, ann = draw(st.sampled_from(shapes))
        if within:
            cre, ann = sorted(cre, key=lambda i: i[0]), sorted(ann, key=lambda i: -i[0])
        else:
            cre, ann = sorted(cre), sorted(ann, reverse=True)
        nt = draw(st.integers(0, 3))
        ts.append(
            dict(
                t=[[draw(st.sampled_from(["T", "V", "x_1", "gamma1"])), draw(st.lists(ix, max_size=2)), draw(st.lists(ix, max_size=2))] for _ in range(nt)],
                o=[[True, i] for i in cre] + [[False, i] for i in ann],
                flag=draw(st.booleans()), f=draw(st.sampled_from(terms.FACTORS)),
            )
        )
    return dict(
        kind="partition", types=[draw(st.sampled_from(terms.TYPES)) for _ in range(ns)],
        fields=[draw(st.sampled_from(["fermion", "fermion", "boson"])) for _ in range(ns)], terms=ts,
        label=draw(st.sampled_from(["R", "H", "T_2", "x", "Residual_of_rank_22"])),
    )


def strategy(tier):
    if os.environ.get("VF_CAMPAIGN") == "0":
        return partition_cases()
    return st.one_of(
        wick.wick_cases(["occupied", "unoccupied"], 10, 8),
        wick.wick_cases(["general", "occupied", "unoccupied"], 8, 7, general=True, size_cap=60000),
    )


def signature(labels, up, lo):
    u = "".join(labels[i[0]] for i in sorted(up, key=lambda i: i[0]))
    l = "".join(labels[i[0]] for i in sorted(lo, key=lambda i: -i[0]))
    return u + "|" + l


def lhs_of(w, q):
    ensure(len(q.lhs().tensors()) == 1 and not q.lhs().ops(), "left-hand side %s is not one tensor", q.lhs())
    return tensor_key(w, q.lhs().tensors()[0])


def run_partition(w, case):
    setup_spaces(w, terms.spaces_of(case["fields"], case["types"]))
    labels = terms.LETTERS
    e = w.Expression()
    for t in case["terms"]:
        e += terms.term(w, t, w.sym.anti)
    before = expr_terms(w, e)
    eqs = e.to_manybody_equation(case["label"])
    ensure(expr_terms(w, e) == before, "to_manybody_equation changed the expression")
    want = {}
    for (ts, ops, flag), c in before:
        lo = tuple(i for cre, i in ops if cre)
        up = tuple(i for cre, i in reversed(ops) if not cre)
        want.setdefault(signature(labels, up, lo), []).append(((case["label"], up, lo), ts, c))
    got = {}
    for k, v in eqs.items():
        for q in v:
            rk = term_key(w, q.rhs())
            ensure(not rk[1], "operators on the right-hand side of %s", q)
            f = frac(q.rhs_factor())
            got.setdefault(k, []).append((lhs_of(w, q), rk[0], f))
            ensure(expr_dict(w, q.rhs_expression()) == {(rk[0], (), False): f}, "rhs_expression of %s is %s", q, q.rhs_expression())
    ensure(set(got) == set(want), "blocks %s, expected %s", sorted(got), sorted(want))
    for k in want:
        ensure(sorted(got[k]) == sorted(want[k]), "block %s is %s, expected %s", k, clip(got[k]), clip(want[k]))
    ensure(e.to_manybody_equations(case["label"]).keys() == eqs.keys(), "to_manybody_equations gives other blocks")
    return dict(nontrivial=len(want) >= 2, classes=["blocks=%d" % len(want)], note="%d terms" % len(before))


def evaluate(model, w, labels, key, eqs):
    """Array of the block (axes: upper then lower of the left-hand sides)."""
    us, ls = key.split("|")
    ls = ls[::-1]
    pos = {l: i for i, l in enumerate(labels)}
    out = np.zeros([model.dims[pos[x]] for x in us + ls], dtype=np.int64)
    for q in eqs:
        _, up, lo = lhs_of(w, q)
        ensure("".join(labels[i[0]] for i in up) == us and "".join(labels[i[0]] for i in lo) == ls, "%s is in block %s", q, key)
        want = list(up + lo)
        ensure(len(set(want)) == len(want), "repeated open index in %s", q)
        factors = []
        for t in q.rhs().tensors():
            label, u, l = tensor_key(w, t)
            factors.append((model.tensor(label, tuple(i[0] for i in u), tuple(i[0] for i in l)), list(u + l)))
        present = set(i for _, ix in factors for i in ix)
        ensure(set(want) <= present, "an open index of %s does not appear on its right-hand side", q)
        arr, axes = contract_all(factors, want)
        arr = np.transpose(arr, [axes.index(i) for i in want]) if want else arr
        out = (out + arr * frac_mod(frac(q.rhs_factor()))) % P
    return out


def reassemble(model, labels, blocks):
    """sum over blocks of R[upper, lower] {lower+ ... upper ...}"""
    pos = {l: i for i, l in enumerate(labels)}
    coefs = model.zeros()
    for key, arr in blocks.items():
        us, ls = key.split("|")
        ls = ls[::-1]
        up = [(pos[x], k) for k, x in enumerate(us)]
        lo = [(pos[x], k + len(us)) for k, x in enumerate(ls)]
        ops = [(True, i) for i in lo] + [(False, i) for i in reversed(up)]
        model.accumulate(coefs, arr, up + lo, ops)
    return coefs


def contracted(w, case):
    wick.guard(case)
    spaces = wick.space_defs(case["types"])
    setup_spaces(w, spaces)
    expr = wick.build_product(w, spaces, case["ops"])
    wt = wick.theorem(w, case)
    return wt.contract(rat(w, Fraction(*case["factor"])), expr, case["min"], case["max"])


def run_fock(w, case):
    res = contracted(w, case)
    model = wick.model_of(case)
    labels = wick.LABELS[: len(case["types"])]
    eqs = res.to_manybody_equation("R")
    blocks = {k: evaluate(model, w, labels, k, v) for k, v in eqs.items()}
    got = reassemble(model, labels, blocks)
    want = wick.expected(model, case["ops"], case["factor"])
    wick.compare(model, got, want, case["min"], case["max"], "many-body equations")
    total = sum(sum(o["cre"]) + sum(o["ann"]) for o in case["ops"])
    return dict(
        nontrivial=any(len(k) - 1 < total for k in blocks) and bool(want.any()),
        classes=["fock", "fock blocks=%d" % min(len(blocks), 8)], note="%d blocks" % len(blocks),
    )


def run_case(w, case):
    return run_partition(w, case) if case.get("kind") == "partition" else run_fock(w, case)
