"""Generators and oracle shared by the checks on contractions of operator products."""
import hypothesis.strategies as st
from fractions import Fraction
from math import factorial

from vf.core import Discard, Violation, ensure, expr_terms, rat, setup_spaces
from vf.fock import Model, P, frac_mod, matmul

LABELS = "oavxyzpq"
POOLS = ["ABT", "ABT", ["T1", "T2", "V"], ["T", "T1", "T10"], ["Lambda", "L", "l"]]


def space_defs(types):
    # the index strings play no role in contractions; labels do
    return [dict(label=LABELS[s], type=t, indices=["%s%s" % (LABELS[s], c) for c in "ijkl"]) for s, t in enumerate(types)]


def component(spaces, cre, ann):
    """'o+ v+ a v' in the order required by op(): creators by space, annihilators by space"""
    out = []
    for s, sp in enumerate(spaces):
        out += [sp["label"] + "+"] * cre[s]
    for s, sp in reversed(list(enumerate(spaces))):
        out += [sp["label"]] * ann[s]
    return " ".join(out)


@st.composite
def operators(draw, types, max_legs, nops_range=(2, 4), max_op_legs=6, allow_odd=True, labels="ABT"):
    """A list of operators with cre/ann counts per space; contraction-rich by construction:
    an operator is often built to match legs of the previous ones."""
    ns = len(types)
    nops = draw(st.sampled_from([n for n in (2, 2, 3, 3, 3, 4, 4, 1, 5, 6) if nops_range[0] <= n <= nops_range[1]]))
    ops = []
    legs = 0
    for k in range(nops):
        room = min(max_op_legs, max_legs - legs - (nops - k - 1))
        if room < 1:
            break
        if ops and draw(st.integers(0, 4)) == 0:
            o = draw(st.sampled_from(ops))
            if sum(o["cre"]) + sum(o["ann"]) <= room:
                ops.append(dict(o))
                legs += sum(o["cre"]) + sum(o["ann"])
                continue
        n = draw(st.integers(1, room))
        cre, ann = [0] * ns, [0] * ns
        mode = draw(st.integers(0, 2))
        for i in range(n):
            s = draw(st.integers(0, ns - 1))
            if mode == 0:  # number conserving
                c = i % 2 == 0
            elif mode == 1 and ops:  # conjugate legs of an earlier operator
                p = draw(st.sampled_from(ops))
                pool = [(t, True) for t in range(ns) for _ in range(p["ann"][t])] + [
                    (t, False) for t in range(ns) for _ in range(p["cre"][t])
                ]
                s, c = draw(st.sampled_from(pool))
            else:
                c = draw(st.booleans())
            if c:
                cre[s] += 1
            else:
                ann[s] += 1
        if not allow_odd and (sum(cre) + sum(ann)) % 2:
            # drop one leg or add one
            if sum(cre) > sum(ann):
                cre[next(s for s in range(ns) if cre[s])] -= 1
            else:
                ann[next(s for s in range(ns) if ann[s])] -= 1
            if sum(cre) + sum(ann) == 0:
                cre[0], ann[0] = 1, 1
        ops.append(dict(label=draw(st.sampled_from(labels)), cre=cre, ann=ann))
        legs += sum(cre) + sum(ann)
    return ops


@st.composite
def paired_operators(draw, types, max_legs, nops_range=(2, 4), max_op_legs=6, labels="ABT"):
    """Operators whose legs come mostly in contractible groups: the product has contractions by construction."""
    ns = len(types)
    nops = draw(st.sampled_from([n for n in (2, 2, 2, 3, 3, 3, 4, 4, 5, 6) if nops_range[0] <= n <= nops_range[1]]))
    ops = [dict(label=draw(st.sampled_from(labels)), cre=[0] * ns, ann=[0] * ns) for _ in range(nops)]
    size = lambda o: sum(o["cre"]) + sum(o["ann"])
    legs = 0
    # repeated operators: op i is a copy of op i-1, filled in at the end
    for _ in range(draw(st.integers(1, max(1, max_legs // 2)))):
        if legs + 2 > max_legs:
            break
        s = draw(st.integers(0, ns - 1))
        if types[s] == "general" and nops > 1 and draw(st.integers(0, 2)) == 0:
            k = draw(st.integers(2, 3))
            if legs + 2 * k > max_legs:
                continue
            for c in range(2 * k):
                o = ops[draw(st.integers(0, nops - 1))]
                (o["cre"] if c < k else o["ann"])[s] += 1
            legs += 2 * k
            continue
        l = draw(st.integers(0, nops - 2))
        r = draw(st.integers(l + 1, nops - 1))
        if max(size(ops[l]), size(ops[r])) >= max_op_legs:
            continue
        cre_left = types[s] == "occupied" or (types[s] == "general" and draw(st.booleans()))
        (ops[l]["cre"] if cre_left else ops[l]["ann"])[s] += 1
        (ops[r]["ann"] if cre_left else ops[r]["cre"])[s] += 1
        legs += 2
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 2, 4]))):
        if legs >= max_legs:
            break
        o = ops[draw(st.integers(0, nops - 1))]
        (o["cre"] if draw(st.booleans()) else o["ann"])[draw(st.integers(0, ns - 1))] += 1
        legs += 1
    out = []
    for o in ops:
        if not size(o):
            continue
        out.append(o)
        if len(out) < nops_range[1] and legs + size(o) <= max_legs and draw(st.integers(0, 3)) == 0:
            out.append(dict(label=o["label"], cre=list(o["cre"]), ann=list(o["ann"])))
            legs += size(o)
    return out[: nops_range[1]]


@st.composite
def wick_cases(draw, type_pool, max_legs, nmodes, nops_range=(2, 6), general=False, size_cap=200000, allow_odd=True, max_op_legs=8):
    nsp = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 3, 4, 5]))
    types = [draw(st.sampled_from(type_pool)) for _ in range(nsp)]
    if general and "general" not in types:
        types[draw(st.integers(0, nsp - 1))] = "general"
    labels = draw(st.sampled_from(POOLS))
    if draw(st.integers(0, 3)):
        ops = draw(paired_operators(types, max_legs, nops_range, max_op_legs, labels=labels))
    else:
        ops = draw(operators(types, max_legs, nops_range, max_op_legs, allow_odd=allow_odd, labels=labels))
    total = sum(sum(o["cre"]) + sum(o["ann"]) for o in ops)
    window = draw(st.sampled_from(["all", "all", "low", "any"]))
    if window == "all":
        lo, hi = 0, total
    elif window == "low":
        lo, hi = 0, draw(st.integers(0, 4))
    else:
        lo = draw(st.integers(0, total))
        hi = draw(st.integers(lo, total))
    dims = choose_dims(draw, types, ops, nmodes, size_cap, hi)
    case = dict(
        types=types, ops=ops, min=lo, max=hi, dims=dims, seed=draw(st.integers(0, 999)),
        factor=draw(st.sampled_from([[1, 1], [1, 1], [-1, 2], [3, 4], [-5, 3]])),
        mt=draw(st.sampled_from([False, False, False, True])),
    )
    if general:
        case["maxcu"] = draw(st.sampled_from([100, 100, 1, 2, 3]))
    return case


@st.composite
def wide_cumulants(draw):
    """A cumulant of rank 3-5 whose creation (and annihilation) legs belong to as many operators as possible."""
    types = draw(st.sampled_from([["general"], ["general"], ["general", "occupied"], ["unoccupied", "general"], ["general", "general"]]))
    g = draw(st.sampled_from([s for s, t in enumerate(types) if t == "general"]))
    k = draw(st.sampled_from([3, 3, 3, 4, 4, 4, 4, 4, 4, 5]))
    nops = draw(st.sampled_from([k, k, k, k + 1 if k < 5 else k, max(2, k - 1)]))
    ops = [dict(label=draw(st.sampled_from("ABT")), cre=[0] * len(types), ann=[0] * len(types)) for _ in range(nops)]
    for kind in ("cre", "ann"):
        if draw(st.integers(0, 3)):
            where = (draw(st.permutations(range(nops))) * 2)[:k]
        else:
            where = [draw(st.integers(0, nops - 1)) for _ in range(k)]
        for i in where:
            ops[i][kind][g] += 1
    if len(types) > 1 and k < 5 and draw(st.booleans()):
        s = 1 - g
        l = draw(st.integers(0, nops - 2))
        r = draw(st.integers(l + 1, nops - 1))
        c = types[s] == "occupied"
        ops[l]["cre" if c else "ann"][s] += 1
        ops[r]["ann" if c else "cre"][s] += 1
    ops = [o for o in ops if sum(o["cre"]) + sum(o["ann"])]
    dims = needed_dims(types, ops)
    dims[g] = max(dims[g], k)
    lo = draw(st.sampled_from([0, 0, 0, 2]))
    return dict(
        types=types, ops=ops, min=lo, max=lo + draw(st.sampled_from([0, 0, 2, 4])), dims=dims, seed=draw(st.integers(0, 999)),
        factor=draw(st.sampled_from([[1, 1], [-5, 3]])), mt=draw(st.sampled_from([False, False, False, True])),
        maxcu=draw(st.sampled_from([100, 100, 100, k, k, max(1, k - 1)])),
    )


def needed_dims(types, ops):
    return [max([1] + [max(o["cre"][s], o["ann"][s]) for o in ops]) for s in range(len(types))]


def tensor_size(dims, ops):
    n = 1
    for o in ops:
        for s, d in enumerate(dims):
            n *= d ** (o["cre"][s] + o["ann"][s])
    return n


def choose_dims(draw, types, ops, nmodes, size_cap, hi):
    dims = needed_dims(types, ops)
    want = draw(st.integers(0, 5))
    for _ in range(want):
        s = draw(st.integers(0, len(types) - 1))
        new = list(dims)
        new[s] += 1
        if sum(new) <= nmodes and tensor_size(new, ops) <= size_cap and new[s] <= 5:
            dims = new
    return dims


def guard(case, nmodes=9, size_cap=12000000):
    if not case["ops"] or sum(case["dims"]) > nmodes or tensor_size(case["dims"], case["ops"]) > size_cap:
        raise Discard()
    for o in case["ops"]:
        if sum(o["cre"]) + sum(o["ann"]) == 0:
            raise Discard()


def build_product(w, spaces, ops):
    e = None
    for o in ops:
        x = w.op(o["label"], [component(spaces, o["cre"], o["ann"])])
        e = x if e is None else e @ x
    return e


def theorem(w, case, **kw):
    wt = w.WickTheorem()
    wt.set_single_threaded(not case.get("mt", False))
    if case.get("maxcu") is not None:
        wt.set_max_cumulant(case["maxcu"])
    if "canon" in kw:
        wt.do_canonicalize_graph(kw["canon"])
    return wt


def model_of(case):
    k = min(case.get("maxcu", 0) if "maxcu" in case else 0, 5)
    return Model(case["types"], case["dims"], case["seed"], k)


def expected(model, ops, factor):
    M = None
    for o in ops:
        X = model.gno_to_matrix(model.operator(o["label"], o["cre"], o["ann"]))
        M = X if M is None else matmul(M, X)
    return model.matrix_to_gno(M) * frac_mod(Fraction(*factor)) % P


def compare(model, got, want, lo, hi, what):
    r = model.ranks()
    want = want * ((r >= lo) & (r <= hi))
    diff = (got - want) % P
    if diff.any():
        import numpy as np

        bad = np.argwhere(diff)
        n = np.array([r[c, a] for c, a in bad])
        c, a = bad[int(n.argmin())]
        f = lambda x: int(x) if x <= P // 2 else int(x) - P
        raise Violation(
            "%s: coefficient of %s is %d, expected %d (mod %d); %d of %d coefficients differ, ranks %s"
            % (what, model.describe(int(c), int(a)), f(int(got[c, a])), f(int(want[c, a])), P, len(bad), want.size, sorted(set(n.tolist())))
        )


def result_rank_ok(terms, lo, hi):
    for (tensors, ops, flag), c in terms:
        ensure(lo <= len(ops) <= hi, "a term with %d operators is outside the rank window [%d,%d]", len(ops), lo, hi)
        ensure(c != 0, "a term with coefficient zero")


def run_wick(w, case):
    guard(case)
    spaces = space_defs(case["types"])
    setup_spaces(w, spaces)
    expr = build_product(w, spaces, case["ops"])
    wt = theorem(w, case)
    res = wt.contract(rat(w, Fraction(*case["factor"])), expr, case["min"], case["max"])
    terms = expr_terms(w, res)
    result_rank_ok(terms, case["min"], case["max"])
    model = model_of(case)
    got = model.expression(terms)
    want = expected(model, case["ops"], case["factor"])
    compare(model, got, want, case["min"], case["max"], "contraction")
    total = sum(sum(o["cre"]) + sum(o["ann"]) for o in case["ops"])
    contracted = sum(1 for (t, ops, f), c in terms if len(ops) < total)
    classes = ["nops=%d" % len(case["ops"])]
    if any(len(ops) == 0 for (t, ops, f), c in terms):
        classes.append("fully contracted term")
    if any(a["label"] == b["label"] and a["cre"] == b["cre"] and a["ann"] == b["ann"]
           for i, a in enumerate(case["ops"]) for b in case["ops"][:i]):
        classes.append("repeated operator")
    if any((sum(o["cre"]) + sum(o["ann"])) % 2 for o in case["ops"]):
        classes.append("odd operator")
    if any(t[0].startswith("lambda") for (ts, ops, f), c in terms for t in ts):
        classes.append("cumulant in result")
    if any(t[0].startswith("lambda") and t[0] != "lambda2" for (ts, ops, f), c in terms for t in ts):
        classes.append("cumulant of rank >= 3 in result")
    for t in sorted({t[0] for (ts, ops, f), c in terms for t in ts if t[0].startswith("lambda")}):
        classes.append(t)
    if len(case["types"]) > 3:
        classes.append("more than 3 spaces")
    if len(terms) >= 20:
        classes.append(">=20 terms")
    if total > 2 * sum(case["dims"]):
        classes.append("more legs than modes")
    if any(sum(1 for t in case["types"] if t == x) > 1 for x in case["types"]):
        classes.append("two spaces of one type")
    if want.any():
        classes.append("nonzero")
    return dict(
        nontrivial=contracted > 0 and bool(want.any()),
        classes=classes,
        note="%d terms, %d with contractions" % (len(terms), contracted),
    )


# --- operators with many equal legs: closed form --------------------------------------------------------------------------
#
# In every space A has n legs of one kind and B has m legs of the conjugate kind, so that the contractions of a space are
# given by how many groups of each size are formed.  The absolute value of a coefficient is a product of factorials and
# its sign is that of the permutation which brings the contracted operators together.


def log2_fact(n):
    import math

    return math.lgamma(n + 1) / math.log(2)


@st.composite
def many_cases(draw, type_pool):
    nsp = draw(st.sampled_from([1, 1, 2, 2, 3]))
    sp = []
    for _ in range(nsp):
        t = draw(st.sampled_from(type_pool))
        top = draw(st.sampled_from([2, 5, 15, 30, 60, 90]))
        n = draw(st.integers(1, top))
        m = draw(st.one_of(st.just(n), st.integers(1, top), st.integers(n, n + 2)))
        sp.append([t, n, m, t == "occupied" or (t == "general" and draw(st.booleans()))])
    total = sum(s[1] + s[2] for s in sp)
    most = sum(min(s[1], s[2]) for s in sp)
    k = draw(st.one_of(st.integers(0, most), st.just(most), st.integers(max(0, most - 3), most)))
    return dict(
        sp=sp, min=total - 2 * k, max=total - 2 * max(0, k - draw(st.integers(0, 2))), maxcu=draw(st.sampled_from([1, 1, 2, 3, 100])),
        canon=draw(st.booleans()), mt=draw(st.booleans()), labels=draw(st.sampled_from(["AB", "BA", "AA"])),
        factor=draw(st.sampled_from([[1, 1], [-1, 2], [-5, 3]])),
    )


def group_choices(t, n, m, maxcu, cap):
    """all ways to form groups: {size: how many}, size 1 only for simple spaces"""
    top = min(maxcu, min(n, m)) if t == "general" else 1
    out = []

    def rec(size, room, cur):
        if len(out) > cap:
            raise Discard()
        if size > top:
            out.append(dict(cur))
            return
        for c in range(room // size + 1):
            rec(size + 1, room - c * size, cur + [(size, c)] if c else cur)

    rec(1, min(n, m), [])
    return out


def run_many(w, case):
    import itertools

    sp = case["sp"]
    if sum(log2_fact(n) + log2_fact(m) for t, n, m, c in sp) > 900:
        raise Discard()
    ns = len(sp)
    choices = [group_choices(t, n, m, case["maxcu"], 600) for t, n, m, c in sp]
    size = 1
    for c in choices:
        size *= len(c)
    if size > 1500:
        raise Discard()
    total = sum(n + m for t, n, m, c in sp)
    want = {}
    longest = 0
    for combo in itertools.product(*choices):
        rank = total - 2 * sum(k * v for g in combo for k, v in g.items())
        if not case["min"] <= rank <= case["max"]:
            continue
        longest = max(longest, sum(sum(g.values()) for g in combo))
        c = Fraction(*case["factor"])
        key = []
        for (t, n, m, cl), g in zip(sp, combo):
            used = sum(k * v for k, v in g.items())
            c /= factorial(n - used) * factorial(m - used)
            for k, v in g.items():
                c /= factorial(v) * (factorial(k) ** (2 * v) if k > 1 else 1)
            key.append(tuple(sorted((k, v) for k, v in g.items() if v)))
        want[tuple(key)] = c
    # the canonicalization of a contraction visits every permutation of equal groups: keep it to few of them
    canon = case["canon"] and longest <= 7
    if len(want) * longest > 4000:
        raise Discard()
    spaces = space_defs([s[0] for s in sp])
    setup_spaces(w, spaces)
    A = dict(label=case["labels"][0], cre=[n if c else 0 for t, n, m, c in sp], ann=[0 if c else n for t, n, m, c in sp])
    B = dict(label=case["labels"][1], cre=[0 if c else m for t, n, m, c in sp], ann=[m if c else 0 for t, n, m, c in sp])
    expr = build_product(w, spaces, [A, B])
    wt = w.WickTheorem()
    wt.set_single_threaded(not case["mt"])
    wt.set_max_cumulant(case["maxcu"])
    wt.do_canonicalize_graph(canon)
    res = wt.contract(rat(w, Fraction(*case["factor"])), expr, case["min"], case["max"])
    terms = expr_terms(w, res)
    result_rank_ok(terms, case["min"], case["max"])
    seen = {}
    for (tensors, ops, flag), coef in terms:
        key, sign = shape_of(sp, case["labels"], A, B, tensors, ops)
        ensure(key in want, "a term with contractions %s is not expected", key)
        ensure(key not in seen, "two terms with contractions %s", key)
        seen[key] = coef
        ensure(abs(coef) == abs(want[key]), "the term with contractions %s has coefficient %s, expected +-%s", key, coef, abs(want[key]))
        ensure(coef == sign * want[key], "the term with contractions %s has coefficient %s, expected %s", key, coef, sign * want[key])
    miss = [k for k in want if k not in seen]
    ensure(not miss, "no term with contractions %s", miss[:1])
    classes = ["many legs"]
    if longest > 12:
        classes.append("more than 12 contractions")
    if any(n > 20 or m > 20 for t, n, m, c in sp):
        classes.append("more than 20 equal legs")
    if ns > 1:
        classes.append("several spaces")
    return dict(nontrivial=longest > 0, classes=classes, note="%d terms, up to %d contractions" % (len(terms), longest))


def shape_of(sp, labels, A, B, tensors, ops):
    """the contractions of a term (sizes per space) and the sign that they imply; ops: (creation, index)"""
    own = [t for t in tensors if not (t[0] in ("gamma1", "eta1") or t[0].startswith("lambda"))]
    ensure(len(own) == 2, "a term with %d operator tensors", len(own))

    def counts(t, o):
        return all(sum(1 for i in t[2] if i[0] == s) == o["cre"][s] and sum(1 for i in t[1] if i[0] == s) == o["ann"][s] for s in range(len(sp)))

    errors = []
    # with equal labels either tensor can be the left one
    for ta, tb in (own, own[::-1]):
        if ta[0] == labels[0] and tb[0] == labels[1] and counts(ta, A) and counts(tb, B):
            r = shape_as(sp, ta, tb, [t for t in tensors if t is not ta and t is not tb], ops)
            if isinstance(r, tuple):
                return r
            errors.append(r)
    raise Violation("the tensors of a term are not those of the operators: %s" % (errors or [t[0] for t in own]))


def shape_as(sp, ta, tb, cumulants, ops):
    string = []
    for t in (ta, tb):
        string += [(True, i) for i in t[2]] + [(False, i) for i in reversed(t[1])]
    where = {}
    for p, x in enumerate(string):
        if x in where:
            return "%s appears twice" % (x,)
        where[x] = p
    order, groups = [], [{} for _ in sp]

    def take(x):
        if x not in where:
            raise KeyError(x)
        order.append(where.pop(x))

    try:
        for c in cumulants:
            up, lo = c[1], c[2]
            s = up[0][0]
            if c[0] == "eta1":
                take((False, lo[0]))
                take((True, up[0]))
            else:
                for i in up:
                    take((True, i))
                for i in reversed(lo):
                    take((False, i))
            groups[s][len(up)] = groups[s].get(len(up), 0) + 1
            if c[0] != "gamma1" and c[0] != "eta1" and c[0] != "lambda%d" % len(up):
                return "%s has %d upper indices" % (c[0], len(up))
            if len(up) == 1 and (c[0] == "gamma1") != bool(sp[s][3]):
                return "%s in a contraction of %s" % (c[0], "a+ a" if sp[s][3] else "a a+")
        left = set(ops)
        for x in list(string):
            flip = (not x[0], x[1])
            if x in where and x not in left and flip in where and flip not in left and sp[x[1][0]][0] != "general":
                first, second = (x, flip) if x[0] == (sp[x[1][0]][0] == "occupied") else (flip, x)
                take(first)
                take(second)
                g = groups[x[1][0]]
                g[1] = g.get(1, 0) + 1
        for x in ops:
            take(x)
    except KeyError as e:
        return "operator %s is not one of those of the operators" % (e,)
    if where:
        return "operators disappear"
    n = sum(1 for i in range(len(order)) for j in range(i) if order[j] > order[i])
    return tuple(tuple(sorted(g.items())) for g in groups), -1 if n % 2 else 1
