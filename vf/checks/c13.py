"""C13: printed text reads back as the same object, and text is read as what it says."""
import os
import re
import hypothesis.strategies as st
from fractions import Fraction

from vf import opx, terms, wick
from vf.core import Discard, Violation, clip, ensure, expr_dict, expr_terms, frac, idx, rat, setup_spaces, tensor_key, term_key

CAMPAIGNS = [
    dict(name="expressions", n=dict(quick=5000, thorough=120000)),
    dict(name="atoms", n=dict(quick=6000, thorough=120000)),
    dict(name="results", n=dict(quick=800, thorough=20000)),
]
RULE = (
    "expressions: a random expression (tensors, fermionic and bosonic operators, braces, any coefficients) is printed and "
    "read back, and each term is also read from text in a random style (index with or without underscore, spacing, explicit "
    "sign or coefficient); atoms: indices, index lists, tensors, operators, rationals from valid and mutated text, which is "
    "accepted exactly when it follows the documented form; results: canonical results of contractions are printed and read "
    "back; non-trivial: at least two terms with tensors or operators, or an atom whose text is not the printed form"
)
ASSUMPTIONS = [
    "tensor labels start with a letter (a leading digit would be ambiguous with the coefficient)",
    "text that is not part of any tensor, operator or leading coefficient is ignored by the expression reader; such text is not generated",
]

LABELS = ["t", "T2", "gamma1", "x_1", "Lambda_22", "V", "a", "b", "aa_b1", "T", "T02", "x_01", "v", "t_", "b1", "a_a", "B"]


@st.composite
def expr_cases(draw):
    if draw(st.integers(0, 4)) == 0:
        ns = draw(st.sampled_from(terms.MANY))
        big = st.tuples(st.integers(-(10**30), 10**30).filter(bool), st.integers(1, 10**30)).map(list)
        ts = draw(terms.families(ns, st.sampled_from(terms.LONG_LABELS), factors=st.one_of(st.sampled_from(terms.FACTORS), big)))
        return dict(
            kind="expr", fields=[draw(st.sampled_from(["fermion", "fermion", "boson"])) for _ in range(ns)],
            types=[draw(st.sampled_from(terms.TYPES)) for _ in range(ns)], how=draw(st.integers(1, 3)),
            terms=[dict(t, style=draw(st.integers(0, 1 << 12))) for t in ts], lines=draw(st.lists(st.integers(0, 6), max_size=12)),
        )
    ns = draw(st.integers(1, 3))
    pos = st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11, 99, 100, 12345]))
    ix = st.tuples(st.integers(0, ns - 1), pos).map(list)
    ts = []
    for _ in range(draw(st.integers(1, 4))):
        nt = draw(st.integers(0, 3))
        num = draw(st.one_of(st.sampled_from([1, -1, 2, -2, 10, 3]), st.integers(-10**6, 10**6), st.integers(-10**60, 10**60)))
        den = draw(st.one_of(st.sampled_from([1, 1, 2, 4]), st.integers(1, 10**4), st.integers(1, 10**60)))
        ts.append(
            dict(
                t=[[draw(st.sampled_from(LABELS)), draw(st.lists(ix, max_size=3)), draw(st.lists(ix, max_size=3))] for _ in range(nt)],
                o=draw(st.lists(st.tuples(st.booleans(), ix).map(list), max_size=5)),
                flag=draw(st.booleans()), f=[num or 1, den], style=draw(st.integers(0, 1 << 12)),
            )
        )
    return dict(
        kind="expr", fields=[draw(st.sampled_from(["fermion", "fermion", "boson"])) for _ in range(ns)],
        types=[draw(st.sampled_from(terms.TYPES)) for _ in range(ns)], terms=ts, how=draw(st.integers(1, 3)),
        lines=draw(st.lists(st.integers(0, 3), max_size=8)),
    )


NOISE = ["", "_", "-", "+", " ", "1", "0", "o", "z", "/", "^", "{", "}", ",", "(", ".", "07", "__"]


@st.composite
def atom_cases(draw):
    kind = draw(st.sampled_from(["index", "index", "indices", "tensor", "sqop", "rational", "rational"]))
    num = st.one_of(st.integers(0, 12), st.integers(0, 2**31 - 1))
    if kind == "index":
        text = draw(st.sampled_from("oavoavzOAV")) + draw(st.sampled_from(["", "", "_"])) + str(draw(num))
    elif kind == "indices":
        text = ",".join(draw(st.lists(st.tuples(st.sampled_from(["", "", " ", "  "]), st.sampled_from("oav"), st.sampled_from(["", "_"]), num, st.sampled_from(["", " "])).map(lambda x: "".join(map(str, x))), max_size=4)))
    elif kind == "tensor":
        ix = st.lists(st.tuples(st.sampled_from("oav"), st.sampled_from(["", "_"]), num).map(lambda x: "".join(map(str, x))), max_size=3)
        sep = draw(st.sampled_from([",", ", ", " ,"]))
        text = "%s^{%s}_{%s}" % (draw(st.sampled_from(LABELS)), sep.join(draw(ix)), sep.join(draw(ix)))
    elif kind == "sqop":
        text = draw(st.sampled_from("oav")) + draw(st.sampled_from(["", "_"])) + str(draw(num))
    else:
        big = st.one_of(st.integers(0, 99), st.integers(0, 10**12), st.integers(0, 10**100))
        text = draw(st.sampled_from(["", "", "-", "+"])) + draw(st.one_of(big.map(str), st.just("")))
        if draw(st.booleans()):
            text += "/" + draw(st.one_of(big.filter(bool).map(str), st.just("")))
        text = draw(st.sampled_from(["", "", " ", "\t "])) + text + draw(st.sampled_from(["", "", " "]))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        p = draw(st.integers(0, len(text)))
        text = text[:p] + draw(st.sampled_from(NOISE)) + text[p + draw(st.integers(0, 1)):]
    return dict(kind=kind, text=text, cre=draw(st.booleans()))


def strategy(tier):
    c = os.environ.get("VF_CAMPAIGN")
    if c == "0":
        return expr_cases()
    if c == "1":
        return atom_cases()
    return st.one_of(
        wick.wick_cases(["occupied", "unoccupied"], 10, 8),
        wick.wick_cases(["general", "occupied", "unoccupied"], 8, 7, general=True),
    )


def styled(t, fields, style):
    """Text of the term in another legal style."""
    bit = lambda k: (style >> k) & 1
    us = "_" if bit(0) else ""
    ix = lambda i: "%s%s%d" % (terms.LETTERS[i[0]], us, i[1])
    parts = ["%s^{%s}_{%s}" % (x[0], ",".join(map(ix, x[1])), ",".join(map(ix, x[2]))) for x in t["t"]]
    ops = ["%s%s(%s)" % ("b" if fields[o[1][0]] == "boson" else "a", "+" if o[0] else "-", ix(o[1])) for o in t["o"]]
    gap = "  " if bit(1) else " "
    body = gap.join(parts)
    if ops:
        s = (gap if bit(2) else " ").join(ops)
        if bit(3) and not t["flag"]:
            s = "".join(ops)
        if t["flag"]:
            s = "{" + (" " if bit(4) else "") + s + (" " if bit(5) else "") + "}"
        body = (body + " " if body else "") + s
    c = Fraction(*t["f"])
    num, den = c.numerator, c.denominator
    if bit(6):
        num, den = num * 3, den * 3
    cs = "%d/%d" % (num, den) if (den != 1 or bit(7)) else str(num)
    if c == 1 and body and bit(8):
        cs = ""
    elif c == -1 and body and bit(8):
        cs = "-"
    if c > 0 and bit(9):
        cs = "+" + cs
    if bit(11) and cs[:1] in ("+", "-"):
        cs = cs[0] + " " + cs[1:]
    lead = "  " if bit(10) else ""
    return lead + cs + (" " if cs and body else "") + body


def run_expr(w, case):
    fields = case["fields"]
    setup_spaces(w, terms.spaces_of(fields, case["types"]))
    e = w.Expression()
    model = {}
    for t in case["terms"]:
        e = e + terms.single(w, dict(t, _fields=fields), w.sym.anti, case["how"])
        model = opx.add(model, {terms.key(t): Fraction(*t["f"])})
        text = styled(t, fields, t["style"])
        x = w.Term(terms.symterm(w, dict(t, _fields=fields), w.sym.anti))
        x.set(rat(w, Fraction(*t["f"])))
        got = expr_dict(w, w.expression(str(x), w.sym.anti))
        ensure(got == {terms.key(t): Fraction(*t["f"])} and repr(x) == str(x), "the term %s is read back as %s", x, clip(got))
        got = expr_dict(w, w.expression(text, w.sym.anti))
        ensure(got == {terms.key(t): Fraction(*t["f"])}, "%r is read as %s", text, clip(got))
    ensure(expr_dict(w, e) == model, "the expression is %s, expected %s", clip(e), clip(model))
    text = str(e)
    ensure(repr(e) == text, "repr and str differ")
    back = w.string_to_expr(text)
    got = expr_dict(w, back)
    ensure(got == model and back == e, "%s is read back as %s", clip(text), clip(got))
    ensure(str(back) == text, "%s is printed as %s after reading it back", clip(text), clip(str(back)))
    ensure(expr_dict(w, w.string_to_expr("\n" + text + "\n  \n")) == model, "blank lines around %s change the expression", clip(text))
    # a permutation of the lines is the same expression
    lines = text.split("\n")
    if len(lines) > 1:
        other = "\n".join(l if l[:1] in "+-" else "+" + l for l in lines[::-1])
        ensure(expr_dict(w, w.string_to_expr(other)) == model, "the lines of %s in reverse order are another expression", clip(text))
    # every line counts, also one that is written twice
    pool = [l if l[:1] in ("+", "-") else "+" + l for l in lines if l]
    want = {}
    parts = []
    for n, k in enumerate(case.get("lines", [])):
        t = case["terms"][k % len(case["terms"])]
        parts.append(styled(t, fields, t["style"] if n % 3 else t["style"] ^ n))
        want = opx.add(want, {terms.key(t): Fraction(*t["f"])})
    got = expr_dict(w, w.string_to_expr("\n".join(parts)))
    ensure(got == want, "the lines %s are read as %s, expected %s", clip(parts), clip(got), clip(want))
    got = expr_dict(w, w.string_to_expr("\n".join(pool + pool)))
    ensure(got == opx.add(model, model), "the lines of %s written twice are read as %s", clip(text), clip(got))
    for t in case["terms"]:
        s = terms.symterm(w, t, w.sym.anti)
        if t["t"] or t["o"]:
            ensure(expr_dict(w, w.expression(str(s))) == {terms.key(t): 1}, "the term %s is read back differently", clip(s))
        tm = terms.term(w, t, w.sym.anti)
        ensure(expr_dict(w, w.string_to_expr(str(tm))) == {terms.key(t): Fraction(*t["f"])} if (t["t"] or t["o"]) else True, "the term %s is read back differently", clip(tm))
    cl = []
    if any(t["flag"] and t["o"] for t in case["terms"]):
        cl.append("braces")
    if any(fields[o[1][0]] == "boson" for t in case["terms"] for o in t["o"]):
        cl.append("boson operators")
    if any(abs(t["f"][0]) > 2**63 for t in case["terms"]):
        cl.append("long coefficient")
    return dict(nontrivial=sum(1 for k in model if k[0] or k[1]) >= 2, classes=cl, note=clip(text, 150))


_IX = re.compile(r"^([a-zA-Z])_?([0-9]+)$")
_TEN = re.compile(r"^([a-zA-Z0-9_]+)\^\{([\w,\s]*)\}_\{([\w,\s]*)\}$", re.A)
_RAT = re.compile(r"^[ \t]*([+-]?)([0-9]*)(?:(/)([0-9]*))?[ \t]*$")
SPACES = {"o": 0, "v": 1, "a": 2}


def read_index(s):
    m = _IX.match(s)
    if not m or m.group(1) not in SPACES or int(m.group(2)) > 2**31 - 1:
        return None
    return SPACES[m.group(1)], int(m.group(2))


def read_list(s):
    """Comma separated; a trailing comma adds nothing."""
    if s == "":
        return ()
    parts = s.split(",")
    if parts[-1] == "":
        parts = parts[:-1]
    out = tuple(read_index(p.strip(" \t\n")) for p in parts)
    return None if None in out else out


def attempt(f):
    try:
        return f(), None
    except (RuntimeError, IndexError, ValueError) as e:
        return None, e


def agree(want, got, err, kind, text):
    if want is None:
        ensure(err is not None, "the malformed %s %r is accepted as %s", kind, text, got)
    else:
        ensure(err is None, "the %s %r is rejected: %s", kind, text, str(err).strip()[:100])
        ensure(got == want, "the %s %r is read as %s, expected %s", kind, text, got, want)


def run_atom(w, case):
    setup_spaces(w, [dict(label=l, field="boson" if l == "a" else "fermion", type="general", indices=[l]) for l in "ova"])
    kind, text = case["kind"], case["text"]
    printed = None
    if kind == "index":
        want = read_index(text)
        got, err = attempt(lambda: w.index(text))
        agree(want, idx(got) if got is not None else None, err, kind, text)
        if got is not None:
            printed = str(got)
            ensure(w.index(printed) == got, "index %s is read back differently", printed)
            ensure(printed == "%s%d" % ("ova"[want[0]], want[1]), "index %r is printed as %s", text, printed)
    elif kind == "indices":
        want = read_list(text)
        got, err = attempt(lambda: w.indices(text))
        agree(want, tuple(map(idx, got)) if got is not None else None, err, kind, text)
        printed = ",".join(map(str, got)) if got is not None else None
    elif kind == "tensor":
        m = _TEN.match(text)
        want = None
        if m:
            up, lo = read_list(m.group(2)), read_list(m.group(3))
            want = None if up is None or lo is None else (m.group(1), up, lo)
        got, err = attempt(lambda: w.tensor(text, w.sym.anti))
        agree(want, tensor_key(w, got) if got is not None else None, err, kind, text)
        if got is not None:
            printed = str(got)
            ensure(w.tensor(printed, w.sym.anti) is not None and tensor_key(w, w.tensor(printed, w.sym.anti)) == want, "tensor %s is read back differently", printed)
            t2 = w.tensor(want[0], [str(w.Index(*i)) for i in want[2]], [str(w.Index(*i)) for i in want[1]], w.sym.symm)
            ensure(tensor_key(w, t2) == want, "tensor(label, lower, upper) gives %s, expected %s", t2, want)
    elif kind == "sqop":
        want = read_index(text)
        c = case["cre"]
        got, err = attempt(lambda: w.cre(text) if c else w.ann(text))
        agree(want, idx(got.index()) if got is not None else None, err, kind, text)
        if got is not None:
            ensure((got.type() == w.type.cre) == c, "operator type of %s", got)
            ensure(got == w.sqoperator(text, w.type.cre if c else w.type.ann), "sqoperator(%r) differs", text)
            printed = str(got)
            ensure(printed == "%s%s(%s)" % ("b" if want[0] == 2 else "a", "+" if c else "-", "%s%d" % ("ova"[want[0]], want[1])), "operator printed as %s", printed)
            ensure(expr_dict(w, w.expression(printed)) == {((), ((c, want),), False): 1}, "%s is read back differently", printed)
    else:
        m = _RAT.match(text)
        want = None
        if m and not (m.group(3) and (not m.group(2) or not m.group(4))):
            n = int(m.group(2)) if m.group(2) else 1
            d = int(m.group(4)) if m.group(4) else 1
            if d == 0 or max(len(m.group(2)), len(m.group(4) or "")) > 300:
                raise Discard()
            want = Fraction(-n if m.group(1) == "-" else n, d)
        got, err = attempt(lambda: w.make_rational(text))
        agree(want, frac(got) if got is not None else None, err, kind, text)
        if got is not None:
            for s in (got.str(False), got.str(True)):
                ensure(frac(w.make_rational(s)) == want, "%s is printed as %r, which is read as %s", want, s, w.make_rational(s))
            printed = got.str(False)
    return dict(
        nontrivial=printed != text, classes=[kind + (" accepted" if want is not None else " rejected")], note=repr(text)[:100]
    )


def run_result(w, case):
    wick.guard(case)
    spaces = wick.space_defs(case["types"])
    setup_spaces(w, spaces)
    expr = wick.build_product(w, spaces, case["ops"])
    # printed operator expressions describe the expression completely
    opx.parse(str(expr), [s["label"] for s in spaces])
    res = wick.theorem(w, case).contract(rat(w, Fraction(*case["factor"])), expr, case["min"], case["max"])
    text = str(res)
    back = w.string_to_expr(text)
    ensure(back == res and expr_dict(w, back) == expr_dict(w, res), "a result is read back differently: %s", clip(text))
    n = 0
    for k, eqs in res.to_manybody_equation("R").items():
        for q in eqs[:5]:
            n += 1
            l, r = str(q).split("+=")
            ensure(expr_dict(w, w.string_to_expr(r.strip())) == expr_dict(w, q.rhs_expression()), "the right-hand side of %s is read back differently", q)
            ensure(tensor_key(w, w.tensor(l.strip(), w.sym.anti)) == tensor_key(w, q.lhs().tensors()[0]), "the left-hand side of %s is read back differently", q)
    return dict(nontrivial=len(res) >= 2, classes=["result"], note="%d terms" % len(res))


def run_case(w, case):
    k = case.get("kind")
    if k == "expr":
        return run_expr(w, case)
    if k is None:
        return run_result(w, case)
    return run_atom(w, case)
