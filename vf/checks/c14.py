"""C14: the LaTeX of an expression denotes that expression."""
import re
import hypothesis.strategies as st
from fractions import Fraction

from vf import opx, terms
from vf.core import Discard, Violation, clip, ensure, expr_terms, frac, idx, rat, setup_spaces

CAMPAIGNS = [dict(name="latex", n=dict(quick=10000, thorough=150000))]
RULE = (
    "a case is a random expression (tensors with plain, numbered and Greek labels; fermionic and bosonic operators in any "
    "order; braces; any coefficients; index names from the space's list or beyond it); its LaTeX is decoded by an "
    "independent reader and compared; non-trivial: at least two terms, one with operators or two tensors"
)
ASSUMPTIONS = [
    "conventions of the output: the number of a Greek label is not shown, an underscore in a label is not shown, in the "
    "compact form of fermionic operators the lower indices are read from right to left",
]

GREEK = "alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau upsilon phi chi psi omega".split()
LABELS = ["t", "T2", "gamma1", "x_1", "V", "a", "Lambda_22", "lambda3", "eta1", "TT", "Omega", "omega", "T02", "T0", "T20", "x_007", "R_100", "S12345678901", "t2", "ALPHA", "Beta", "gam", "pis", "lam_1", "v_"] + GREEK
NAMES = [
    [[], ["i"], list("ijkl"), ["i1", "i2"], ["\\alpha", "\\beta"]],
    [[], ["a"], list("abcd"), ["a1", "a2"], ["\\mu", "\\nu"]],
    [[], ["u"], list("uvwx"), ["u1", "u2"], ["\\rho'", "\\tau"]],
    [[], ["p"], list("pqrs"), ["p1", "p2"], ["P", "Q"]],
    [[], ["m"], list("mnzy"), ["m1", "m2"], ["\\kappa", "\\chi"]],
    [[], ["e"], list("efgh"), ["e1", "e2"], ["\\bar{e}", "\\tilde{f}"]],
    [[], ["G"], list("GHKL"), ["G1", "G2"], ["\\Gamma", "\\Delta"]],
    [[], ["X"], list("XYZW"), ["X1", "X2"], ["\\Xi", "\\Theta"]],
    [[], ["o"], ["o", "ww"], ["o1", "o2"], ["\\vec{o}", "\\dot{o}"]],
    [[], ["t"], list("tU"), ["d1", "d2"], ["\\breve{d}", "d''"]],
    [[], ["A"], list("ABCD"), ["A1", "A2"], ["A'", "B'"]],
    [[], ["M"], list("MN"), ["M1", "M2"], ["\\mathbf{M}", "\\mathbf{N}"]],
    [[], ["R"], list("RST"), ["R1", "R2"], ["\\Sigma", "\\Omega"]],
    [[], ["P1"], ["P2", "P3"], ["P4", "P5"], ["\\Phi", "\\Psi"]],
    [[], ["E"], list("EFV"), ["E1", "E2"], ["\\hat{E}", "F'"]],
    [[], ["I"], list("IJ"), ["I1", "I2"], ["\\Lambda", "\\Pi"]],
]


@st.composite
def cases(draw):
    wide = draw(st.integers(0, 3)) == 0
    ns = draw(st.sampled_from(terms.MANY) if wide else st.integers(1, 3))
    fields = [draw(st.sampled_from(["fermion", "fermion", "boson"])) for _ in range(ns)]
    pos = st.one_of(st.integers(0, 3), st.sampled_from([4, 10, 123]))
    ix = st.tuples(st.integers(0, ns - 1), pos).map(list)
    ts = draw(terms.families(ns, st.sampled_from(terms.LONG_LABELS + GREEK))) if wide else []
    for t in ts:
        if draw(st.booleans()):
            t["o"] = [o for o in t["o"] if o[0]] + [o for o in t["o"] if not o[0]]
    for _ in range(0 if wide else draw(st.integers(1, 4))):
        n = draw(st.sampled_from([0, 1, 2, 2, 3, 4]))
        ops = [[draw(st.booleans()), draw(ix)] for _ in range(n)]
        if draw(st.booleans()):
            ops = [o for o in ops if o[0]] + [o for o in ops if not o[0]]
        ts.append(
            dict(
                t=[[draw(st.sampled_from(LABELS)), draw(st.lists(ix, max_size=3)), draw(st.lists(ix, max_size=3))] for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3])))],
                o=ops, flag=draw(st.booleans()),
                f=draw(st.one_of(st.sampled_from(terms.FACTORS), st.tuples(st.integers(-(10**40), 10**40).filter(bool), st.integers(1, 10**30)).map(list), st.tuples(st.integers(-50, 50).filter(bool), st.just(1)).map(list))),
            )
        )
    return dict(
        fields=fields, types=[draw(st.sampled_from(terms.TYPES)) for _ in range(ns)], terms=ts,
        names=[draw(st.integers(0, 4)) for _ in range(ns)], sep=draw(st.sampled_from([None, "\n", " ;; "])),
    )


def strategy(tier):
    return cases()


_COEF = re.compile(r"^([+-]?)(?:\\frac\{(\d+)\}\{(\d+)\}|(\d+))?")
GROUP = r"\{((?:[^{}]|\{[^{}]*\})*)\}"
_TEN = re.compile(r"^\{(\\?)([a-zA-Z]+)(?:_\{(\d+)\})?\}\^" + GROUP + "_" + GROUP)
_COMPACT = re.compile(r"^\\hat\{a\}\^" + GROUP + "_" + GROUP)
_OP = re.compile(r"^\\hat\{([ab])\}([\^_])" + GROUP)


def shown(label):
    m = re.match(r"^([a-zA-Z]+)_?(\d+)?$", label)
    sym, num = m.group(1), m.group(2)
    return (True, sym, None) if sym in GREEK else (False, sym, num)


class Reader:
    def __init__(self, names, fields):
        self.map = {}
        for s, l in enumerate(names):
            for k, n in enumerate(l):
                self.map[n] = (s, k)
        self.fields = fields

        self.names = names

    def index(self, s):
        if s not in self.map:
            m = re.match(r"^([a-zA-Z])_\{(\d+)\}$", s)
            if m and m.group(1) in terms.LETTERS[: len(self.names)]:
                n = terms.LETTERS.index(m.group(1))
                if int(m.group(2)) >= len(self.names[n]) and str(int(m.group(2))) == m.group(2):
                    return n, int(m.group(2))
            raise Violation("unknown index %r in LaTeX" % s)
        return self.map[s]

    def list(self, s):
        return tuple(self.index(x) for x in s.split())

    def body(self, s):
        tensors, ops, flag, open_ = [], [], False, False
        rest = s.strip()
        while rest:
            if rest.startswith("\\{"):
                if flag or ops:
                    raise Violation("misplaced brace in %r" % s)
                flag = open_ = True
                rest = rest[2:]
            elif rest.startswith("\\}"):
                if not open_:
                    raise Violation("misplaced brace in %r" % s)
                open_ = False
                rest = rest[2:]
            else:
                m = _TEN.match(rest)
                if m:
                    if ops or flag:
                        raise Violation("tensor after operators in %r" % s)
                    tensors.append(((bool(m.group(1)), m.group(2), m.group(3)), self.list(m.group(4)), self.list(m.group(5))))
                else:
                    if flag and not open_:
                        raise Violation("operators after the brace in %r" % s)
                    m = _COMPACT.match(rest)
                    if m:
                        ops += [(True, i) for i in self.list(m.group(1))] + [(False, i) for i in reversed(self.list(m.group(2)))]
                        if any(self.fields[i[0]] == "boson" for _, i in ops):
                            raise Violation("boson written with a fermionic symbol in %r" % s)
                    else:
                        m = _OP.match(rest)
                        if not m:
                            raise Violation("unreadable LaTeX %r in %r" % (rest[:40], s))
                        i = self.index(m.group(3))
                        ops.append((m.group(2) == "^", i))
                        if (self.fields[i[0]] == "boson") != (m.group(1) == "b"):
                            raise Violation("operator symbol %r for a %s in %r" % (m.group(1), self.fields[i[0]], s))
                rest = rest[m.end():]
            rest = rest.lstrip()
        if open_:
            raise Violation("unbalanced brace in %r" % s)
        return tuple(tensors), tuple(ops), flag

    def term(self, s, first):
        m = _COEF.match(s.strip())
        sign, n, d, k = m.groups()
        rest = s.strip()[m.end():].strip()
        if not sign and not first:
            raise Violation("no sign before the term %r" % s)
        if n is None and k is None and not rest:
            raise Violation("empty term %r in LaTeX" % s)
        # a number that is the whole term
        f = Fraction(int(n), int(d)) if n is not None else Fraction(int(k)) if k is not None else Fraction(1)
        if k is None and n is None and re.match(r"^\d+$", rest):
            f, rest = Fraction(int(rest)), ""
        return self.body(rest), (-f if sign == "-" else f)


def denoted(t):
    k = terms.key(t)
    return (tuple((shown(l), u, d) for l, u, d in k[0]), k[1], k[2])


def run_case(w, case):
    fields = case["fields"]
    names = [NAMES[s][case["names"][s]] for s in range(len(fields))]
    setup_spaces(w, [dict(label=terms.LETTERS[s], field=fields[s], type=case["types"][s], indices=names[s]) for s in range(len(fields))])
    rd = Reader(names, fields)
    e = w.Expression()
    model = {}
    for t in case["terms"]:
        e += terms.term(w, t, w.sym.anti)
        k = terms.key(t)
        model = opx.add(model, {k: Fraction(*t["f"])})
    want = {}
    for (ts, ops, flag), c in model.items():
        k = (tuple((shown(l), u, d) for l, u, d in ts), ops, flag)
        want.setdefault(k, []).append(c)
    text = e.latex() if case["sep"] is None else e.latex(case["sep"])
    lines = text.split(" \\\\ \n" if case["sep"] is None else case["sep"]) if model else []
    got = {}
    for n, l in enumerate(lines):
        k, c = rd.term(l, n == 0)
        got.setdefault(k, []).append(c)
    for k in set(want) | set(got):
        ensure(sorted(want.get(k, [])) == sorted(got.get(k, [])), "LaTeX %s: the term %s has coefficients %s, expected %s", clip(text), clip(k), got.get(k), want.get(k))
    for t in case["terms"]:
        s = terms.symterm(w, t, w.sym.anti)
        ensure(rd.body(s.latex()) == denoted(t), "LaTeX of %s is %r", s, s.latex())
        x = w.Term(s)
        ensure(rd.term(x.latex(), True) == (denoted(t), 1), "LaTeX of the term %s is %r", x, x.latex())
        x.set(rat(w, Fraction(*t["f"])))
        ensure(rd.term(x.latex(), True) == (denoted(t), Fraction(*t["f"])), "LaTeX of the term %s is %r", x, x.latex())
        for x, tn in zip(t["t"], s.tensors()):
            ensure(rd.body(tn.latex())[0] == (denoted(t)[0][t["t"].index(x)],), "LaTeX of %s is %r", tn, tn.latex())
        for o, op in zip(t["o"], s.ops()):
            ensure(rd.body(op.latex())[1] == ((bool(o[0]), tuple(o[1])),), "LaTeX of %s is %r", op, op.latex())
            ensure(rd.index(op.index().latex()) == tuple(o[1]), "LaTeX of %s is %r", op.index(), op.index().latex())
    cl = []
    if any(fields[o[1][0]] == "boson" for t in case["terms"] for o in t["o"]):
        cl.append("boson")
    if any(t["flag"] and t["o"] for t in case["terms"]):
        cl.append("braces")
    if any(tuple(i)[1] >= len(names[i[0]]) for t in case["terms"] for x in t["t"] for i in x[1] + x[2]):
        cl.append("index beyond the list")
    return dict(
        nontrivial=len(model) >= 2 and any(k[1] or len(k[0]) > 1 for k in model), classes=cl, note=clip(text, 200)
    )
