"""C17: whatever the arguments, a call either returns or raises an exception; memory is never misused."""
import os
import hypothesis.strategies as st
from fractions import Fraction

from vf.core import Discard, Violation, clip, ensure, rat

# the first campaign re-uses the generators of other checks, which look at VF_CAMPAIGN=0
CAMPAIGNS = [
    dict(name="valid use (ASan, UBSan)", variant="asan", n=dict(quick=2400, thorough=60000), max_s=dict(quick=120, thorough=900), floor=0.1),
    dict(name="arbitrary calls (ASan, UBSan)", variant="asan", n=dict(quick=6000, thorough=200000), max_s=dict(quick=120, thorough=900), floor=0.1),
]
RULE = (
    "valid use: cases of the generators of C01, C02, C05-C16, C18, C19 executed under AddressSanitizer, UBSan and libstdc++ "
    "assertions; arbitrary calls: a registry of 0-10 spaces and a history of 3-14 API calls with arbitrary, mutated or extreme "
    "arguments (unknown and out-of-range spaces, stale objects after a reset, > 64 indices, > 8 spaces, huge numbers, token "
    "soup); every call must return or raise an ordinary exception, and a rejected call must leave the registry as it was; "
    "non-trivial: a case of another check that is non-trivial there, or a history with both accepted and rejected calls"
)
ASSUMPTIONS = [
    "texts of at most 20,000 characters (about 4,000 for the expression reader, which takes quadratic time)",
    "rationals whose numerator and denominator stay below 1024 bits",
    "counts of operators are between -2 and 40",
]
# texts without a bound on their length: call, prefix, repeated part, suffix, largest number of repetitions
LONG = [
    ("make_rational", "-", "1", "", 20000), ("make_rational", "", " ", "1/2", 20000), ("make_rational", "1/", "0", "", 20000), ("make_rational", "", "x", "", 20000),
    ("index", "o", "1", "", 20000), ("indices", "o1", ",o1", "", 150), ("indices", "", "o1", "", 20000), ("cre", "o_", "0", "", 20000),
    ("tensor", "T^{", "o1,", "o1}_{}", 250), ("tensor", "T^{}_{o1", " ", "}", 20000), ("tensor", "", "Tx", "^{}_{}", 30000), ("tensor", "T^{", "_", "}", 20000),
    ("expression", "T^{", "o1,", "o1}_{}", 250), ("expression", "", "T^{o0}_{} ", "", 80), ("expression", "{", " a+(o0) a-(o1)", " }", 300),
    ("expression", "1/2 ", "T", "^{}_{}", 2000), ("expression", "", "1", "", 250), ("expression", "", " ", "x", 20000), ("expression", "a+(o", "0", ")", 250),
    ("string_to_expr", "", "T^{o0}_{}\n", "", 30), ("op", "", "o+ ", "", 20000), ("op", "", "o", "+", 20000), ("op", "", "o+ x", "", 20000),
    ("operator_expr", "o+", " ", "o", 20000), ("operator_expr", "", "o ", "", 150), ("latex", "", "T", "", 20000), ("latex", "T", "1", "", 20000), ("latex", "T", "_", "", 20000),
    ("compile", "", "T", "", 20000), ("add_space", "", "i", "", 20000), ("join", "", "ij", "", 3000),
]
SOUP = os.environ.get("VF_CAMPAIGN") == "1"
MODULES = ["c01", "c02", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c18", "c19"]


def mods():
    import importlib

    return {m: importlib.import_module("vf.checks." + m) for m in MODULES}


@st.composite
def valid_cases(draw, tier):
    m = draw(st.sampled_from(MODULES))
    x = mods()[m]
    large = dict(c06="ordering_cases", c09="large_cases", c10="long_cases", c12="large_cases").get(m)
    if m == "c08" and draw(st.booleans()):
        return dict(m=m, case=draw(x.cases(True)))
    if large and draw(st.booleans()):
        return dict(m=m, case=draw(getattr(x, large)()))
    return dict(m=m, case=draw(x.strategy(tier)))


LETTERS = "oavbcdefgh"
TOKENS = [
    "o0", "v1", "a_2", "b3", "z9", "o", "a+(o0)", "a-(v1)", "b+(a2)", "a+", "T", "T2", "^", "_", "{", "}", "{}", "^{o0,v1}", "_{a0}", "^{}", "_{}",
    "T^{o0,o1}_{v0,v1}", "V^{v0}_{o0}", "1", "-1", "1/2", "-3/4", "/", "+", "-", "*", ",", " ", "  ", "\t", "(", ")", "0", "00", "99999999999999999999",
    "2147483647", "2147483648", "1/0", "-", "é", "\x01", "\\", "\n", "lambda3^{a0,a1,a2}_{a3,a4,a5}", "gamma1^{a0}_{a1}", "{ a+(v0) a-(o0) }", "o-1", "o1000000",
]
VALID = [
    "T^{o0,o1}_{v0,v1} V^{v0,v1}_{o0,o1}", "-1/2 T^{v1}_{o1} { a+(o1) a-(v1) }", "3/4", "a+(o0) a-(o1) a+(v2)", "{ b+(a0) b-(a1) }", "F^{o0}_{v_1} a+(v1)",
    "+7 gamma1^{a0}_{a1} eta1^{a2}_{a3} lambda2^{a0,a2}_{a1,a3}", "o1,v2, a3", "v_17",
]


@st.composite
def text(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.sampled_from(["", " ", ""])).join(draw(st.lists(st.sampled_from(TOKENS), max_size=8)))[:200]
    if k == 1:
        return draw(st.text(alphabet="ov ab+-()^_{},/019T", max_size=24))
    s = draw(st.sampled_from(VALID))
    for _ in range(draw(st.integers(0, 3))):
        p = draw(st.integers(0, len(s)))
        s = s[:p] + draw(st.sampled_from(["", "_", "^", "{", "}", "(", ",", " ", "o", "z", "/", "0", "-", "9999999999"])) + s[p + draw(st.integers(0, 2)):]
    return s


@st.composite
def soup_cases(draw):
    ns = draw(st.sampled_from([0, 1, 2, 3, 3, 3, 4, 8, 9, 10]))
    spaces = [
        [draw(st.sampled_from(["fermion", "fermion", "fermion", "boson"])), draw(st.sampled_from(["occupied", "unoccupied", "general"])), draw(st.integers(0, 3))]
        for _ in range(ns)
    ]
    sp = st.one_of(st.integers(0, max(0, ns - 1)), st.integers(0, max(0, ns - 1)), st.sampled_from([-1, -2, ns, ns + 1, 100, 2**31 - 1, -(2**31)]))
    pos = st.one_of(st.integers(0, 5), st.sampled_from([63, 64, 65, 100, 1000, 2**31 - 1, -1, -(2**31)]))
    ix = st.tuples(sp, pos).map(list)
    R = st.integers(0, 3)
    cnt = st.lists(st.one_of(st.integers(0, 3), st.sampled_from([-1, -2, 13, 21, 40])), max_size=11)
    big = draw(st.integers(0, 3)) == 0
    gx = st.tuples(st.integers(0, max(0, ns - 1)), st.integers(0, 90)).map(list) if big else ix
    many = st.lists(gx, max_size=80 if big else 5)
    comp = st.lists(st.tuples(st.sampled_from(LETTERS[: max(1, min(10, ns + 1))]), st.sampled_from(["", "+", "^"])).map("".join), max_size=6).map(lambda x: " ".join(x))
    rats = st.tuples(st.one_of(st.integers(-9, 9), st.sampled_from([2**31 - 1, -(2**31)])), st.one_of(st.integers(-3, 9), st.sampled_from([2**31 - 1, -(2**31)]))).map(list)
    # without spaces the contractions say nothing, and long contractions are the subject of the other campaign
    small = st.lists(st.tuples(st.sampled_from(LETTERS[: max(1, ns)]), st.sampled_from(["", "+"])).map("".join), min_size=1, max_size=3).map(lambda x: " ".join(x))
    steps = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(CALLS))
        if k in ("index", "indices", "cre", "ann", "make_rational"):
            a = [draw(text())]
        elif k in ("tensor", "expression", "string_to_expr"):
            a = [draw(text()), draw(R)]
        elif k == "tensor3":
            a = [draw(st.sampled_from(["T", "", "x y", "T^"])), draw(st.lists(text(), max_size=3)), draw(st.lists(text(), max_size=3))]
        elif k == "op":
            a = [draw(R), draw(st.sampled_from(["T", ""])), draw(st.lists(st.one_of(comp, small, text()), max_size=3)), draw(st.booleans())]
        elif k == "operator_expr":
            a = [draw(R), draw(st.lists(st.one_of(comp, text()), max_size=3)), draw(st.booleans())]
        elif k == "gen_op":
            a = [draw(R), draw(st.integers(-1, 3)), draw(st.text(alphabet=LETTERS[: ns + 1], max_size=3)), draw(st.text(alphabet=LETTERS[: ns + 1], max_size=3)), draw(st.booleans())]
        elif k == "Operator":
            a = [draw(cnt), draw(cnt)]
        elif k == "diag_operator":
            a = [draw(st.text(alphabet=LETTERS[: ns + 1], max_size=30)), draw(st.text(alphabet=LETTERS[: ns + 1], max_size=4))]
        elif k == "osi":
            a = [draw(sp)]
        elif k == "Index":
            a = draw(ix)
        elif k == "SQOperator":
            a = [draw(ix), draw(ix)]
        elif k == "canonicalize_indices":
            a = [draw(many), draw(st.booleans())]
        elif k == "term":
            nt = draw(st.integers(0, 3))
            a = [
                draw(R), [[draw(st.sampled_from(["T", "V", "gamma1", ""])), draw(many), draw(many)] for _ in range(nt)],
                [[draw(st.booleans()), i] for i in draw(st.lists(gx, max_size=12 if big else 5))], draw(st.booleans()), draw(rats),
            ]
        elif k == "deep":
            a = [draw(R), draw(st.integers(0, max(0, ns - 1))), draw(st.sampled_from([3, 20, 50, 99, 100, 101, 128])), draw(st.integers(0, 2)), draw(st.booleans())]
        elif k == "wide":
            a = [draw(R), draw(st.integers(0, max(0, ns - 1))), draw(st.sampled_from([5, 20, 27, 53, 60, 64, 65, 66, 70, 100, 130, 150])), draw(st.integers(1, 3)), draw(st.integers(0, 4)), draw(st.booleans()), draw(st.sampled_from([1, 1, 7, 1000, 10**6]))]
        elif k in ("canonicalize", "latex", "adjoint", "mbeq", "vno", "arith", "opmul", "opmisc", "opcanon"):
            a = [draw(R), draw(R), draw(R)]
        elif k == "contract":
            lim = st.one_of(st.integers(-1, 6), st.sampled_from([100, -100, 2**31 - 1, -(2**31)]))
            a = [draw(R), draw(lim), draw(lim), draw(st.one_of(st.integers(-1, 4), st.sampled_from([100, 2**31 - 1, -(2**31)]))), draw(st.booleans()), draw(st.booleans())]
        elif k == "equation":
            a = [[draw(st.sampled_from(["R", ""])), draw(many), draw(many)] if draw(st.booleans()) else None, [["T", draw(many), draw(many)]] if draw(st.booleans()) else [], draw(rats)]
        elif k == "rational":
            a = [draw(rats), draw(rats)]
        elif k == "long":
            n = draw(st.integers(0, len(LONG) - 1))
            a = [n, draw(st.sampled_from([100, 1000, LONG[n][4], LONG[n][4]])), draw(R)]
        elif k == "partitions":
            a = [draw(st.integers(-3, 18)), draw(st.one_of(st.integers(-2, 20), st.sampled_from([2**31 - 1, -(2**31)])))]
        elif k == "add_space":
            a = [draw(st.sampled_from(list(LETTERS) + ["", " ", "9", "ab"])), draw(st.sampled_from(["fermion", "boson", "x", ""])), draw(st.sampled_from(["occupied", "general", "y"])), draw(st.lists(st.sampled_from(["i", "", "x1", "\\"]), max_size=3))]
        else:
            a = []
        steps.append([k] + a)
    return dict(spaces=spaces, steps=steps)


CALLS = [
    "index", "indices", "cre", "ann", "make_rational", "tensor", "tensor", "expression", "expression", "string_to_expr", "tensor3", "op", "op", "op", "operator_expr",
    "gen_op", "Operator", "diag_operator", "osi", "Index", "SQOperator", "canonicalize_indices", "term", "term", "term", "canonicalize", "canonicalize", "latex", "adjoint",
    "mbeq", "mbeq", "vno", "arith", "opmul", "opmul", "opmisc", "opcanon", "contract", "contract", "rational", "equation", "equation", "wide", "wide", "deep", "partitions", "long", "add_space", "reset", "respace",
]


REHEARSE = False


def strategy(tier):
    return soup_cases() if SOUP else valid_cases(tier)


OK = (RuntimeError, IndexError, ValueError, TypeError, KeyError, OverflowError, ZeroDivisionError, AttributeError)


def observe(w):
    osi = w.osi()
    n = w.num_spaces()
    return [(osi.label(i), osi.indices(i), w.Index(i, 0).latex()) for i in range(n)], osi.to_dict()


class Machine:
    def __init__(self, w, spaces):
        self.w = w
        self.spaces = spaces
        self.e = [w.Expression() for _ in range(4)]
        self.o = [w.OperatorExpression() for _ in range(4)]
        self.eqs = []
        self.add_spaces()

    def add_spaces(self):
        self.w.reset_space()
        self.types = {}
        for l, (f, t, k) in zip(LETTERS, self.spaces):
            self.types[l] = t
            self.w.add_space(l, f, t, ["%s%s" % (l, x) for x in "ijk"[:k]])

    def show(self, *objs):
        for x in objs:
            str(x)
            repr(x)
            for m in ("latex", "compile"):
                f = getattr(x, m, None)
                if f:
                    a = dict(latex=[], compile=["ambit"])[m]
                    f(*([True] if m == "latex" and hasattr(x, "numerator") else a))

    def size(self, r):
        legs, n = 0, 0
        for line in str(self.o[r]).split("\n"):
            if line:
                n += 1
                legs = max(legs, sum(1 for t in line.split() if t.rstrip("+") in LETTERS and t not in "T"))
        return n, legs

    def kind(self, s):
        return self.types.get(self.w.osi().label(s), "general")

    def step(self, s):
        w, k, a = self.w, s[0], s[1:]
        sym = [w.sym.anti, w.sym.symm, w.sym.none, w.sym.anti]
        if k in ("index", "indices", "cre", "ann", "make_rational"):
            x = getattr(w, k)(a[0])
            self.show(*(x if isinstance(x, list) else [x]))
        elif k == "tensor":
            self.show(w.tensor(a[0], sym[a[1]]))
        elif k == "tensor3":
            self.show(w.tensor(a[0], a[1], a[2], sym[0]))
        elif k == "expression":
            self.e[a[1]] = w.expression(a[0], sym[a[1]])
            str(self.e[a[1]])
        elif k == "string_to_expr":
            self.e[a[1]] = w.string_to_expr(a[0])
        elif k == "op":
            self.o[a[0]] = w.op(a[1], a[2], a[3])
            str(self.o[a[0]])
        elif k == "operator_expr":
            self.e[a[0]] = w.operator_expr("T", a[1], a[2])
            str(self.e[a[0]])
        elif k == "gen_op":
            self.o[a[0]] = w.gen_op("T", a[1], a[2], a[3], diagonal=a[4])
        elif k == "Operator":
            self.show(w.Operator("T", a[0], a[1]))
        elif k == "diag_operator":
            self.show(w.diag_operator("T", list(a[0]), list(a[1])))
        elif k == "osi":
            o = w.osi()
            str(o)
            o.to_dict()
            for f in (o.label, o.indices):
                try:
                    f(a[0])
                except OK:
                    ensure(not 0 <= a[0] < w.num_spaces(), "space %d is rejected", a[0])
                else:
                    ensure(0 <= a[0] < w.num_spaces(), "space %d is accepted", a[0])
        elif k == "Index":
            self.show(w.Index(*a))
        elif k == "SQOperator":
            x, y = w.SQOperator(w.type.cre, w.Index(*a[0])), w.SQOperator(w.type.ann, w.Index(*a[1]))
            x < y
            x == y
            x.index().space()
            for f in (lambda: x.normal_ordered_less(y), x.field_type, y.field_type, x.latex, lambda: str(y), y.latex):
                try:
                    f()
                except OK:
                    pass
        elif k == "canonicalize_indices":
            w.canonicalize_indices([w.Index(*i) for i in a[0]], a[1])
        elif k == "term":
            t = w.SymbolicTerm()
            for l, u, d in a[1]:
                t.add(w.Tensor(l, [w.Index(*i) for i in d], [w.Index(*i) for i in u], sym[a[0]]))
            t.add([w.SQOperator(w.type.cre if c else w.type.ann, w.Index(*i)) for c, i in a[2]])
            t.set_normal_ordered(a[3])
            f = w.rational(*a[4])
            self.e[a[0]] += (t, f)
            str(t)
            t.latex()
        elif k == "deep":
            # two operators with many legs of one kind
            r, s, n, d, mt = a
            if self.kind(s) != "general":
                l = w.osi().label(s)
                x, y = [l + "+ "] * n, [l + " "] * (n + d)
                if self.kind(s) != "occupied":
                    x, y = y, x
                wt = w.WickTheorem()
                wt.set_single_threaded(not mt)
                # the canonicalization of a graph takes n! steps
                wt.do_canonicalize_graph(False)
                self.e[r] = wt.contract(w.op("A", ["".join(x)]) @ w.op("B", ["".join(y)]), 0, d)
                self.show(self.e[r])
        elif k == "wide":
            # one term with many indices of one space: dummies, open indices and operators
            r, s, n, nt, no, flag, stride = a
            ix = [w.Index(s, i * stride) for i in range(n)]
            t = w.SymbolicTerm()
            for j in range(nt):
                t.add(w.Tensor("T%d" % j, ix[j::nt][::-1], ix[(j + 1) % nt::nt], sym[r]))
            t.add([w.SQOperator(w.type.cre, i) for i in ix[:no]] + [w.SQOperator(w.type.ann, i) for i in ix[::-1][:no]])
            t.set_normal_ordered(flag)
            e = w.Expression()
            e += (t, w.rational(1))
            self.show(e, t)
            self.e[r] = e
            e.canonicalize()
            self.show(e)
            self.mbeq([r])
        elif k == "canonicalize":
            self.e[a[0]].canonicalize()
            str(self.e[a[0]])
        elif k == "latex":
            self.show(self.e[a[0]], self.o[a[1]])
            for t, c in self.e[a[0]]:
                t.latex()
        elif k == "adjoint":
            self.e[a[1]] = self.e[a[0]].adjoint()
            self.o[a[1]] = self.o[a[0]].adjoint()
        elif k == "mbeq":
            self.mbeq(a)
        elif k == "vno":
            self.e[a[0]].is_vacuum_normal_ordered()
            if all(len(t.ops()) <= 6 for t, c in self.e[a[0]]) and len(self.e[a[0]]) <= 20:
                self.e[a[1]] = self.e[a[0]].vacuum_normal_ordered(bool(a[2] & 1))
        elif k == "arith":
            x, y = self.e[a[0]], self.e[a[1]]
            if len(x) + len(y) <= 200:
                z = x + y
                z = z - x
                z = w.rational(a[2], 3) * z
                z == y
                z.dot(x)
                z.norm()
                if a[2] == 3:
                    x -= x
                self.e[a[2]] = z
            self.show(*self.eqs[:3])
        elif k == "opmul":
            (n, l), (m, k2) = self.size(a[0]), self.size(a[1])
            if n * m <= 30 and l + k2 <= 40:
                self.o[a[2]] = self.o[a[0]] @ self.o[a[1]] if a[2] & 1 else w.commutator(self.o[a[0]], self.o[a[1]])
        elif k == "opmisc":
            x = self.o[a[0]] + self.o[a[1]] - self.o[a[0]]
            x.add2(x, w.rational(1))
            x.add2(self.o[a[1]], w.rational(-1, 2))
            str(x)
            x == self.o[a[1]]
        elif k == "opcanon":
            self.o[a[0]].canonicalize()
            str(self.o[a[0]])
        elif k == "contract":
            n, l = self.size(a[0])
            if n <= 6 and l <= 8:
                wt = w.WickTheorem()
                wt.set_max_cumulant(a[3])
                wt.do_canonicalize_graph(a[4])
                wt.set_single_threaded(a[5] or l > 6)
                self.e[a[0]] = wt.contract(w.rational(1, 2), self.o[a[0]], a[1], a[2])
                str(self.e[a[0]])
                str(wt.timers())
        elif k == "equation":
            l, r = w.SymbolicTerm(), w.SymbolicTerm()
            T = lambda t: w.Tensor(t[0], [w.Index(*i) for i in t[2]], [w.Index(*i) for i in t[1]], sym[0])
            if a[0]:
                l.add(T(a[0]))
            for t in a[1]:
                r.add(T(t))
            self.check_equation(w.Equation(l, r, w.rational(*a[2])))
        elif k == "rational":
            x, y = w.rational(*a[0]), w.rational(*a[1])
            x + y, x - y, x * y, x == y, str(x), x.str(True), x.latex(), x.compile("einsum"), float(x), x.numerator(), x.denominator()
            x / y
        elif k == "long":
            call, pre, unit, post, top = LONG[a[0]]
            t = pre + unit * min(a[1], top) + post
            if call in ("make_rational", "index", "indices", "cre"):
                self.show(getattr(w, call)(t))
            elif call == "tensor":
                self.show(w.tensor(t, sym[a[2]]))
            elif call == "expression":
                self.show(w.expression(t, sym[a[2]]))
            elif call == "string_to_expr":
                w.string_to_expr(t)
            elif call == "op":
                str(w.op("T", [t]))
            elif call == "operator_expr":
                self.show(w.operator_expr("T", [t], True))
            elif call in ("latex", "compile"):
                x = w.Tensor(t, [w.Index(0, 0)], [], sym[a[2]])
                x.latex() if call == "latex" else x.compile("ambit")
                str(x)
            else:
                w.add_space("y", "fermion", "general", [t] if call == "add_space" else ["%s%d" % (t[:20], i) for i in range(len(t))])
                self.types["y"] = "general"
                str(w.osi())
                w.osi().to_dict()
        elif k == "partitions":
            w.integer_partitions(*a)
        elif k == "add_space":
            w.add_space(*a)
            self.types[a[0]] = a[2]
        elif k == "reset":
            w.reset_space()
            self.types = {}
        elif k == "respace":
            self.add_spaces()

    def mbeq(self, a):
        w = self.w
        for eqs in self.e[a[0]].to_manybody_equation("R").values():
            for q in eqs[:4]:
                self.eqs.append(q)
                self.check_equation(q)

    def check_equation(self, q):
        for f in ("ambit", "einsum", "x"):
            try:
                q.compile(f)
            except OK:
                pass
        try:
            self.w.compile_einsum(q)
        except OK:
            pass
        str(q.rhs_expression())
        for x in (q, q.lhs(), q.rhs(), q.rhs_factor()):
            str(x)
            x.latex()


def run_soup(w, case):
    m = Machine(w, case["spaces"])
    good = bad = 0
    classes = set()
    for s in case["steps"]:
        registry = s[0] in ("add_space", "long", "reset", "respace")
        before = observe(w)
        try:
            m.step(s)
            good += 1
        except OK as e:
            bad += 1
            classes.add("rejected " + s[0])
            registry = False
        except MemoryError:
            raise Discard()
        if not registry:
            after = observe(w)
            ensure(after == before, "the call %s changed the orbital spaces", clip(s))
    w.reset_space()
    return dict(nontrivial=good > 0 and bad > 0, classes=sorted(classes), note="%d accepted, %d rejected" % (good, bad))


_mods = None


def run_case(w, case):
    global _mods
    if "steps" in case and "m" not in case:
        return run_soup(w, case)
    if _mods is None:
        _mods = mods()
    try:
        info = _mods[case["m"]].run_case(w, case["case"]) or {}
    except (Violation, AssertionError):
        # a wrong result is the business of the check that owns the generator
        return dict(classes=["valid " + case["m"] + " (wrong result, reported by its own check)"])
    except OK:
        return dict(classes=["valid " + case["m"] + " (exception)"])
    return dict(nontrivial=bool(info.get("nontrivial")), classes=["valid " + case["m"]], note=info.get("note", ""))
