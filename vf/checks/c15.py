"""C15: exact rational arithmetic (stateful, against Python's fractions)."""
import hypothesis.strategies as st
from fractions import Fraction

from vf.core import Violation, clip, ensure, frac, rat

CAMPAIGNS = [dict(name="programs", n=dict(quick=12000, thorough=200000))]
RULE = (
    "a case is a program of 3-14 operations (construction from one or two integers or from text, +, -, *, /) over 4 "
    "registers of rationals of up to about 400 bits; after every step all registers, comparisons and printed forms agree "
    "with exact fractions; non-trivial: a non-integer result that needed reduction"
)
ASSUMPTIONS = ["operands are below 400 bits, so that no intermediate exceeds the 1024-bit integers of the library"]


@st.composite
def cases(draw):
    R = st.integers(0, 3)
    small = st.integers(-12, 12)
    i32 = st.one_of(small, small, st.sampled_from([2**31 - 1, -(2**31), -(2**31) + 1, 65536, 46341]), st.integers(-(2**31), 2**31 - 1))
    big = st.integers(0, 2**330)
    prog = []
    for r in range(draw(st.integers(2, 4))):
        k = draw(st.sampled_from(["frac", "frac", "int", "text", "text"]))
        if k == "int":
            prog.append(["int", r, draw(i32)])
        elif k == "frac":
            prog.append(["frac", r, draw(i32), draw(i32)])
        else:
            n, d = draw(st.one_of(st.integers(0, 50), big)), draw(st.one_of(st.integers(1, 50), big.filter(bool)))
            prog.append(["text", r, draw(st.sampled_from(["", "-", "+"])), str(n), str(d) if draw(st.booleans()) else None])
    for _ in range(draw(st.integers(1, 10))):
        prog.append([draw(st.sampled_from(["add", "sub", "mul", "div", "div"])), draw(R), draw(R), draw(R)])
    return dict(prog=prog)


def strategy(tier):
    return cases()


def rejected(f, what):
    try:
        f()
    except (RuntimeError, ZeroDivisionError):
        return
    raise Violation("%s is accepted" % what)


def run_case(w, case):
    reg = [w.rational() for _ in range(4)]
    mod = [Fraction(0)] * 4
    reduced = False
    classes = set()
    for n, ins in enumerate(case["prog"]):
        k, d = ins[0], ins[1]
        if k == "int":
            reg[d], mod[d] = w.rational(ins[2]), Fraction(ins[2])
        elif k == "frac":
            if ins[3] == 0:
                rejected(lambda: w.rational(ins[2], 0), "the fraction %d/0" % ins[2])
                classes.add("zero denominator")
                continue
            reg[d], mod[d] = w.rational(ins[2], ins[3]), Fraction(ins[2], ins[3])
        elif k == "text":
            t = ins[2] + ins[3] + ("/" + ins[4] if ins[4] is not None else "")
            f = Fraction(int(ins[3]), int(ins[4] or 1))
            reg[d], mod[d] = w.make_rational(t), -f if ins[2] == "-" else f
            classes.add("text")
        else:
            a, b, x, y = reg[ins[2]], reg[ins[3]], mod[ins[2]], mod[ins[3]]
            if max(v.bit_length() for f in (x, y) for v in (f.numerator, f.denominator)) > 400:
                continue
            if k == "div" and y == 0:
                rejected(lambda: a / b, "division by zero")
                classes.add("division by zero")
                continue
            if k == "add":
                new, f = a + b, x + y
                raw = y.denominator * x.denominator
            elif k == "sub":
                new, f = a - b, x - y
                raw = y.denominator * x.denominator
            elif k == "mul":
                new, f = a * b, x * y
                raw = y.denominator * x.denominator
            else:
                new, f = a / b, x / y
                raw = abs(x.denominator * y.numerator)
            classes.add(k)
            if f.denominator > 1 and raw != f.denominator:
                reduced = True
            reg[d], mod[d] = new, f
        for r in range(4):
            f = mod[r]
            ensure(frac(reg[r]) == f, "after step %d (%s) register %d is %s, expected %s", n, clip(ins), r, reg[r], f)
            for q in range(r + 1):
                ensure((reg[r] == reg[q]) == (f == mod[q]), "after step %d: %s == %s is %s", n, reg[r], reg[q], reg[r] == reg[q])
        f, x = mod[d], reg[d]
        if abs(f.numerator) < 2**63 and f.denominator < 2**63:
            ensure((x.numerator(), x.denominator()) == (f.numerator, f.denominator), "numerator/denominator of %s are %d, %d", x, x.numerator(), x.denominator())
        else:
            classes.add("beyond 64 bits")
        v = f.numerator / f.denominator
        ensure(abs(float(x) - v) <= 1e-14 * abs(v), "float(%s) is %r, expected %r", x, float(x), v)
        want = "0" if f == 0 else ("-" if f < 0 else "") + ("" if abs(f) == 1 else str(abs(f)))
        ensure(x.str(False) == want, "%s is printed as %r, expected %r", x, x.str(False), want)
        ensure(x.str(True) == ("+" if f > 0 else "") + want, "%s is printed with sign as %r", x, x.str(True))
        ensure(abs(float(x.compile("ambit")) - v) <= 1e-14 * abs(v), "%s is compiled to %s", x, x.compile("ambit"))
        rejected(lambda: w.make_rational(str(f.numerator) + "/0"), "text with denominator zero")
    return dict(nontrivial=reduced, classes=sorted(classes), note=clip(mod, 150))
