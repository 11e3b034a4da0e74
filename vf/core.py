"""Helpers shared by all checks (worker side): exact conversions between wicked objects
and plain Python data, and the exceptions a case may raise."""
from fractions import Fraction
import re


class Violation(Exception):
    """The property does not hold on this case."""


class Discard(Exception):
    """The generated case is outside the domain of the property."""


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


_RAT = re.compile(r"^rational\((-?\d+),(-?\d+)\)$")


def frac(r):
    """wicked rational -> Fraction, through repr (exact for any size)."""
    m = _RAT.match(repr(r))
    if not m:
        raise Violation("unreadable rational repr %r" % repr(r))
    n, d = int(m.group(1)), int(m.group(2))
    if d <= 0:
        raise Violation("rational with denominator %d" % d)
    f = Fraction(n, d)
    if (f.numerator, f.denominator) != (n, d) and not (n == 0):
        raise Violation("rational %s is not in lowest terms" % repr(r))
    return f


def rat(w, f):
    """Fraction -> wicked rational, exact for any size the library supports."""
    f = Fraction(f)
    lim = 2**31 - 1
    if abs(f.numerator) <= lim and f.denominator <= lim:
        return w.rational(f.numerator, f.denominator)

    def big(n):
        s, n = (-1 if n < 0 else 1), abs(n)
        out = w.rational(0)
        base = w.rational(1 << 20)
        chunks = []
        while n:
            chunks.append(n & ((1 << 20) - 1))
            n >>= 20
        for c in reversed(chunks):
            out = out * base + w.rational(c)
        return out * w.rational(s)

    return big(f.numerator) / big(f.denominator)


# a rehearsal runs a case first with other spaces of the same labels (see worker.one):
# what it leaves behind must not matter
REHEARSAL = {"how": 0}
OTHER_TYPE = {"occupied": "unoccupied", "unoccupied": "occupied", "general": "unoccupied"}
OTHER_FIELD = {"fermion": "boson", "boson": "fermion"}


def setup_spaces(w, spaces):
    """spaces: list of dicts label/field/type/indices."""
    how = REHEARSAL["how"]
    w.reset_space()
    for s in spaces:
        field, ty, names = s.get("field", "fermion"), s["type"], list(s.get("indices", []))
        if how in (1, 4):
            field = OTHER_FIELD[field]
        if how in (1, 2):
            ty = OTHER_TYPE[ty]
        if how in (1, 3):
            names = names[::-1]
        w.add_space(s["label"], field, ty, names)


_CRE = None


def is_cre(w, op):
    return op.type() == w.type.cre


def idx(i):
    return (i.space(), i.pos())


def tensor_key(w, t):
    return (t.label(), tuple(idx(i) for i in t.upper()), tuple(idx(i) for i in t.lower()))


_FLAG = re.compile(r"(^| )\{ ")


def term_key(w, s):
    """SymbolicTerm -> (tensors, ops, flag); tensors as (label, upper, lower),
    ops as (is_creation, (space, pos)); flag = printed inside braces."""
    ops = tuple((is_cre(w, o), idx(o.index())) for o in s.ops())
    flag = bool(ops) and str(s).endswith("}") and bool(_FLAG.search(str(s)))
    return (tuple(tensor_key(w, t) for t in s.tensors()), ops, flag)


def expr_terms(w, e):
    """Expression -> list of (key, Fraction)"""
    return [(term_key(w, s), frac(c)) for s, c in e]


def expr_dict(w, e):
    d = {}
    for k, c in expr_terms(w, e):
        if k in d:
            raise Violation("the same term appears twice in an expression: %r" % (k,))
        d[k] = c
    return d


def idx_str(labels, i):
    return "%s%d" % (labels[i[0]], i[1])


def op_str(labels, fields, o):
    sym = "b" if fields[o[1][0]] == "boson" else "a"
    return "%s%s(%s)" % (sym, "+" if o[0] else "-", idx_str(labels, o[1]))


def tensor_str(labels, t):
    return "%s^{%s}_{%s}" % (
        t[0],
        ",".join(idx_str(labels, i) for i in t[1]),
        ",".join(idx_str(labels, i) for i in t[2]),
    )


def clip(s, n=400):
    s = str(s)
    return s if len(s) <= n else s[:n] + "..."
