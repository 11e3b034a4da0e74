"""Operator expressions (sums of products of labelled operators) as plain data, read from their printed form."""
import re
from fractions import Fraction
from math import factorial

from vf.core import Violation

_NUM = re.compile(r"^[+-]?(\d+(/\d+)?)?$")


def number(tok):
    if not _NUM.match(tok):
        raise Violation("unreadable coefficient %r" % tok)
    sgn = -1 if tok.startswith("-") else 1
    t = tok.lstrip("+-")
    return sgn * (Fraction(t) if t else Fraction(1))


def parse(text, labels):
    """-> {((label, cre, ann), ...): Fraction}; labels: list of space labels in order"""
    out = {}
    ns = len(labels)
    pos = {l: i for i, l in enumerate(labels)}
    for line in text.split("\n"):
        if not line.strip():
            continue
        toks = line.split()
        coeff = number(toks[0])
        i = 1
        prod = []
        while i < len(toks):
            shown = Fraction(1)
            if re.match(r"^[+-]?\d+(/\d+)?$", toks[i]):
                shown = number(toks[i])
                i += 1
            label = toks[i]
            if toks[i + 1] != "{":
                raise Violation("unreadable operator in %r" % line)
            j = toks.index("}", i)
            cre, ann = [0] * ns, [0] * ns
            seq = toks[i + 2 : j]
            for t in seq:
                if t[0] not in pos or t[1:] not in ("", "+"):
                    raise Violation("unreadable operator in %r" % line)
                (cre if t.endswith("+") else ann)[pos[t[0]]] += 1
            want = []
            for s in range(ns):
                want += [labels[s] + "+"] * cre[s]
            for s in reversed(range(ns)):
                want += [labels[s]] * ann[s]
            if seq != want:
                raise Violation("operators of %r are not in standard order" % line)
            f = Fraction(1)
            for n in cre + ann:
                f /= factorial(n)
            if f != shown:
                raise Violation("operator printed with factor %s instead of %s in %r" % (shown, f, line))
            prod.append((label, tuple(cre), tuple(ann)))
            i = j + 1
        key = tuple(prod)
        if key in out:
            raise Violation("the same product appears twice: %r" % line)
        if coeff == 0:
            raise Violation("a product with coefficient zero: %r" % line)
        out[key] = coeff
    return out


def add(a, b, f=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + f * v
        if out[k] == 0:
            del out[k]
    return out


def scale(a, f):
    return {k: v * f for k, v in a.items()} if f else {}


def mul(a, b):
    out = {}
    for k, v in a.items():
        for l, u in b.items():
            out[k + l] = out.get(k + l, 0) + v * u
    return {k: v for k, v in out.items() if v}


def comm(a, b):
    return add(mul(a, b), mul(b, a), -1)


def adj(a):
    out = {}
    for k, v in a.items():
        q = tuple((l, an, cr) for l, cr, an in reversed(k))
        out[q] = out.get(q, 0) + v
    return {k: v for k, v in out.items() if v}


def bch(a, b, n):
    out, t = dict(a), dict(a)
    for k in range(1, n + 1):
        t = scale(comm(t, b), Fraction(1, k))
        out = add(out, t)
    return out
