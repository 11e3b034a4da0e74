"""Strategies for symbolic terms as plain data, and their construction in the library.

term = dict(t=[[label, upper, lower], ...], o=[[cre, [space, pos]], ...], f=[num, den], flag=bool)
"""
import hypothesis.strategies as st
from fractions import Fraction

from vf.core import rat

TYPES = ["occupied", "unoccupied", "general"]
LETTERS = "oavbcdghpqrsOAVX"  # the first eight are enough where operators with legs are made
# how many spaces, for expressions (which are not limited to 8)
MANY = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]


def spaces_of(fields, types):
    return [
        dict(label=LETTERS[i], field=f, type=t, indices=["%s%s" % (LETTERS[i], x) for x in "ijkl"])
        for i, (f, t) in enumerate(zip(fields, types))
    ]


def idx_text(i):
    return "%s%d" % (LETTERS[i[0]], i[1])


def tensor_text(t):
    return "%s^{%s}_{%s}" % (t[0], ",".join(map(idx_text, t[1])), ",".join(map(idx_text, t[2])))


def op_text(o, fields):
    return "%s%s(%s)" % ("b" if fields[o[1][0]] == "boson" else "a", "+" if o[0] else "-", idx_text(o[1]))


def term_text(t, fields, coefficient=None):
    body = [tensor_text(x) for x in t["t"]]
    ops = [op_text(o, fields) for o in t["o"]]
    if ops and t["flag"]:
        ops = ["{"] + ops + ["}"]
    c = Fraction(*t["f"]) if coefficient is None else coefficient
    s = " ".join(body + ops)
    if not s:
        return str(c)
    if c == 1:
        return s
    if c == -1:
        return "-" + s
    return "%s %s" % (c, s)


def key(t):
    return (
        tuple((x[0], tuple(map(tuple, x[1])), tuple(map(tuple, x[2]))) for x in t["t"]),
        tuple((bool(o[0]), tuple(o[1])) for o in t["o"]),
        bool(t["flag"]) and bool(t["o"]),
    )


def sqop(w, o):
    return w.SQOperator(w.type.cre if o[0] else w.type.ann, w.Index(o[1][0], o[1][1]))


def tensor(w, x, sym):
    return w.Tensor(x[0], [w.Index(*i) for i in x[2]], [w.Index(*i) for i in x[1]], sym)


def symterm(w, t, sym):
    s = w.SymbolicTerm()
    for x in t["t"]:
        s.add(tensor(w, x, sym))
    s.add([sqop(w, o) for o in t["o"]])
    s.set_normal_ordered(bool(t["flag"] and t["o"]))
    return s


def term(w, t, sym):
    s = w.Term()
    for x in t["t"]:
        s.add(tensor(w, x, sym))
    for o in t["o"]:
        s.add(sqop(w, o))
    s.set_normal_ordered(bool(t["flag"] and t["o"]))
    s.set(rat(w, Fraction(*t["f"])))
    return s


def single(w, t, sym, how):
    """An Expression with the one term t, built in one of several ways."""
    f = Fraction(*t["f"])
    if how == 0 and f != 0:
        fields = t["_fields"]
        return w.expression(term_text(t, fields), sym)
    e = w.Expression()
    if how == 1:
        e += term(w, t, sym)
    elif how == 2:
        e += (symterm(w, t, sym), rat(w, f))
    else:
        e += symterm(w, t, sym)
        e = e * rat(w, f)
    return e


FACTORS = [[1, 1], [1, 1], [-1, 1], [1, 2], [-1, 2], [2, 1], [-3, 4], [5, 3], [7, 1], [-12, 1]]


POS = [0, 1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 25, 26, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 255, 256, 999, 1000, 65535, 65536, 2**31 - 2, 2**31 - 1]


@st.composite
def wide_term(draw, ns, labels, maxt=6, rank=8, maxo=14, pos=None, ops="any", factors=None):
    """A term with many tensors, indices and operators; positions around powers of two and ten."""
    pos = pos if pos is not None else draw(st.lists(st.sampled_from(POS), min_size=1, max_size=6))
    ix = st.tuples(st.integers(0, ns - 1), st.sampled_from(pos)).map(list)
    ts = [
        [draw(labels), draw(st.lists(ix, max_size=draw(st.sampled_from([0, 1, 2, rank])))), draw(st.lists(ix, max_size=draw(st.sampled_from([0, 1, 2, rank]))))]
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, maxt])))
    ]
    os_ = draw(st.lists(st.tuples(st.booleans(), ix).map(list), max_size=draw(st.sampled_from([0, 1, 3, maxo]))))
    return dict(t=ts, o=os_, flag=draw(st.booleans()), f=draw(factors if factors is not None else st.sampled_from(FACTORS)))


# by how much the position changes when the space does, in "near" terms
PACKED = [1, 10, 16, 32, 64, 100, 256, 1000, 1024, 65536, 2**24]


@st.composite
def near(draw, t, ns, labels):
    """t with one small change (or none)."""
    t = dict(t=[[x[0], [list(i) for i in x[1]], [list(i) for i in x[2]]] for x in t["t"]], o=[[o[0], list(o[1])] for o in t["o"]], flag=t["flag"], f=t["f"])
    k = draw(st.sampled_from(["index", "index", "index", "opindex", "exchange", "move", "label", "swap", "drop", "twice", "flag", "cre", "opindex", "opswap", "opdrop", "none"]))
    at = lambda l: draw(st.integers(0, len(l) - 1))

    def shift(i):
        how = draw(st.integers(0, 4)) if ns > 1 else 4
        if how < 2:
            i[0] = (i[0] + 1) % ns
        elif how == 2:
            # the same number, if a space and a position were packed into one
            d, s = draw(st.sampled_from(PACKED)), draw(st.integers(0, ns - 1))
            p = i[1] + d * (i[0] - s)
            if not 0 <= p < 2**31:
                s = draw(st.integers(0, i[0]))
                p = i[1] + d * (i[0] - s)
            i[0] = s
            i[1] = p if 0 <= p < 2**31 else i[1]
        else:
            i[1] = i[1] + 1 if i[1] < 2**31 - 1 else 0

    ts, o = t["t"], t["o"]
    if k in ("index", "exchange", "move", "label", "swap", "drop", "twice") and ts:
        n = at(ts)
        x = ts[n]
        if k == "label":
            x[0] = draw(labels)
        elif k == "drop":
            del ts[n]
        elif k == "twice":
            ts.insert(n, [x[0], [list(i) for i in x[1]], [list(i) for i in x[2]]])
        elif k == "swap":
            m = at(ts)
            ts[n], ts[m] = ts[m], ts[n]
        elif k == "move":
            if x[1]:
                x[2].insert(0, x[1].pop())
            elif x[2]:
                x[1].append(x[2].pop(0))
        else:
            l = x[1] if x[1] and (not x[2] or draw(st.booleans())) else x[2]
            if l:
                p = at(l)
                if k == "index":
                    shift(l[p])
                else:
                    q = at(l)
                    l[p], l[q] = l[q], l[p]
    elif k == "flag":
        t["flag"] = not t["flag"]
    elif o:
        n = at(o)
        if k == "cre":
            o[n][0] = not o[n][0]
        elif k == "opindex":
            shift(o[n][1])
        elif k == "opswap":
            m = at(o)
            o[n], o[m] = o[m], o[n]
        elif k == "opdrop":
            del o[n]
    return t


@st.composite
def families(draw, ns, labels, size=6, **k):
    """Terms that differ in one place from one another."""
    out = [draw(wide_term(ns, labels, **k))]
    for _ in range(draw(st.integers(1, size))):
        out.append(draw(near(draw(st.sampled_from(out)), ns, labels)))
    return out


LONG_LABELS = ["t", "T", "t2", "T2", "T_2", "x_1", "gamma1", "gamma2", "lambda2", "lambda10", "V", "v", "A23456789012345", "A234567890123456", "A2345678901234567", "B" * 40 + "1", "b" * 40 + "2"]
