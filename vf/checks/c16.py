"""C16: the registry of orbital spaces (stateful, with rejected calls)."""
import hypothesis.strategies as st

from vf.core import Violation, clip, ensure

CAMPAIGNS = [dict(name="registry", n=dict(quick=8000, thorough=160000))]
RULE = (
    "a case is a history of 2-30 calls (add_space with valid or invalid arguments, reset_space) on the registry; after every "
    "call all its queries, the index reader, the printed names and the operator symbols agree with a model in which a "
    "rejected call changes nothing; non-trivial: a rejected call followed by an accepted one"
)
ASSUMPTIONS = ["one Python thread"]

LABELS = "oavOAVghpG1_"
NAMES = ["i", "j", "k", "l", "a", "b", "c", "u", "v", "i1", "o_{0}", "\\mu", "", "I", "A"]


@st.composite
def word(draw, valid, other):
    """Mostly a valid word; sometimes part of one, two of them, or one with another case or blanks."""
    x = draw(st.sampled_from(valid))
    k = draw(st.integers(0, 19))
    if k < 14:
        return x
    if k == 14:
        return draw(st.sampled_from(other))
    n = draw(st.integers(0, len(x)))
    if k == 15:
        return x[:n]
    if k == 16:
        return x[n:]
    if k == 17:
        return x + draw(st.sampled_from(["s", " ", "\n", "0", draw(st.sampled_from(valid))]))
    if k == 18:
        return " " + x
    return x[:n].upper() + x[n:]


@st.composite
def cases(draw):
    steps = []
    names = st.lists(st.sampled_from(NAMES[: draw(st.sampled_from([5, 9, 15]))]), max_size=4)
    if draw(st.integers(0, 3)) == 0:
        # a long history of mostly valid calls
        labels = draw(st.permutations("oavghpOAVGHPzqrsTUW"))
        n = 0
        for l in labels[: draw(st.integers(3, 19))]:
            k = draw(st.sampled_from([0, 0, 1, 2, 5, 12, 30]))
            steps.append(["add", l, draw(st.sampled_from(["fermion", "boson"])), draw(st.sampled_from(["occupied", "unoccupied", "general"])), ["%s%d" % (l if draw(st.integers(0, 9)) else "x", n + x) for x in range(k)], draw(st.sampled_from([None, None, "self", ""])), False])
            n += k
            if draw(st.integers(0, 6)) == 0:
                steps.append(draw(st.sampled_from(steps)))
        return dict(steps=steps)
    for _ in range(draw(st.integers(2, 14))):
        if draw(st.integers(0, 9)) == 0:
            steps.append(["reset"])
            continue
        steps.append(
            [
                "add", draw(st.sampled_from(LABELS)),
                draw(word(["fermion", "fermion", "boson"], ["", "Fermion", "fermions"])),
                draw(word(["occupied", "unoccupied", "general"], ["virtual", "", "GENERAL"])),
                draw(names), draw(st.sampled_from([None, None, None, "", "self", "o", "ov", "z"])), draw(st.booleans()),
            ]
        )
    return dict(steps=steps)


def strategy(tier):
    return cases()


def observe(w, model, step):
    osi = w.osi()
    n = len(model)
    ensure(w.num_spaces() == n == osi.num_spaces(), "after %s: %d spaces, expected %d", clip(step), w.num_spaces(), n)
    for i, s in enumerate(model):
        ensure(osi.label(i) == s["label"], "after %s: label of space %d is %r, expected %r", clip(step), i, osi.label(i), s["label"])
        ensure(osi.indices(i) == s["names"], "after %s: indices of space %d are %s, expected %s", clip(step), i, osi.indices(i), s["names"])
        for k in range(len(s["names"]) + 2):
            want = s["names"][k] if k < len(s["names"]) else "%s_{%d}" % (s["label"], k)
            x = w.Index(i, k)
            ensure(x.latex() == want, "after %s: index %d of space %d is shown as %r, expected %r", clip(step), k, i, x.latex(), want)
            ensure(str(x) == "%s%d" % (s["label"], k), "after %s: index %d of space %d is printed as %r", clip(step), k, i, str(x))
        o = w.SQOperator(w.type.cre, w.Index(i, 0))
        ensure(str(o) == "%s+(%s0)" % ("a" if s["field"] == "fermion" else "b", s["label"]), "after %s: operator of space %d is %s", clip(step), i, o)
        ensure((o.field_type() == w.stat.fermion) == (s["field"] == "fermion"), "after %s: field type of space %d", clip(step), i)
        # the space type, through the order of quasiparticle creators and annihilators
        c = o.normal_ordered_less(w.SQOperator(w.type.ann, w.Index(i, 0)))
        ensure(c == (s["type"] != "occupied"), "after %s: space %d does not behave as %s", clip(step), i, s["type"])
    for bad in (n, n + 1, -1):
        for f in (osi.label, osi.indices):
            try:
                f(bad)
            except (IndexError, RuntimeError):
                continue
            raise Violation("after %s: space number %d is accepted" % (clip(step), bad))
    ensure(osi.to_dict() == {s["label"]: s["names"] for s in model}, "after %s: to_dict is %s", clip(step), osi.to_dict())
    want = "\n\n".join(
        "space label: %s\nfield type: %s\nspace type: %s\nindices: [%s]" % (s["label"], s["field"], s["type"], ",".join(s["names"])) for s in model
    )
    ensure(str(osi) == want, "after %s: printed as %r, expected %r", clip(step), str(osi), want)
    pos = {s["label"]: i for i, s in enumerate(model)}
    for l in "oavghpzOAVGHPZqrsTUWt":
        try:
            x = w.index(l + "3")
        except RuntimeError:
            ensure(l not in pos, "after %s: index %s3 is not found", clip(step), l)
        else:
            ensure(pos.get(l) == x.space(), "after %s: index %s3 is in space %d, expected %s", clip(step), l, x.space(), pos.get(l))


def run_case(w, case):
    w.reset_space()
    model = []
    rejected, recovered = False, False
    classes = set()
    for step in case["steps"]:
        if step[0] == "reset":
            w.reset_space()
            model = []
            classes.add("reset")
        else:
            _, label, field, typ, names, elem, kw = step
            elements = None if elem is None else [label] if elem == "self" else list(elem)
            why = None
            taken = [x for s in model for x in s["names"]]
            if field not in ("fermion", "boson"):
                why = "field type"
            elif typ not in ("occupied", "unoccupied", "general"):
                why = "space type"
            elif label in [s["label"] for s in model]:
                why = "label"
            elif len(set(names)) < len(names) or set(names) & set(taken):
                why = "index name"
            elif elements and any(e != label and e not in [s["label"] for s in model] for e in elements):
                why = "elementary space"
            args = [label, field, typ, names]
            try:
                if elements is None:
                    w.add_space(*args)
                elif kw:
                    w.add_space(*args, elementary_spaces=elements)
                else:
                    w.add_space(*args, elements)
            except RuntimeError as e:
                ensure(why is not None, "%s is rejected: %s", clip(step), str(e).strip())
                rejected = True
                classes.add("rejected: " + why)
            else:
                ensure(why is None, "%s is accepted although the %s is not valid", clip(step), why)
                model.append(dict(label=label, field=field, type=typ, names=names))
                recovered = recovered or rejected
                classes.add("accepted")
        observe(w, model, step)
    w.reset_space()
    return dict(nontrivial=recovered, classes=sorted(classes), note="%d spaces at the end" % len(model))
