"""C04: the result of a contraction does not depend on threads, printing, graph
canonicalization, the history of the WickTheorem object or of the registry."""
import os
import hypothesis.strategies as st
from fractions import Fraction

from vf.core import Discard, Violation, ensure, expr_dict, expr_terms, rat, setup_spaces
from vf.checks.c03 import same
from vf.wick import component, compare, guard, model_of, operators, paired_operators, space_defs, wick_cases

CAMPAIGNS = [
    dict(name="configurations", n=dict(quick=2000, thorough=40000)),
    dict(name="data races (ThreadSanitizer)", variant="tsan", n=dict(quick=2000, thorough=20000), floor=0.1),
    dict(name="large", n=dict(quick=600, thorough=8000), floor=0.1),
]
RULE = (
    "a case is a sequence of 2-4 contractions of products (up to 6 operators) or sums of products with random or kept "
    "settings (threads, print level, graph canonicalization, "
    "cumulant cutoff, rank window) on one long-lived WickTheorem object; every result is compared with a fresh, "
    "single-threaded, silent object; non-trivial: at least two steps produce >= 2 terms.  The second campaign runs "
    "multithreaded contractions under ThreadSanitizer; the third compares long-lived multithreaded and fresh "
    "single-threaded objects for products with up to 20 legs and thousands of contractions"
)
ASSUMPTIONS = [
    "results with and without graph canonicalization are compared as operators (random tensors modulo 1000003), all "
    "other options exactly",
    "the race search runs with diagnostic printing off (at the detailed levels the threads share the formatting state "
    "of std::cout)",
    "thread schedules are those the operating system produces; ThreadSanitizer adds happens-before analysis of them",
]
RACES = os.environ.get("VF_CAMPAIGN") == "1"
LARGE = os.environ.get("VF_CAMPAIGN") == "2"


@st.composite
def step(draw, nmax):
    types = [draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in range(draw(st.sampled_from([1, 2, 2, 3, 3, 4])))]
    ops = draw(paired_operators(types, nmax, (2, 6)))
    # a sum of products
    more = [draw(paired_operators(types, 6, (2, 3))) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))]
    total = sum(sum(o["cre"]) + sum(o["ann"]) for o in ops)
    every = [o for l in [ops] + more for o in l]
    dims = [max([1] + [max(o["cre"][s], o["ann"][s]) for o in every]) for s in range(len(types))]
    while sum(dims) < 6 and draw(st.booleans()):
        dims[draw(st.integers(0, len(types) - 1))] += 1
    return dict(
        types=types, ops=ops, more=more, dims=dims, seed=draw(st.integers(0, 99)),
        min=draw(st.sampled_from([0, 0, 0, 1, 2])), max=draw(st.sampled_from([total, total, 4, 2])),
        mt=draw(st.booleans()) or RACES, print=draw(st.sampled_from(["none", "none", "basic", "summary", "detailed", "all"])) if not RACES else "none",
        canon=draw(st.booleans()), maxcu=draw(st.sampled_from([100, 100, 1, 2])),
        # settings that are not touched keep their value
        keep=draw(st.lists(st.sampled_from(["mt", "print", "canon", "maxcu"]), max_size=4, unique=True)) if not RACES else [],
        factor=draw(st.sampled_from([[1, 1], [1, 1], [-2, 3], [5, 2]])),
    )


@st.composite
def large_step(draw, nmax):
    types = [draw(st.sampled_from(["occupied", "unoccupied", "occupied", "unoccupied", "general"])) for _ in range(draw(st.integers(2, 6)))]
    ops = draw(paired_operators(types, 10 if "general" in types else nmax, (2, 4), nmax // 2))
    total = sum(sum(o["cre"]) + sum(o["ann"]) for o in ops)
    lo = draw(st.sampled_from([0, 0, 2, total // 2]))
    return dict(
        types=types, ops=ops, min=lo, max=draw(st.sampled_from([lo, lo + 2, lo + 4, total])), canon=draw(st.integers(0, 3)) == 0,
        factor=draw(st.sampled_from([[1, 1], [-2, 3]])),
    )


def contractions_of(s):
    """How many pairs of one occupied or unoccupied space can be contracted at most."""
    n = 0
    for i, ty in enumerate(s["types"]):
        n += min(sum(o["cre"][i] for o in s["ops"]), sum(o["ann"][i] for o in s["ops"]))
    return n


def run_large(w, case):
    shared = w.WickTheorem()
    most, pairs = 0, 0
    for s in case["large"]:
        if not s["ops"]:
            raise Discard()
        legs = sum(sum(o["cre"]) + sum(o["ann"]) for o in s["ops"])
        k = contractions_of(s)
        if legs > (20 if "general" not in s["types"] else 10):
            raise Discard()
        canon = s["canon"] and k < 5 and len(s["ops"]) < 4
        spaces = space_defs(s["types"])
        setup_spaces(w, spaces)
        e = None
        for o in s["ops"]:
            x = w.op(o["label"], [component(spaces, o["cre"], o["ann"])])
            e = x if e is None else e @ x
        f = rat(w, Fraction(*s["factor"]))
        shared.do_canonicalize_graph(canon)
        r1 = shared.contract(f, e, s["min"], s["max"])
        d1 = expr_dict(w, r1)
        if not RACES:
            fresh = w.WickTheorem()
            fresh.set_single_threaded(True)
            fresh.do_canonicalize_graph(canon)
            same(d1, expr_dict(w, fresh.contract(f, e, s["min"], s["max"])), "multithreaded versus single-threaded")
        most = max(most, len(d1))
        pairs = max(pairs, k)
    return dict(
        nontrivial=most >= 2, classes=["large", "terms: %s" % (">=100" if most >= 100 else ">=10" if most >= 10 else "<10"), "pairs: %s" % (">4" if pairs > 4 else "<=4")],
        note="%d terms" % most,
    )


@st.composite
def cases(draw):
    if LARGE or RACES and draw(st.integers(0, 2)) == 0:
        return dict(large=[draw(large_step(draw(st.sampled_from([12, 16] if RACES else [12, 16, 20])))) for _ in range(1 if RACES else draw(st.integers(1, 3)))])
    if RACES:
        return dict(steps=[draw(step(8))])
    steps = draw(st.lists(step(draw(st.sampled_from([8, 8, 10]))), min_size=2, max_size=4))
    # the product of the step before, with other settings or over spaces of other types
    for n in range(1, len(steps)):
        if draw(st.integers(0, 2)) == 0:
            p = steps[n - 1]
            s = dict(steps[n], ops=p["ops"], more=p["more"], dims=p["dims"], types=p["types"])
            if draw(st.booleans()):
                s["types"] = [draw(st.sampled_from(["occupied", "unoccupied", "general"])) for _ in p["types"]]
            steps[n] = s
    return dict(steps=steps)


def strategy(tier):
    return cases()


class Quiet:
    """Silences file descriptor 1 (the library prints to std::cout)."""

    def __enter__(self):
        self.saved = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.close(null)

    def __exit__(self, *a):
        os.dup2(self.saved, 1)
        os.close(self.saved)


def run_case(w, case):
    if "large" in case:
        return run_large(w, case)
    nontrivial = 0
    classes = []
    shared = w.WickTheorem()
    cur = dict(mt=True, print="none", canon=True, maxcu=100)  # the settings of a new object
    legs = lambda ops: sum(sum(o["cre"]) + sum(o["ann"]) for o in ops)
    for s in case["steps"]:
        if not s["ops"] or any(not l for l in s.get("more", [])):
            raise Discard()
        for ops in [s["ops"]] + s.get("more", []):
            guard(dict(s, ops=ops), 12)
            if legs(ops) > 10:
                raise Discard()
    for n, s in enumerate(case["steps"]):
        spaces = space_defs(s["types"])
        setup_spaces(w, spaces)
        e = None
        for ops in [s["ops"]] + s.get("more", []):
            y = None
            for o in ops:
                x = w.op(o["label"], [component(spaces, o["cre"], o["ann"])])
                y = x if y is None else y @ x
            e = y if e is None else e + y
        keep = s.get("keep", [])
        for k, f in (
            ("mt", lambda v: shared.set_single_threaded(not v)), ("maxcu", shared.set_max_cumulant),
            ("canon", shared.do_canonicalize_graph), ("print", lambda v: shared.set_print(getattr(w.PrintLevel, v))),
        ):
            if k not in keep:
                f(s[k])
                cur[k] = s[k]
        factor = rat(w, Fraction(*s.get("factor", [1, 1])))
        before = str(e)
        with Quiet():
            r1 = shared.contract(factor, e, s["min"], s["max"])
        d1 = expr_dict(w, r1)
        if RACES:
            nontrivial += len(d1) >= 2
            continue
        fresh = w.WickTheorem()
        fresh.set_single_threaded(True)
        fresh.set_max_cumulant(cur["maxcu"])
        fresh.do_canonicalize_graph(cur["canon"])
        r2 = fresh.contract(factor, e, s["min"], s["max"])
        same(d1, expr_dict(w, r2), "step %d, settings %s versus a fresh single-threaded silent object" % (n, cur))
        ensure(r1 == r2, "step %d: equal expressions compare unequal", n)
        ensure(str(r1) == str(r2), "step %d: the printed results differ", n)
        ensure(str(e) == before, "step %d: the contraction changed its argument", n)
        fresh.do_canonicalize_graph(not cur["canon"])
        r3 = fresh.contract(factor, e, s["min"], s["max"])
        m = model_of(dict(s, maxcu=cur["maxcu"]))
        compare(m, m.expression(expr_terms(w, r3)), m.expression(expr_terms(w, r1)), s["min"], s["max"],
                "step %d: graph canonicalization %s versus %s" % (n, not cur["canon"], cur["canon"]))
        nontrivial += len(d1) >= 2
        classes += ["print=" + cur["print"], "mt" if cur["mt"] else "st", "canon" if cur["canon"] else "no canon"]
        if keep:
            classes.append("settings kept")
        if n and s["ops"] == case["steps"][n - 1]["ops"]:
            classes.append("same product again" if s["types"] == case["steps"][n - 1]["types"] else "same product, other spaces")
        if len(s["ops"]) > 4:
            classes.append("more than 4 operators")
        if s.get("more"):
            classes.append("sum of products")
        if len(d1) >= 10:
            classes.append(">=10 terms")
        if len(d1) >= 100:
            classes.append(">=100 terms")
    if RACES:
        return dict(nontrivial=nontrivial > 0, classes=["race run"], note="multithreaded under ThreadSanitizer")
    return dict(nontrivial=nontrivial >= 2, classes=classes, note="%d of %d steps with >= 2 terms" % (nontrivial, len(case["steps"])))
