"""One worker process: drives a check's Hypothesis strategy against the built module.

usage: worker.py explore ID CAMPAIGN WORKER NWORKERS SEED N TIER OUTDIR   (generated search)
       worker.py replay  ID CAMPAIGN FILE                                 (plain re-execution)
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback


class Abort(BaseException):
    pass


def load(cid):
    mod = importlib.import_module("vf.checks." + cid.lower())
    import wicked

    root = os.environ.get("VF_MODULE_DIR")
    if root and not wicked.__file__.startswith(root):
        sys.stderr.write("wrong wicked module: %s\n" % wicked.__file__)
        os._exit(90)
    return mod, wicked


def describe(e):
    from vf.core import Violation

    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
    return "unexpected %s: %s [%s]" % (type(e).__name__, str(e).strip()[:600], where)


def one(mod, w, case):
    from vf.core import Discard, REHEARSAL

    how = case.get("rehearsal", 0) if isinstance(case, dict) else 0
    if how:
        # the same calls with other spaces (1-4) or the same ones (5), whatever they give
        REHEARSAL["how"] = how
        try:
            mod.run_case(w, case)
        except Exception:
            pass
        finally:
            REHEARSAL["how"] = 0
    try:
        return mod.run_case(w, case) or {}
    except Discard:
        return {"discard": True}


def explore(cid, campaign, worker, nworkers, seed, n, tier, outdir):
    from hypothesis import HealthCheck, Phase, given, settings, Verbosity
    from hypothesis import seed as hseed

    mod, w = load(cid)
    journal = open(os.path.join(outdir, "journal%d.jsonl" % worker), "ab", buffering=0)
    t0 = time.time()
    max_s = float(os.environ.get("VF_MAX_S", "300"))
    shrink_s = float(os.environ.get("VF_SHRINK_S", "40"))
    stats = dict(
        evaluations=0, discarded=0, classes={}, samples=[], truncated=False,
        failure=None, first_failure=None, corpus=0,
    )
    seen = set()
    state = dict(fail_t=None, njournal=0)

    def body(case):
        now = time.time()
        if state["fail_t"] is None and now - t0 > max_s:
            stats["truncated"] = True
            raise Abort()
        if state["fail_t"] is not None and now - state["fail_t"] > shrink_s:
            raise Abort()
        text = json.dumps(case, sort_keys=True, separators=(",", ":"))
        journal.write(text.encode() + b"\n")
        state["njournal"] += 1
        try:
            info = one(mod, w, case)
        except Exception as e:
            msg = describe(e)
            if state["fail_t"] is None:
                state["fail_t"] = time.time()
                stats["first_failure"] = dict(case=case, message=msg, position=state["njournal"])
            f = stats["failure"]
            if f is None or len(text) <= f["size"]:
                stats["failure"] = dict(case=case, message=msg, size=len(text))
            raise
        if state["fail_t"] is None:
            if info.get("discard"):
                stats["discarded"] += 1
                return
            stats["evaluations"] += 1
            for c in info.get("classes", ()):
                stats["classes"][c] = stats["classes"].get(c, 0) + 1
            if info.get("nontrivial"):
                hsh = hashlib.sha1(text.encode()).hexdigest()[:16]
                if hsh not in seen:
                    seen.add(hsh)
                    k = len(seen)
                    if (k <= 2 or (k & (k - 1)) == 0 and k <= 4096) and len(text) < 3000:
                        stats["samples"].append(dict(case=case, note=str(info.get("note", ""))[:300]))

    def finish(err):
        stats["hashes"] = sorted(seen)
        stats["error"] = err
        stats["wall_s"] = time.time() - t0
        if hasattr(mod, "worker_extra"):
            stats["extra"] = mod.worker_extra()
        tmp = os.path.join(outdir, "result%d.tmp" % worker)
        with open(tmp, "w") as f:
            json.dump(stats, f)
        os.rename(tmp, os.path.join(outdir, "result%d.json" % worker))

    # saved inputs first
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", cid + ".jsonl")
    try:
        if os.path.exists(path):
            with open(path) as f:
                saved = [json.loads(x) for x in f if x.strip()]
            saved = [s["case"] for s in saved if s.get("campaign", 0) == campaign]
            for c in saved[worker::nworkers]:
                body(c)
                stats["corpus"] += 1
    except Abort:
        pass
    except Exception as e:
        finish(None if stats["failure"] else "".join(traceback.format_exc())[-3000:])
        return

    import hypothesis.strategies as st

    strategy = mod.strategy(tier)
    if getattr(mod, "REHEARSE", True):
        strategy = st.tuples(strategy, st.sampled_from([0] * 15 + [1, 2, 3, 4, 5])).map(
            lambda x: dict(x[0], rehearsal=x[1]) if x[1] and isinstance(x[0], dict) else x[0]
        )
    test = given(strategy)(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        verbosity=Verbosity.quiet,
        report_multiple_bugs=False,
        print_blob=False,
    )(test)
    test = hseed(seed)(test)
    err = None
    try:
        test()
    except Abort:
        pass
    except BaseException as e:  # noqa
        if stats["failure"] is None:
            err = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    finish(err)


def replay(cid, path):
    """exit 0: the last case passes; exit 10: it fails"""
    mod, w = load(cid)
    with open(path) as f:
        cases = json.load(f)["cases"]
    out = os.environ.get("VF_REPLAY_OUT")
    for i, c in enumerate(cases):
        try:
            one(mod, w, c)
        except Exception as e:
            if i < len(cases) - 1:
                continue
            msg = describe(e)
            if out:
                with open(out, "w") as f:
                    f.write(msg)
            os._exit(10)
    os._exit(0)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    a = sys.argv
    os.environ["VF_CAMPAIGN"] = a[3]
    if "LD_PRELOAD" not in os.environ:
        # runaway allocation becomes a MemoryError instead of exhausting the machine
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    if a[1] == "explore":
        explore(a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), int(a[7]), a[8], a[9])
        os._exit(0)
    else:
        replay(a[2], a[4])
