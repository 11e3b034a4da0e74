"""Runs one check:  python3-vt check.py ID [quick|thorough]
                    python3-vt check.py ID --replay FILE

exit 0: no violation in what was explored; 1: violation (a VIOLATION line is printed);
anything else: the check could not give an answer (build failure, too little explored).
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import build as vbuild  # noqa

NW = 8
HANG_S = float(os.environ.get("VF_HANG_S", "90"))
PY = sys.executable


def log(*a):
    print(*a, flush=True)


def gcc_file(name):
    r = subprocess.run(["g++", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True)
    return r.stdout.strip()


def worker_env(variant, moddir, max_s):
    env = dict(os.environ)
    env["PYTHONPATH"] = moddir + os.pathsep + HERE
    env["VF_MODULE_DIR"] = moddir
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["VF_MAX_S"] = str(max_s)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    if variant == "asan":
        env["LD_PRELOAD"] = " ".join(gcc_file(x) for x in ("libasan.so", "libubsan.so", "libstdc++.so.6"))
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:handle_abort=1:hard_rss_limit_mb=3500"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    elif variant == "tsan":
        env["LD_PRELOAD"] = " ".join(gcc_file(x) for x in ("libtsan.so", "libstdc++.so.6"))
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1"
    return env


def last_lines(path, n=1):
    try:
        with open(path, "rb") as f:
            data = f.read().split(b"\n")
    except OSError:
        return []
    data = data[:-1] if data and data[-1] == b"" else data[:-1]  # a torn last line was never run
    return [json.loads(x) for x in data[-n:]] if n else [json.loads(x) for x in data]


def tail(path, n=3500):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf8", "replace")[:n]
    except OSError:
        return ""


def sanitizer_summary(text):
    keep = [
        x.strip()
        for x in text.splitlines()
        if "ERROR:" in x or "WARNING: ThreadSanitizer" in x or "runtime error" in x or "SUMMARY" in x
        or "terminate called" in x or "what():" in x or "Assertion" in x
    ]
    return " | ".join(keep)[:600]


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(timeout=10)
    except Exception:
        pass


def run_replay(cid, ci, camp, env, cases, scratch, timeout=None):
    """-> (failed, message, kind)"""
    fd, path = tempfile.mkstemp(dir=scratch, suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump({"cases": cases}, f)
    out = path + ".out"
    errp = path + ".err"
    e = dict(env)
    e["VF_REPLAY_OUT"] = out
    with open(errp, "wb") as ef:
        p = subprocess.Popen(
            [PY, os.path.join(HERE, "vf", "worker.py"), "replay", cid, str(ci), path],
            env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True,
        )
        try:
            rc = p.wait(timeout=timeout or HANG_S)
        except subprocess.TimeoutExpired:
            kill(p)
            return True, "no answer within %d s" % (timeout or HANG_S), "hang"
        except KeyboardInterrupt:
            kill(p)
            raise
    if rc == 0:
        return False, "", "ok"
    if rc == 10:
        return True, tail(out), "oracle"
    if rc == -9:
        return False, "killed", "killed"
    if rc == 90:
        return False, "wrong module", "error"
    text = tail(errp, 20000)
    if rc == 1 and "Traceback" in text and "Sanitizer" not in text and "terminate" not in text:
        return False, text[-800:], "error"
    return True, "process died (status %d) %s" % (rc, sanitizer_summary(text)), "crash"


class Campaign:
    def __init__(self, cid, mod, ci, camp, tier, seed, scratch):
        self.cid, self.mod, self.ci, self.camp, self.tier, self.seed = cid, mod, ci, camp, tier, seed
        self.dir = os.path.join(scratch, "c%d" % ci)
        os.makedirs(self.dir)
        self.scratch = scratch
        self.variant = camp.get("variant", "std")
        moddir = vbuild.build(self.variant)
        self.max_s = camp.get("max_s", {}).get(tier, 150 if tier == "quick" else 600)
        self.env = worker_env(self.variant, moddir, self.max_s)
        self.n = int(camp["n"][tier] * float(os.environ.get("VF_SCALE", "1")))
        self.nw = NW
        self.results = []
        self.suspects = []  # (case, message, kind, worker)
        self.errors = []

    def run(self):
        procs = {}
        per = max(1, self.n // self.nw)
        for k in range(self.nw):
            s = int.from_bytes(
                hashlib.sha256(("%s/%d/%d/%d" % (self.cid, self.ci, self.seed, k)).encode()).digest()[:6], "big"
            )
            ef = open(os.path.join(self.dir, "err%d.txt" % k), "wb")
            p = subprocess.Popen(
                [PY, os.path.join(HERE, "vf", "worker.py"), "explore", self.cid, str(self.ci), str(k),
                 str(self.nw), str(s), str(per), self.tier, self.dir],
                env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef,
                start_new_session=True,
            )
            ef.close()
            procs[k] = [p, time.time(), -1]
        stop = False
        try:
            while procs:
                time.sleep(0.1)
                for k in list(procs):
                    p, t, size = procs[k]
                    rc = p.poll()
                    if rc is None:
                        try:
                            sz = os.path.getsize(os.path.join(self.dir, "journal%d.jsonl" % k))
                        except OSError:
                            sz = -1
                        if sz != size:
                            procs[k][1], procs[k][2] = time.time(), sz
                        elif time.time() - t > HANG_S:
                            kill(p)
                            del procs[k]
                            c = last_lines(os.path.join(self.dir, "journal%d.jsonl" % k))
                            if c:
                                self.suspects.append((c[-1], "no answer within %d s" % HANG_S, "hang", k))
                            else:
                                self.errors.append("worker %d made no progress" % k)
                        continue
                    del procs[k]
                    rp = os.path.join(self.dir, "result%d.json" % k)
                    if os.path.exists(rp):
                        with open(rp) as f:
                            r = json.load(f)
                        r["worker"] = k
                        self.results.append(r)
                        if r["failure"]:
                            self.suspects.append((r["failure"]["case"], r["failure"]["message"], "oracle", k))
                            stop = True
                        elif r["error"]:
                            self.errors.append(r["error"])
                    elif rc == -9:
                        self.errors.append("worker %d was killed" % k)
                    else:
                        err = tail(os.path.join(self.dir, "err%d.txt" % k), 20000)
                        c = last_lines(os.path.join(self.dir, "journal%d.jsonl" % k))
                        if c and rc != 90:
                            self.suspects.append(
                                (c[-1], "process died (status %d) %s" % (rc, sanitizer_summary(err)), "crash", k)
                            )
                            stop = True
                        else:
                            self.errors.append("worker %d exited with %d before any case: %s" % (k, rc, err[-1500:]))
                if stop:
                    # a failure is known: a short grace period for the other workers, then confirm
                    break
        finally:
            for p, _, _ in procs.values():
                kill(p)
            for k in procs:
                rp = os.path.join(self.dir, "result%d.json" % k)
                if os.path.exists(rp):
                    with open(rp) as f:
                        r = json.load(f)
                    r["worker"] = k
                    self.results.append(r)
                    if r["failure"]:
                        self.suspects.append((r["failure"]["case"], r["failure"]["message"], "oracle", k))

    def replay(self, cases, timeout=None):
        return run_replay(self.cid, self.ci, self.camp, self.env, cases, self.scratch, timeout)

    def shrink_history(self, cases, kind, budget=60):
        t0 = time.time()
        cur = list(cases)
        chunk = max(1, (len(cur) - 1) // 2)
        while chunk >= 1 and time.time() - t0 < budget:
            i, changed = 0, False
            while i < len(cur) - 1 and time.time() - t0 < budget:
                cand = cur[:i] + cur[min(i + chunk, len(cur) - 1):]
                f, _, kd = self.replay(cand)
                if f and kd == kind:
                    cur, changed = cand, True
                else:
                    i += chunk
            if not changed or chunk > 1:
                chunk //= 2
        return cur

    def shrink_crash(self, case):
        """Generic structural shrinking for cases that kill the process (Hypothesis
        cannot shrink those): drop list elements while it still dies."""
        t0 = time.time()

        def paths(x, p=()):
            if isinstance(x, list):
                for i in range(len(x)):
                    yield p + (i,)
            it = x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
            for k, v in it:
                yield from paths(v, p + (k,))

        def without(x, p):
            y = json.loads(json.dumps(x))
            z = y
            for k in p[:-1]:
                z = z[k]
            del z[p[-1]]
            return y

        changed = True
        while changed and time.time() - t0 < 40:
            changed = False
            for p in list(paths(case)):
                if time.time() - t0 > 40:
                    break
                try:
                    cand = without(case, p)
                except (KeyError, IndexError, TypeError):
                    continue
                f, _, kd = self.replay([cand])
                if f and kd == "crash":
                    case, changed = cand, True
                    break
        return case

    def confirm(self):
        """-> list of (cases, message, kind)"""
        out = []
        hangs = 0
        # failures seen by the oracle are the cheapest to confirm
        self.suspects.sort(key=lambda s: ["oracle", "crash", "hang"].index(s[2]))
        for case, msg, kind, k in self.suspects[:4]:
            hits, m = 0, msg
            tries = 3 if kind != "hang" else 2
            for _ in range(tries):
                if kind == "hang" and hits < _:
                    break
                f, mm, kd = self.replay([case])
                if f:
                    hits += 1
                    m = mm or m
            if kind == "hang":
                if hits == tries:
                    out.append(([case], m, kind))
                    break
                hangs += 1
                if hangs == 2:
                    break
                continue
            if hits:
                if kind == "crash":
                    case = self.shrink_crash(case)
                out.append(([case], m + ("" if hits == tries else " (in %d of %d replays)" % (hits, tries)), kind))
                break
            # depends on what ran before in the same process
            hist = last_lines(os.path.join(self.dir, "journal%d.jsonl" % k), 0)
            for r in self.results:
                if r["worker"] == k and r.get("first_failure"):
                    hist = hist[: r["first_failure"]["position"]]
                    msg = r["first_failure"]["message"]
            f, mm, kd = self.replay(hist, timeout=max(HANG_S, 3 * self.max_s))
            if f and kd == kind:
                out.append((self.shrink_history(hist, kind), mm + " (needs the preceding calls in the same process)", kind))
                break
            if kind == "oracle":
                out.append((hist, msg + " (seen once; not reproduced by replaying the history)", kind))
            else:
                self.errors.append("a worker died (%s) but the case does not reproduce it" % msg)
        return out


def known_findings(cid):
    """{case hash or label: text} of findings recorded as not repaired."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % cid):
                    out.append(line[len("finding: property=%s " % cid):])
    return out


def main():
    cid = sys.argv[1]
    arg = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("vf.checks." + cid.lower())
    camps = mod.CAMPAIGNS
    os.makedirs(vbuild.BUILD_ROOT, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run-%s-" % cid, dir=vbuild.BUILD_ROOT)
    try:
        if arg == "--replay":
            with open(sys.argv[3]) as f:
                rec = json.load(f)
            camp = camps[rec["campaign"]]
            env = worker_env(camp.get("variant", "std"), vbuild.build(camp.get("variant", "std")), 600)
            for i in range(3):
                failed, msg, kind = run_replay(cid, rec["campaign"], camp, env, rec["cases"], scratch)
                if failed:
                    log(msg)
                    log("VIOLATION property=%s replay=%s" % (cid, sys.argv[3]))
                    return 1
            log("the case passes")
            return 0
        return run_check(cid, mod, camps, arg, seed, scratch)
    except vbuild.BuildError as e:
        log("BUILD ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(cid, mod, camps, tier, seed, scratch):
    t0 = time.time()
    cov = dict(evaluations=0, distinct_nontrivial=0, discarded=0, saved_inputs=0, rule=mod.RULE, samples=[], classes={}, campaigns=[])
    violations, errors = [], []
    hashes = set()
    for ci, camp in enumerate(camps):
        c = Campaign(cid, mod, ci, camp, tier, seed, scratch)
        t1 = time.time()
        c.run()
        ev = sum(r["evaluations"] for r in c.results)
        for r in c.results:
            for k, v in r["classes"].items():
                cov["classes"][k] = cov["classes"].get(k, 0) + v
            for k, v in (r.get("extra") or {}).items():
                cov[k] = cov.get(k, 0) + v
            hashes.update("%d/%s" % (ci, x) for x in r["hashes"])
        cov["evaluations"] += ev
        cov["discarded"] += sum(r["discarded"] for r in c.results)
        cov["saved_inputs"] += sum(r["corpus"] for r in c.results)
        for r in sorted(c.results, key=lambda r: r["worker"])[:3]:
            cov["samples"] += r["samples"][-3:]
        cov["campaigns"].append(
            dict(name=camp.get("name", str(ci)), variant=c.variant, planned=c.n, evaluations=ev,
                 truncated=any(r["truncated"] for r in c.results), wall_s=round(time.time() - t1, 1))
        )
        if c.suspects:
            for cases, msg, kind in c.confirm():
                violations.append((ci, cases, msg, kind))
        errors += c.errors
        if violations:
            break
        if ev < c.n * camp.get("floor", 0.25):
            errors.append("campaign %d: only %d of %d planned cases were evaluated" % (ci, ev, c.n))
    cov["distinct_nontrivial"] = len(hashes)
    cov["samples"] = cov["samples"][:8]
    cov["classes"] = dict(sorted(cov["classes"].items()))
    ev = dict(
        property=cid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration",
        coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    for k in known_findings(cid):
        log("KNOWN-FINDING: property=%s %s" % (cid, k))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (
        cid, tier, cov["evaluations"], len(hashes), cov["discarded"], time.time() - t0))
    log("classes: " + json.dumps(cov["classes"]))
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for ci, cases, msg, kind in violations:
            rec = dict(property=cid, campaign=ci, kind=kind, message=msg, cases=cases)
            h = hashlib.sha1(json.dumps([ci, cases], sort_keys=True).encode()).hexdigest()[:12]
            p = os.path.join(HERE, "replays", "%s-%s.json" % (cid, h))
            with open(p, "w") as f:
                json.dump(rec, f, indent=1)
            log("case: " + json.dumps(cases[-1])[:1500])
            log("reason: " + msg[:1500])
            log("VIOLATION property=%s replay=%s" % (cid, os.path.relpath(p, HERE)))
        return 1
    if errors:
        for e in errors[:5]:
            log("ERROR: " + e)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
