"""Runs checks against a changed copy of /repo (for sensitivity experiments; no registered command uses it).

usage: mutant.py NAME (--patch FILE | --revert COMMIT | --dir DIR) --checks C01,C02 [--seeds 1,2] [--tests] [--save]
"""
import argparse, os, shutil, subprocess, sys, time, json, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("name")
    a.add_argument("--patch")
    a.add_argument("--revert")
    a.add_argument("--dir")
    a.add_argument("--checks", required=True)
    a.add_argument("--seeds", default="1")
    a.add_argument("--save", action="store_true", help="append the shrunk case to corpus/")
    a = a.parse_args()
    d = a.dir or "/tmp/mt/" + a.name
    if not a.dir:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh("git -C /repo archive HEAD wicked | tar x -C %s" % d)
        if a.patch:
            r = sh("cd %s && patch -p1 --no-backup-if-mismatch < %s" % (d, os.path.abspath(a.patch)))
        else:
            r = sh("git -C /repo show %s -- wicked | (cd %s && patch -R -p1 --no-backup-if-mismatch)" % (a.revert, d))
        if r.returncode:
            print(a.name, "PATCH FAILED", r.stdout[-800:])
            return
    for c in a.checks.split(","):
        for s in a.seeds.split(","):
            t = time.time()
            env = dict(os.environ, VF_REPO=d, VERIF_SEED=s)
            r = sh("python3-vt %s/check.py %s quick" % (HERE, c), env=env)
            v = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "reason:", "BUILD", "error"))]
            print("%s %s seed %s: rc %d %.0fs %s" % (a.name, c, s, r.returncode, time.time() - t, " | ".join(x[:260] for x in v)), flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
            if a.save and r.returncode == 1:
                for x in v:
                    if x.startswith("VIOLATION"):
                        rec = json.load(open(x.split("replay=")[1]))
                        if len(rec["cases"]) == 1 and len(json.dumps(rec["cases"][0])) < 6000:
                            line = json.dumps(dict(campaign=rec["campaign"], case=rec["cases"][0], note=a.name), sort_keys=True)
                            p = os.path.join(HERE, "corpus", c + ".jsonl")
                            old = open(p).read() if os.path.exists(p) else ""
                            if line not in old:
                                open(p, "a").write(line + "\n")
    if not a.dir:
        shutil.rmtree(d, ignore_errors=True)


main()
