"""Validates planted bugs in a scratch copy of /repo and writes /verif/seeded/<id>/ (no registered command uses it).

usage: plant.py SPEC.py [ID ...]      (the scratch copy is /tmp/sb with its own build.sh and test.sh in /tmp/sbx)
SPEC.py defines PLANTS = [dict(id, property, file, edits=[(old, new), ...], needs, breaks, demo)]
"""
import json, os, runpy, subprocess, sys

SB = "/tmp/sb"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\ntimeout 120 /usr/bin/python3 "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)


def main():
    plants = runpy.run_path(sys.argv[1])["PLANTS"]
    want = sys.argv[2:]
    for p in plants:
        if want and p["id"] not in want:
            continue
        sh("git checkout -q -- .", SB)
        d = os.path.join(SEEDED, p["id"])
        bad = None
        files = p["file"] if isinstance(p["file"], list) else [p["file"]]
        for f in files:
            path = os.path.join(SB, f)
            s = open(path).read()
            for old, new in p["edits"]:
                if s.count(old) == 1:
                    s = s.replace(old, new)
                elif len(files) == 1:
                    bad = "the text %r occurs %d times" % (old[:60], s.count(old))
            open(path, "w").write(s)
        if bad:
            print(p["id"], "BAD EDIT", bad)
            continue
        diff = sh("git diff", SB).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(p["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(d + "/meta.json", "w"), indent=1)
        clean = sh("bash %s/demo.sh" % d, "/repo")
        b = sh("bash /tmp/sbx/build.sh")
        if b.returncode:
            print(p["id"], "BUILD", b.stdout[-600:])
            continue
        patched = sh("bash %s/demo.sh" % d, SB)
        sh("bash /tmp/sbx/test.sh /tmp/sbx/o.json")
        o = json.load(open("/tmp/sbx/o.json"))
        ok = clean.returncode == 0 and patched.returncode != 0 and len(o["passed"]) == 78
        print(p["id"], "OK" if ok else "FAILED", "clean", clean.returncode, "patched", patched.returncode, "tests", len(o["passed"]), "|", patched.stdout.strip()[-200:].replace("\n", " "), flush=True)
        if clean.returncode:
            print("   clean:", clean.stdout[-600:])
    sh("git checkout -q -- .", SB)


main()
