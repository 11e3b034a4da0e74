"""Builds a private copy of the wicked extension module from /repo's working tree.

The sources are globbed the way /repo/wicked/CMakeLists.txt does it.  For speed they
are compiled as a few "unity" translation units; a unit that does not compile that way
(e.g. two files defining the same static name) is compiled file by file instead.  The
result is kept in /verif/.build/<hash of the sources, flags and compiler>, so a changed
tree is always rebuilt.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD_ROOT = os.path.join(VERIF, ".build")
DIRS = [".", "algebra", "diagrams", "helpers", "api", "fmt"]
EXT = (".cc", ".cpp", ".cxx", ".C")

VARIANTS = {
    "std": dict(core="-O1", api="-O0", extra=[], link=[]),
    "asan": dict(
        core="-O1",
        api="-O0",
        extra=[
            "-g1",
            "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined",
            "-fno-sanitize-recover=undefined",
            "-fno-sanitize=vptr",
            "-D_GLIBCXX_DEBUG",
        ],
        link=["-fsanitize=address,undefined"],
    ),
    "tsan": dict(
        core="-O1",
        api="-O0",
        extra=["-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
        link=["-fsanitize=thread"],
    ),
}


class BuildError(Exception):
    pass


def snapshot():
    """{relative path: bytes} of everything the build reads from /repo/wicked."""
    root = os.path.join(REPO, "wicked")
    files = {}
    for dirpath, dirs, names in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for n in sorted(names):
            if n.endswith((".so", ".pyc", ".o")):
                continue
            p = os.path.join(dirpath, n)
            with open(p, "rb") as f:
                files[os.path.relpath(p, root)] = f.read()
    return files


def sources(files):
    out = []
    for d in DIRS:
        for f in sorted(files):
            dn = os.path.dirname(f) or "."
            if dn == d and f.endswith(EXT):
                out.append(f)
    return out


def groups(files):
    """Split the sources into balanced unity units: [(kind, [files])]."""
    src = sources(files)
    api = [s for s in src if s.startswith("api/")]
    core = [s for s in src if not s.startswith("api/")]

    def split(lst, n):
        bins = [[0, []] for _ in range(n)]
        weights = sorted(lst, key=lambda s: (-(len(files[s]) + 2500), s))
        for s in weights:
            b = min(bins, key=lambda b: b[0])
            b[0] += len(files[s]) + 2500
            b[1].append(s)
        return [sorted(b[1]) for b in bins if b[1]]

    return [("api", g) for g in split(api, 3)] + [("core", g) for g in split(core, 5)]


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def flags(variant, w, kind):
    v = VARIANTS[variant]
    boost = ["-DUSE_BOOST_1024_INT"] if os.path.isdir("/usr/include/boost") else []
    return (
        ["-std=gnu++20", v[kind], "-fPIC", "-fvisibility=hidden", "-w"]
        + boost
        + v["extra"]
        + ["-I%s" % w]
        + ["-I%s/%s" % (w, d) for d in ("algebra", "diagrams", "fmt")]
        + ["-I" + sysconfig.get_paths()["include"]]
    )


def compile_group(variant, w, out, i, kind, group):
    unit = os.path.join(out, "unit%d.cc" % i)
    with open(unit, "w") as f:
        for s in group:
            f.write('#include "%s"\n' % os.path.join(w, s))
    obj = os.path.join(out, "unit%d.o" % i)
    r = run(["g++"] + flags(variant, w, kind) + ["-c", unit, "-o", obj])
    if r.returncode == 0:
        return [obj]
    objs = []
    for j, s in enumerate(group):
        o = os.path.join(out, "unit%d_%d.o" % (i, j))
        r = run(["g++"] + flags(variant, w, kind) + ["-c", os.path.join(w, s), "-o", o])
        if r.returncode != 0:
            raise BuildError("compilation of %s failed:\n%s" % (s, r.stdout[-3000:]))
        objs.append(o)
    return objs


def build(variant="std"):
    """Returns the directory to put on PYTHONPATH."""
    files = snapshot()
    h = hashlib.sha256()
    h.update(repr((variant, VARIANTS[variant], sys.version)).encode())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    for k in sorted(files):
        h.update(k.encode() + b"\0" + files[k] + b"\0")
    key = h.hexdigest()[:20]
    os.makedirs(BUILD_ROOT, exist_ok=True)
    dest = os.path.join(BUILD_ROOT, variant + "-" + key)
    with open(os.path.join(BUILD_ROOT, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "ok")):
            os.utime(dest)
            return dest
        # keep the build area small: at most a few older builds of this variant
        olds = sorted(
            (d for d in glob.glob(os.path.join(BUILD_ROOT, variant + "-*")) if d != dest),
            key=os.path.getmtime,
        )
        for d in olds[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        w = os.path.join(dest, "src", "wicked")
        for rel, data in files.items():
            p = os.path.join(w, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        out = os.path.join(dest, "obj")
        os.makedirs(out)
        gs = groups(files)
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(
                ex.map(
                    lambda t: compile_group(variant, w, out, t[0], t[1][0], t[1][1]),
                    list(enumerate(gs)),
                )
            )
        objs = [o for r in res for o in r]
        pkg = os.path.join(dest, "wicked")
        os.makedirs(pkg)
        so = os.path.join(pkg, "_wicked" + sysconfig.get_config_var("EXT_SUFFIX"))
        r = run(["g++", "-shared", "-o", so] + VARIANTS[variant]["link"] + objs + ["-lpthread"])
        if r.returncode != 0:
            raise BuildError("link failed:\n" + r.stdout[-3000:])
        for rel, data in files.items():
            if rel.endswith(".py"):
                p = os.path.join(pkg, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data)
        shutil.rmtree(out)
        with open(os.path.join(dest, "ok"), "w") as f:
            f.write("ok\n")
    return dest


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["std"]:
        print(build(v), "%.1fs" % (time.time() - t))
