"""
Helpers to keep planted bugs: create() writes /verif/seeded/<id>/ from a list of
text replacements and a demonstration program and checks that the demonstration
passes on /repo and fails on the changed copy.

    plant.py tests ID...    run the stable tests on copies with the change
    plant.py checks ID...   apply to /repo, run the quick check(s) of the property, undo
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
SEEDED = "/verif/seeded"
DEMO = """#!/bin/bash
# cwd: the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
unset PYTHONHOME
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
PRELUDE = '''import importlib, os, sys, tempfile, shutil
import modulegraph2 as mg
assert os.path.dirname(os.path.dirname(os.path.abspath(mg.__file__))) == os.getcwd(), mg.__file__
STD = list(sys.path)
TMP = tempfile.mkdtemp(prefix="mgdemo")
import atexit
atexit.register(shutil.rmtree, TMP, True)


def files(d, sub="d"):
    root = os.path.join(TMP, sub)
    for name, text in d.items():
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fp:
            fp.write(text if isinstance(text, bytes) else text.encode())
    sys.path[:] = [root] + STD
    importlib.invalidate_caches()
    return root


def graph(**kw):
    kw.setdefault("use_stdlib_implies", False)
    return mg.ModuleGraph(**kw)


def edges(g):
    return {(a.identifier, b.identifier): {(e.is_optional, e.is_global, e.in_fromlist, e.imported_as) for e in s}
            for s, a, b in g.iter_edges()} if False else {
        (n.identifier, t.identifier): {(e.is_optional, e.is_global, e.in_fromlist, e.imported_as) for e in s}
        for n in g.iter_graph() for s, t in g.outgoing(n)}


def kinds(g):
    return {n.identifier: type(n).__name__ for n in g.iter_graph()}


'''


def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    shutil.rmtree(d)
    subprocess.check_call(["cp", "-a", REPO, d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
    return d


def demo(path, cwd):
    return subprocess.run(["bash", os.path.join(path, "demo.sh")], cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=300)


def create(ident, prop, edits, needs, breaks, code, prelude=True):
    path = os.path.join(SEEDED, ident)
    os.makedirs(path, exist_ok=True)
    d = copy()
    try:
        for fn, old, new in edits:
            p = os.path.join(d, "modulegraph2", fn)
            s = open(p).read()
            assert s.count(old) == 1, (ident, fn, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        open(os.path.join(path, "patch.diff"), "w").write(diff)
        open(os.path.join(path, "demo.sh"), "w").write(DEMO)
        open(os.path.join(path, "demo.py"), "w").write((PRELUDE if prelude else "") + code)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(path, "meta.json"), "w"), indent=1)
        a, b = demo(path, REPO), demo(path, d)
        ok = a.returncode == 0 and b.returncode != 0
        # changed lines must come from the original repository
        base = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        orig = ""
        for fn in {e[0] for e in edits}:
            orig += subprocess.check_output(["git", "-C", REPO, "show", base + ":modulegraph2/" + fn], text=True)
        removed = [ln[1:] for ln in diff.splitlines() if ln.startswith("-") and not ln.startswith("---")]
        notorig = [ln for ln in removed if ln.strip() and ln not in orig.split("\n")]
        print(ident, "demo ok" if ok else "DEMO BAD", a.returncode, b.returncode, "" if ok else a.stdout[-1500:] + b.stdout[-800:],
              "NOT ORIGINAL: %r" % notorig if notorig else "", "only additions" if not removed else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tests(ident):
    d = copy()
    try:
        subprocess.check_call(["git", "-C", d, "apply", os.path.join(SEEDED, ident, "patch.diff")])
        s = open("/opt/vp/test.sh").read().replace("/repo", d).replace("unset PYTHONPATH PYTHONHOME", "export PYTHONPATH=" + d)
        s = s.replace("-P 4", "-P 3")
        fn = d + ".sh"
        open(fn, "w").write(s)
        out = d + ".json"
        subprocess.run(["bash", fn, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res = json.load(open(out))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = stable - set(res["passed"])
        print(ident, "tests:", len(res["passed"]), "passed", "STABLE BROKEN: %s" % sorted(bad)[:5] if bad else "ok", flush=True)
        os.unlink(fn), os.unlink(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def checks(ident, extra=(), env=()):
    path = os.path.join(SEEDED, ident)
    prop = json.load(open(os.path.join(path, "meta.json")))["property"]
    d = copy()
    try:
        subprocess.check_call(["git", "-C", d, "apply", os.path.join(path, "patch.diff")])
        for pid in [prop] + list(extra):
            r = subprocess.run([sys.executable, "/verif/run.py", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, MGV_DEV_REPO=d))
            m = re.findall(r"VIOLATION.*", r.stdout)
            k = re.search(r"(\d+) violating cases of (\d+)", r.stdout)
            print(ident, pid, "CAUGHT" if r.returncode == 1 and m else "missed", r.returncode, k.group(0) if k else "", flush=True)
            if not m:
                print(r.stdout[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rebase(ident):
    """Bring a patch up to date with /repo."""
    path = os.path.join(SEEDED, ident, "patch.diff")
    d = copy()
    try:
        if subprocess.run(["git", "-C", d, "apply", "--check", path], stderr=subprocess.DEVNULL).returncode == 0:
            return
        p = subprocess.run(["patch", "-p1", "-F3", "--no-backup-if-mismatch", "-i", path], cwd=d, stdout=subprocess.PIPE, text=True)
        if p.returncode:
            print(ident, "does not apply", p.stdout[-300:])
            return
        open(path, "w").write(subprocess.check_output(["git", "-C", d, "diff"], text=True))
        a, b = demo(os.path.dirname(path), REPO), demo(os.path.dirname(path), d)
        print(ident, "rebased", a.returncode, b.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "tests":
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(tests, sys.argv[2:]))
    elif sys.argv[1] == "checks":
        for i in sys.argv[2:]:
            checks(i)
    elif sys.argv[1] == "rebase":
        for i in sorted(os.listdir(SEEDED)):
            rebase(i)
    elif sys.argv[1] == "check":
        checks(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "demos":
        def _one(i):
            d = copy()
            try:
                p = os.path.join(SEEDED, i)
                if subprocess.run(["git", "-C", d, "apply", os.path.join(p, "patch.diff")], stderr=subprocess.DEVNULL).returncode:
                    return i, "does not apply"
                a, b = demo(p, REPO).returncode, demo(p, d).returncode
                return i, "ok" if a == 0 and b else "BAD %s %s" % (a, b)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(4) as ex:
            for i, x in ex.map(_one, sys.argv[2:] or sorted(os.listdir(SEEDED))):
                print(i, x)
