"""The same graph in every process."""
import json
import os
import py_compile
import subprocess
import sys

from ..build import activate, write_files
from ..check import Check
from ..dists import Dist
from ..gen import gen_world
from .c16 import random_implies

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(ctx, jobs, seed, listing, tag, flags=()):
    fn = os.path.join(ctx.dir, "jobs-%s.json" % tag)
    with open(fn, "w") as fp:
        json.dump({"site": ctx.site, "listing": listing, "jobs": jobs}, fp)
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONHASHSEED"] = str(seed)
    res = fn + ".out"
    p = subprocess.run([sys.executable, "-S", "-B", *flags, os.path.join(HERE, "procbuild.py"), fn, res], env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(res):
        raise RuntimeError("builder failed: " + p.stdout[-2000:])
    return json.load(open(res))


def add_caches(root, r, kinds):
    """Cached bytecode next to the sources; returns how many files."""
    n = 0
    modes = py_compile.PycInvalidationMode
    for d, dirs, files in os.walk(root):
        if os.path.basename(d) == "__pycache__":
            continue
        for f in files:
            if not f.endswith(".py") or r.random() < 0.2:
                continue
            src = os.path.join(d, f)
            pyc = os.path.join(d, "__pycache__", "%s.%s.pyc" % (f[:-3], sys.implementation.cache_tag))
            kind = r.choice(kinds)
            try:
                py_compile.compile(src, pyc, doraise=True, invalidation_mode={
                    "timestamp": modes.TIMESTAMP, "checked": modes.CHECKED_HASH, "unchecked": modes.UNCHECKED_HASH}.get(kind, modes.TIMESTAMP))
            except Exception:
                continue
            if kind == "stale":
                data = bytearray(open(pyc, "rb").read())
                data[8:12] = b"\1\2\3\4"
                data[16:] = b"\0" * len(data[16:])
                open(pyc, "wb").write(data)
            elif kind == "magic":
                data = bytearray(open(pyc, "rb").read())
                data[:2] = b"\1\2"
                open(pyc, "wb").write(data)
            n += 1
    return n


class C24(Check):
    technique = "runtime monitor: full observations of the same worlds built in separate interpreters, compared offline"
    level_note = ("Batches of random worlds (distributions with shared files, import_package, cycles with re-exports, implications, "
                  "exclusions) are built in 4 interpreters with different hash seeds, shuffled and reversed directory listings and with cached "
                  "bytecode of every validation kind added in between; nodes with all attributes and edges must be equal.")
    cases = {"quick": 48, "thorough": 900}
    rule = "batches of 6 random worlds times 4 interpreters; non-trivial when some world has 8 nodes; distinct by nodes and edges"
    minimum = {"graphs": 800, "cached_files": 1000, "distribution_roots": 40, "packages_imported": 40, "shared_files": 40}

    def world(self, ctx, k):
        r = ctx.rng
        style = r.randrange(3)
        sub = os.path.join(ctx.dir, "w%d" % k)
        os.makedirs(sub)
        g = gen_world(r, acyclic=style == 0, layered=r.random() < 0.5, ntops=(2, 5), maxsubs=4, nentries=r.choice([1, 2]), weird=0.1, star=style < 2,
                      zips=r.random() < 0.1, invalid=r.random() < 0.5, scripts=(0, 2), nimports=(0, 7))
        w = g.world
        w.write(sub)
        # cross links between modules that depend on the processing order
        if style == 2:
            for n in r.sample(g.order, len(g.order)):
                m = w.mods[n]
                if m.kind == "source" and not m.pkg and not w.entries[m.entry].endswith(".zip"):
                    other = [o for o in g.order if w.mods[o].kind == "source" and o != n]
                    lines = ["import errno as M%d" % r.randrange(3)]
                    for o in r.sample(other, min(len(other), 3)):
                        lines.append("from %s import M%d, M%d" % (o, r.randrange(3), r.randrange(3)))
                    r.shuffle(lines)
                    with open(os.path.join(sub, w.entries[m.entry], m.relpath()), "ab") as fp:
                        fp.write(("\n" + "\n".join(lines) + "\n").encode())
        ops = [["script", w.script_path(n)] if kind == "script" else ["module", n] for kind, n in g.roots]
        dists = []
        files = [m for m in w.mods.values() if m.kind != "nspkg" and not w.entries[m.entry].endswith(".zip")]
        if files:
            for i in range(r.randint(0, 4)):
                e = r.choice(files).entry
                mine = [m.relpath() for m in files if m.entry == e]
                d = Dist(r.choice(["Foo", "Bar", "foo", "Baz"]), "1.%d" % r.randrange(9),
                         [p for p in mine if r.random() < 0.6])
                d.dirname = "%s-%s.dist-info" % (r.choice(["Foo", "bar", "x", "Zz"]), r.randrange(100))
                entry = os.path.join(sub, w.entries[e])
                if os.path.exists(os.path.join(entry, d.dirname)):
                    continue
                d.write(entry, r)
                dists.append(d)
            rows = [p for d in dists for p in d.rows]
            if len(rows) != len(set(rows)):
                ctx.count("shared_files")
        if dists and r.random() < 0.6:
            ctx.count("distribution_roots")
            ops.insert(r.randint(0, len(ops)), ["dist", r.choice(dists).name])
        pkgs = [n for n, m in w.mods.items() if m.pkg]
        if r.random() < 0.5 and pkgs:
            ctx.count("packages_imported")
            kind, n = g.roots[0]
            src = w.script_path(n) if kind == "script" else n
            i = ops.index(["script", src] if kind == "script" else ["module", src])
            ops.insert(i + 1, ["package", src, r.choice(pkgs)])
        if r.random() < 0.3:
            ops.append(["source", "import %s\nfrom %s import x1, x2, x3, x4\n" % (g.order[0], g.order[-1])])
        imp = random_implies(r, g, 3) if r.random() < 0.3 and style else {}
        exc = [r.choice(g.order)] if r.random() < 0.2 else []
        if any(op[0] == "package" and gone in exc for op in ops for gone in [op[-1]]):
            exc = []
        return {"path": w.path(), "cwd": sub, "ops": ops, "implies": sorted(imp.items()), "excludes": exc, "stdlib_implies": r.random() < 0.5}, w

    def case(self, ctx):
        r = ctx.rng
        jobs, worlds = [], []
        for k in range(6):
            j, w = self.world(ctx, k)
            jobs.append(j)
            worlds.append(w)
        ctx.note(jobs=jobs)
        seeds = [0] + [r.randrange(1, 2 ** 32 - 1) for _ in range(3)]
        runs = []
        for i, (seed, listing) in enumerate(zip(seeds, ["sorted", "reversed", "x%d" % r.randrange(1000), "y%d" % r.randrange(1000)])):
            if i == 2:
                n = 0
                for k in range(6):
                    n += add_caches(os.path.join(ctx.dir, "w%d" % k), r, ["timestamp", "checked", "unchecked", "stale", "magic"])
                ctx.count("cached_files", n)
            res = run(ctx, jobs, seed, listing, str(i))
            ctx.count("graphs", len(res))
            runs.append((seed, listing, i >= 2, res))
        for k in range(6):
            ref = runs[0][3][k]
            if "error" in ref:
                # operations that fail everywhere are not the subject here
                ctx.count("failing")
            for seed, listing, cached, res in runs[1:]:
                self.same(ctx, ref, res[k], "hash seed %s, listing %s, %s" % (seed, listing, "with cached bytecode" if cached else "without caches"), jobs[k], worlds[k])
            ctx.nontrivial("nodes" in ref and len(ref["nodes"]) >= 8)
            ctx.sig(sorted(ref.get("nodes", ())), len(ref.get("edges", ())))

    def same(self, ctx, a, b, how, job, w=None):
        if a == b:
            return
        detail = dict(job=job, files=w.dump() if w else None)
        if "error" in a or "error" in b:
            ea, eb = a.get("error", "none"), b.get("error", "none")
            if ("error" in a) == ("error" in b) and ea.split("\n")[0] == eb.split("\n")[0]:
                return
            ctx.violation("%s: error %s, before %s" % (how, eb[-800:], ea[-800:]), **detail)
        for k in ("roots", "reachable"):
            ctx.check(a[k] == b[k], "%s: %s differ: %s" % (how, k, sorted(set(a[k]) ^ set(b[k]))[:10]), **detail)
        for n in sorted(set(a["nodes"]) | set(b["nodes"])):
            x, y = a["nodes"].get(n), b["nodes"].get(n)
            ctx.check(x == y, lambda: "%s: node %s: %s, before %s" % (how, n, {k: v for k, v in (y or {}).items() if not x or x.get(k) != v},
                                                                      {k: v for k, v in (x or {}).items() if not y or y.get(k) != v}), **detail)
        ea, eb = {(x[0], x[1]): x[2] for x in a["edges"]}, {(x[0], x[1]): x[2] for x in b["edges"]}
        for k in sorted(set(ea) | set(eb)):
            ctx.check(ea.get(k) == eb.get(k), "%s: edge %s: %s, before %s" % (how, k, eb.get(k), ea.get(k)), **detail)
        ctx.violation("%s: the observations differ" % how, **detail)

    # --- fixed cases

    def several(self, ctx, files, ops, root="d", n=6):
        d = write_files(ctx, files, activate=False)
        job = {"path": [d], "cwd": ctx.dir, "ops": ops, "implies": [], "excludes": [], "stdlib_implies": False}
        ref = None
        for i, listing in enumerate(["sorted", "reversed", "a", "b", "c", "d"][:n]):
            res = run(ctx, [job], i * 77, listing, str(i))[0]
            ctx.check("error" not in res, "fails: %s" % res.get("error"))
            ref = ref or res
            self.same(ctx, ref, res, "listing %s" % listing, job)
        return ref

    def probe_shared_file(self, ctx):
        files = {"p/__init__.py": "import p.a", "p/a.py": ""}
        for n in ("One", "Two", "Three"):
            files["%s-1.dist-info/METADATA" % n] = "Metadata-Version: 2.1\nName: %s\nVersion: 1\n" % n
            files["%s-1.dist-info/RECORD" % n] = "p/__init__.py,,\np/a.py,,\n"
        self.several(ctx, files, [["module", "p"]])

    def probe_two_versions(self, ctx):
        files = {"a.py": "", "b.py": ""}
        for v, f in (("1", "a"), ("2", "b"), ("10", "c")):
            files["One-%s.dist-info/METADATA" % v] = "Metadata-Version: 2.1\nName: One\nVersion: %s\n" % v
            files["One-%s.dist-info/RECORD" % v] = "%s.py,,\n" % f
        self.several(ctx, files, [["dist", "One"]])

    def probe_package_order(self, ctx):
        files = {"m.py": "", "p/__init__.py": "", "p/x.py": "from p.y import M", "p/y.py": "import errno as M\nfrom p.x import x2\n",
                 "p/q/__init__.py": "from p.r import N", "p/r/__init__.py": "import errno as N\nfrom p.q import x2\n"}
        self.several(ctx, files, [["module", "m"], ["package", "m", "p"]])

    def probe_name_list_order(self, ctx):
        files = {"m.py": "from p import a, b, c, d, e, f", "p/__init__.py": ""}
        for i, c in enumerate("abcdef"):
            o = "abcdef"[(i + 1) % 6]
            files["p/%s.py" % c] = "import errno as M\nfrom p.%s import M as Z, N\nimport atexit as N\n" % o
        self.several(ctx, files, [["module", "m"]])

    def probe_distribution_order(self, ctx):
        files = {}
        for i, c in enumerate("abcdef"):
            o = "abcdef"[(i + 1) % 6]
            files["%s.py" % c] = "import errno as M\nfrom %s import M as Z, N\nimport atexit as N\n" % o
        files["One-1.dist-info/METADATA"] = "Name: One\nVersion: 1\n"
        files["One-1.dist-info/RECORD"] = "".join("%s.py,,\n" % c for c in "abcdef")
        self.several(ctx, files, [["dist", "One"]])

    def probe_two_mypyc_helpers(self, ctx):
        files = {"m.py": "import errno", "m.abi3.so": b"", "One-1.dist-info/METADATA": "Name: One\nVersion: 1\n",
                 "One-1.dist-info/RECORD": "m.abi3.so,,\n" + "".join("%s__mypyc.abi3.so,,\n" % c for c in "abcdef")}
        files.update({"%s__mypyc.abi3.so" % c: b"" for c in "abcdef"})
        ref = self.several(ctx, files, [["module", "m"]])
        ctx.check(any(x[1].endswith("__mypyc") for x in ref["edges"]), "no helper: %s" % ref["edges"])


CHECK = C24()
