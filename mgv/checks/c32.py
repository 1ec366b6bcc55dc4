"""The same modules in directories, zip files and split over the search path."""
import os
import random
import sys
import zipfile

from ..build import add_roots, activate, isolated, new_graph, write_files
from ..check import Check
from ..gen import gen_world, prefixes
from ..snap import diff, observe, text
from ..world import make_pyc

ROOMS = ["lib", "site packages", "l\u00efb", "a.b", "x.zip.d", "deep/er/lib", "lib-1.0.egg"]
PLACES = ("file", "search")


def strip(info):
    """Everything that does not say where the module is."""
    res = {k: v for k, v in info.items() if k not in PLACES}
    if "init" in res:
        res["init"] = strip(res["init"])
    return res


def arrange(r, w):
    """Give every module another place."""
    n = r.randint(1, 4)
    zips = [r.random() < 0.5 for _ in range(n)]
    for i in range(n):
        w.entries[i:i + 1] = ["%s%s" % (r.choice(["e", "lib", "\u00e9 "]) + str(i), r.choice([".zip", ".egg.zip", "-z.zip"]) if zips[i] else "")]
    del w.entries[n:]
    for name, m in w.mods.items():
        above = prefixes(name)
        free = all(w.mods[p].kind == "nspkg" for p in above)
        m.entry = r.randrange(n) if free else w.mods[above[-1]].entry


class C32(Check):
    technique = "runtime monitor: graphs of the same modules in random layouts compared with each other, files and search paths with the layout"
    level_note = ("Random worlds (all import forms, star imports, namespace packages, bytecode, scripts, data files) written in 3 random layouts each: "
                  "plain directories, zip files, portions of namespace packages spread over up to 4 entries in random order, prefixes inside zip files. "
                  "Everything but the places must be the same. Extension modules and unreadable files are left out, zip files cannot have them.")
    cases = {"quick": 420, "thorough": 8000}
    rule = "random worlds and layouts; non-trivial with at least 5 nodes and layouts that differ in a reachable module; distinct by nodes and layout"
    minimum = {"layouts": 900, "zip_modules": 1500, "directory_modules": 1500, "split_namespaces": 60, "data_packages": 100, "prefixed": 60}

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, ntops=(2, 5), maxsubs=4, depth=3, ext=False, invalid=False, nentries=1, nimports=(0, 4), weird=r.choice([0.2, 1.0]))
        w = g.world
        if not any(m.kind == "nspkg" for m in w.mods.values()) and r.random() < 0.7:
            g = gen_world(r, ntops=(2, 5), maxsubs=4, depth=3, ext=False, invalid=False, nentries=1, nimports=(0, 4))
            w = g.world
        for m in w.mods.values():
            if m.kind != "nspkg":
                w.source(m)
        for m in w.scripts.values():
            w.source(m)
        with_data = [n for n, m in w.mods.items() if m.pkg and r.random() < 0.4]
        roots = [("script", n) if k == "script" else (k, n) for k, n in g.roots]
        excludes = r.sample(g.order, 1) if r.random() < 0.2 else []
        implies = {r.choice(g.order): ("list", [r.choice(g.order), "errno"])} if r.random() < 0.2 else {}
        results = []
        for i in range(3):
            root = os.path.join(ctx.dir, r.choice(ROOMS), "v%d" % i)
            os.makedirs(root)
            w.extra = []
            if i == 0 and r.random() < 0.7:
                w.entries[:] = ["plain"]
                for m in w.mods.values():
                    m.entry = 0
                self.extra(w, with_data)
                w.write(root)
            else:
                arrange(r, w)
                self.extra(w, with_data)
                w.write(root)
            path = w.path()
            prefix = {}
            for j, e in enumerate(path):
                if e.endswith(".zip") and r.random() < 0.25:
                    path[j] = self.inside(e)
                    prefix[j] = path[j]
                    ctx.count("prefixed")
            order = list(path)
            r.shuffle(order)
            for n in list(w.scripts):
                # scripts stay where they are
                p = os.path.join(ctx.dir, "scripts", n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fp:
                    fp.write(w.source(w.scripts[n]))

            def fn():
                import importlib
                sys.path[:] = order + ctx.stdlib
                importlib.invalidate_caches()
                gr = new_graph(implies=implies, excludes=excludes)
                for k, n in roots:
                    if k == "script":
                        gr.add_script(os.path.join(ctx.dir, "scripts", n))
                    else:
                        gr.add_module(n)
                loaders = {x.identifier: type(getattr(x, "loader", None)).__name__ for x in gr.nodes()}
                return observe(gr, None, True), loaders
            ob, loaders = isolated(fn)
            where = {n: (path[m.entry], w.mods[n].relpath() if m.kind != "nspkg" else None) for n, m in w.mods.items()}
            results.append((ob, loaders, where, order, w.dump() if i == 0 else {n: p for n, p in where.items()}))
            self.places(ctx, w, ob, loaders, path, order)
            ctx.count("layouts")
        base = {"roots": results[0][0]["roots"], "edges": results[0][0]["edges"], "nodes": {n: strip(x) for n, x in results[0][0]["nodes"].items()}}
        ctx.note(layouts=[x[4] for x in results], roots=roots, excludes=excludes)
        for ob, *_ in results[1:]:
            other = {"roots": ob["roots"], "edges": ob["edges"], "nodes": {n: strip(x) for n, x in ob["nodes"].items()}}
            d = diff(base, other)
            ctx.check(not d, lambda: "two layouts of the same modules: " + text(d), differences=[str(x) for x in d])
        ctx.count("data_packages", sum(1 for n in with_data if n in base["nodes"]))
        a, b = results[0][2], results[-1][2]
        ctx.nontrivial(len(base["nodes"]) >= 5 and any(n in base["nodes"] and a[n][0][len(ctx.dir):] != b[n][0][len(ctx.dir):] for n in a))
        ctx.sig(sorted(base["nodes"]), [sorted((n, p[0].rpartition("/")[2]) for n, p in x[2].items()) for x in results])
        ctx.sample({"nodes": {n: x["cls"] for n, x in base["nodes"].items()}, "layouts": [[os.path.relpath(p, ctx.dir) for p in x[3]] for x in results]})

    def extra(self, w, with_data):
        for n in with_data:
            m = w.mods[n]
            w.extra.append((m.entry, n.replace(".", "/") + "/data.txt", b"data"))

    def inside(self, z):
        """Move everything in the zip file into a directory in it."""
        with zipfile.ZipFile(z) as zf:
            items = [(i.filename, zf.read(i)) for i in zf.infolist()]
        with zipfile.ZipFile(z, "w") as zf:
            zf.writestr("in/", b"")
            zf.writestr("in/side/", b"")
            for n, data in items:
                zf.writestr("in/side/" + n, data)
        return z + "/in/side"

    def places(self, ctx, w, ob, loaders, path, order):
        for n, info in ob["nodes"].items():
            m = w.mods.get(n)
            if m is None or info["cls"] in ("ExcludedModule",):
                continue
            e = path[m.entry]
            if m.kind == "nspkg":
                have = {x.entry for c, x in w.mods.items() if c.startswith(n + ".")} | {m.entry}
                want = [p + "/" + n.replace(".", "/") for p in order if path.index(p) in have]
                got = [p.rstrip("/") for p in info["search"]]
                ctx.check(got == want, "the namespace package %s has the search path %s, expected %s" % (n, got, want))
                ctx.count("split_namespaces", len(want) > 1)
                continue
            want = e + "/" + m.relpath()
            ctx.check((info["init"] if m.pkg else info)["file"] == want, "%s is in the file %s, expected %s" % (n, info["file"], want))
            if m.pkg:
                ctx.check([p.rstrip("/") for p in info["search"]] == [e + "/" + n.replace(".", "/")], "%s has the search path %s, in %s" % (n, info["search"], e))
            zipped = ".zip" in e.rpartition("/v")[2]
            ctx.check((loaders[n] == "zipimporter") == zipped, "%s in %s has the loader %s" % (n, e, loaders[n]))
            ctx.count("zip_modules" if zipped else "directory_modules")

    def probe_pair(self, ctx):
        files = {"p/__init__.py": "from . import a\nfrom .a import *\nx = 1", "p/a.py": "import p.b as q\n__all__ = ['c']\nfrom p import c", "p/b.py": "import ns.one",
                 "p/c.py": "def f():\n    from ..p import a, nope", "ns/one.py": "from . import two", "ns/two.py": "", "p/data.bin": b"1"}
        res = []
        for i in range(2):
            d = os.path.join(ctx.dir, "d%d" % i)
            if i:
                os.makedirs(d)
                with zipfile.ZipFile(d + "/x.zip", "w") as zf:
                    for k in sorted({os.path.dirname(x) for x in files}):
                        zf.writestr(k + "/", b"")
                    for k, v in files.items():
                        zf.writestr(k, v)
                p = d + "/x.zip"
            else:
                write_files(ctx, files, sub="d0", activate=False)
                p = d

            def fn():
                import importlib
                sys.path[:] = [p] + ctx.stdlib
                importlib.invalidate_caches()
                gr = new_graph()
                gr.add_module("p")
                ob = observe(gr, None, True)
                ob["nodes"] = {n: strip(x) for n, x in ob["nodes"].items()}
                return ob
            res.append(isolated(fn))
        d = diff(*res)
        ctx.check(not d and "ns.two" in res[0]["nodes"], text(d))


CHECK = C32()
