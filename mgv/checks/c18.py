"""Attribution of modules to distributions."""
import importlib
import os
import sys

import modulegraph2 as mg

from ..build import add_roots, new_graph, write_files
from ..check import Check
from ..dists import Dist
from ..gen import gen_world


class C18(Check):
    technique = "runtime monitor: the distribution of every observed node against the record files that were generated"
    level_note = ("Random worlds whose files are listed by random dist-info directories on the same and other search path entries, with decoys that list the "
                  "same relative names elsewhere, unlisted modules, unreferenced distributions, and relative and unnormalised entries; every node's distribution "
                  "and the listings for reachable and all nodes are compared with the generated records. Two distributions never list the same file.")
    cases = {"quick": 1800, "thorough": 40000}
    rule = "random worlds with records; non-trivial with at least 2 attributed and 1 unattributed module; distinct by the attributions"
    minimum = {"attributed": 5000, "unattributed": 5000, "decoys": 1000, "listings": 3000}

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, weird=0, zips=r.random() < 0.2, nentries=r.choice([1, 2, 2, 3]), maxdepth=2, nimports=(0, 3), acyclic=False, star=False)
        w = g.world
        w.write(ctx.dir)
        owner = {}
        k = 0
        per = {}
        for m in w.mods.values():
            if m.kind == "nspkg" or r.random() < 0.35:
                continue
            per.setdefault(m.entry, []).append(m)
        dists = []
        for e, ms in sorted(per.items()):
            nd = r.randint(1, 3)
            ds = []
            for i in range(nd):
                k += 1
                # the names of distributions and modules have nothing to do with each other
                # (several can have the same name); the version identifies them here
                nm = r.choice([r.choice(g.order).split(".")[0], "Dist", "Dist"])
                ds.append(Dist(nm, str(k)))
            for m in ms:
                r.choice(ds).rows.append((e, m.relpath()))
            dists += ds
        where = {}
        for d in dists:
            # mostly next to the files, sometimes in another entry
            es = {e for e, _ in d.rows} or {0}
            home = r.choice(sorted(es)) if r.random() < 0.8 else r.randrange(len(w.entries))
            cand = [i for i, x in enumerate(w.entries) if not x.endswith(".zip")]
            if not cand:
                continue
            if home not in cand:
                home = r.choice(cand)
            where[d.version] = home
            rows = []
            for e, rel in d.rows:
                rows.append(rel if e == home else os.path.join("..", w.entries[e], rel))
                owner[os.path.join(ctx.dir, w.entries[e], rel)] = d.version
            # things that do not concern any module
            if r.random() < 0.5:
                ctx.count("decoys")
                for x in r.sample(g.order, min(3, len(g.order))):
                    m = w.mods[x]
                    if m.kind == "nspkg":
                        continue
                    p = m.relpath()
                    # the right name in the wrong place or with another suffix
                    rows += [q for q in (p + "x", "other/" + p, p.rpartition(".")[0] + ".txt", x.replace(".", "/"), x, os.path.dirname(p) or "x")
                             if os.path.normpath(os.path.join(ctx.dir, w.entries[home], q)) not in owner]
            r.shuffle(rows)
            d.rows = rows
            d.style = r.choice(["wheel", "csv"])
            d.write(os.path.join(ctx.dir, w.entries[home]), r)
        # distributions elsewhere that record the same relative names
        extra = []
        if r.random() < 0.5:
            e = os.path.join(ctx.dir, "elsewhere")
            d = Dist("Elsewhere", "E", [w.mods[n].relpath() for n in g.order if w.mods[n].kind != "nspkg"])
            d.write(e, r)
            extra.append(e)
            ctx.count("decoys")
            # (it is the owner of nothing: no module file is there)
        path = w.path()
        if r.random() < 0.4:
            path = [r.choice([p, p + "/", os.path.relpath(p, ctx.dir), "./" + os.path.relpath(p, ctx.dir), os.path.join(os.path.dirname(p), "elsewhere", "..", os.path.basename(p)) if extra else p])
                    if not p.endswith(".zip") else p for p in path]
        sys.path[:] = (extra + path if r.random() < 0.5 else path + extra) + ctx.stdlib
        importlib.invalidate_caches()
        sys.path_importer_cache.clear()
        ctx.note(files=w.dump(), roots=g.roots, records={d.version: (d.name, where.get(d.version), d.rows) for d in dists}, sys_path=sys.path[:6])
        gr = new_graph(excludes=r.sample(g.order, 1) if r.random() < 0.2 else ())
        add_roots(gr, w, g.roots)
        other = None
        if r.random() < 0.3:
            # a distribution that is a node itself
            d = r.choice([d for d in dists if d.version in where] or [None])
            if d is not None:
                other = gr.add_distribution(d.name)
        names = {}
        ndist = nnone = 0
        for n in gr.nodes():
            if isinstance(n, mg.PyPIDistribution):
                continue
            file = n.filename
            if isinstance(n, mg.Package):
                file = n.init_module.filename
            if isinstance(n, (mg.NamespacePackage, mg.Script, mg.MissingModule, mg.ExcludedModule, mg.AliasNode, mg.VirtualNode, mg.InvalidRelativeImport, mg.BuiltinModule, mg.FrozenModule)):
                want = None
            else:
                want = owner.get(os.path.abspath(str(file)))
            got = n.distribution.version if n.distribution is not None else None
            ctx.check(got == want, lambda: "%s (%s) is attributed to %s, it belongs to %s" % (n.name, file, got, want))
            if isinstance(n, mg.Package):
                x = n.init_module.distribution
                ctx.check((x.version if x else None) == want, "the __init__ of %s is attributed to %s, it belongs to %s" % (n.name, x and x.version, want))
            names[n.identifier] = want
            ndist += want is not None
            nnone += want is None
        ctx.count("attributed", ndist)
        ctx.count("unattributed", nnone)
        reach = {n.identifier for n in gr.iter_graph()}
        for reachable in (True, False, None):
            ctx.count("listings")
            got = [d.version for d in (gr.distributions() if reachable is None else gr.distributions(reachable))]
            want = sorted({d for n, d in names.items() if d is not None and (reachable is False or n in reach)})
            ctx.check(sorted(got) == want, lambda: "distributions(reachable=%s) gives %s, expected %s" % (reachable, sorted(got), want))
        ctx.nontrivial(ndist >= 2 and nnone)
        ctx.sig(sorted((n, d or "") for n, d in names.items() if not n.startswith("/")))
        ctx.sample({"attribution": {n: d for n, d in list(names.items())[:20]}, "records": {d.version: d.rows for d in dists}})

    # --- fixed cases

    def probe_all_kinds(self, ctx):
        from ..world import EXT, make_pyc
        files = {"s.py": "", "b.pyc": make_pyc("", "b"), "i.py": "def f(:", "p/__init__.py": "", "q/__init__.pyc": make_pyc("", "q"), "r/__init__.so": b"", "p/x.py": "", "ns/y.py": ""}
        for i, s in enumerate(EXT):
            files["e%d%s" % (i, s)] = b""
        e = write_files(ctx, files)
        Dist("D", "1", [f for f in files]).write(e, ctx.rng)
        gr = new_graph()
        for n in ("s", "b", "i", "p.x", "q", "r", "ns.y", "e0", "e1", "e2", "nope", "errno"):
            gr.add_module(n)
        for n in ("s", "b", "i", "p", "p.x", "q", "r", "ns.y", "e0", "e1", "e2"):
            d = gr.find_node(n).distribution
            ctx.check(d is not None and d.name == "D", "%s: %s" % (n, d))
        for n in ("ns", "nope", "errno"):
            ctx.check(gr.find_node(n).distribution is None, "%s has a distribution" % n)
        ctx.check([d.name for d in gr.distributions()] == ["D"], "distributions")

    def probe_same_name_elsewhere(self, ctx):
        # the distribution of a file that is shadowed
        a = write_files(ctx, {"m.py": "", "p/__init__.py": ""}, sub="a", activate=False)
        b = write_files(ctx, {"m.py": "", "p/__init__.py": "", "k.py": ""}, sub="b", activate=False)
        Dist("B", "1", ["m.py", "p/__init__.py", "k.py"]).write(b, ctx.rng)
        for path, want in (([a, b], [None, None, "B"]), ([b, a], ["B", "B", "B"])):
            sys.path[:] = path + ctx.stdlib
            importlib.invalidate_caches()
            gr = new_graph()
            for n in "mpk":
                gr.add_module(n)
            got = [getattr(gr.find_node(n).distribution, "name", None) for n in "mpk"]
            ctx.check(got == want, "with %s: %s" % (path, got))

    def probe_only_reachable(self, ctx):
        e = write_files(ctx, {"a.py": "import b\nimport c", "b.py": "", "c.py": "", "x.py": "from p import g", "p/__init__.py": "g = 1"})
        for n in "abc":
            Dist("D" + n, "1", [n + ".py"]).write(e, ctx.rng)
        Dist("Dp", "1", ["p/__init__.py"]).write(e, ctx.rng)
        Dist("Dno", "1", ["no.py"]).write(e, ctx.rng)
        gr = new_graph()
        gr.add_module("a")
        node = mg.SourceModule(name="made", loader=None, distribution=next(d for d in mg.all_distributions() if d.name == "Dp"), extension_attributes={}, filename=None,
                               globals_written=set(), globals_read=set(), code=None)
        gr.add_node(node)
        ctx.check(sorted(d.name for d in gr.distributions()) == ["Da", "Db", "Dc"], "reachable: %s" % [d.name for d in gr.distributions()])
        ctx.check(sorted(d.name for d in gr.distributions(False)) == ["Da", "Db", "Dc", "Dp"], "all: %s" % [d.name for d in gr.distributions(False)])

    def probe_distribution_nodes(self, ctx):
        # a distribution that is a root is listed when a module belongs to it
        e = write_files(ctx, {"a.py": "", "b.py": ""})
        Dist("Da", "1", ["a.py"]).write(e, ctx.rng)
        Dist("Empty", "1", []).write(e, ctx.rng)
        gr = new_graph()
        gr.add_distribution("Empty")
        ctx.check(list(gr.distributions()) == [] and list(gr.distributions(False)) == [], "an empty distribution is listed")
        gr.add_distribution("Da")
        ctx.check([d.name for d in gr.distributions()] == ["Da"], "distributions")

    def probe_search_path_at_that_time(self, ctx):
        a = write_files(ctx, {"m.py": ""}, sub="a", activate=False)
        b = write_files(ctx, {"x.py": ""}, sub="b", activate=False)
        Dist("D", "1", ["../a/m.py", "x.py"]).write(b, ctx.rng)
        sys.path[:] = [a] + ctx.stdlib
        importlib.invalidate_caches()
        ctx.check(new_graph().add_module("m").distribution is None, "the distribution is not on the search path")
        sys.path[:] = [a, b] + ctx.stdlib
        importlib.invalidate_caches()
        d = new_graph().add_module("m").distribution
        ctx.check(d is not None and d.name == "D", "distribution in another entry")


CHECK = C18()
