"""Adding distributions."""
import os

import modulegraph2 as mg

from ..build import activate, model_for, new_graph, add_roots, write_files
from ..check import Check
from ..dists import Dist
from ..gen import gen_world, size_sig
from ..model import DEFAULT, Node
from ..snap import diff, observe, text
from .c16 import random_implies


class C19(Check):
    technique = "runtime monitor: graphs after adding distributions against a reference model, with snapshots around repeated and failing additions"
    level_note = ("Random worlds installed as several distributions (by name or as objects, with missing files, unimportable rows, excluded and implied names), added in "
                  "random order between other roots, repeatedly, and with unknown names; nodes, edges and roots must be the model's, repetitions and unknown names must "
                  "change nothing. Bounded by the generated shapes.")
    cases = {"quick": 1500, "thorough": 30000}
    rule = "random worlds with distributions; non-trivial with at least 3 modules added by a distribution; distinct by nodes and edges"
    minimum = {"added": 2000, "added_modules": 5000, "repeated": 1000, "unknown": 1000, "objects": 300, "same_name": 100}

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, weird=0, acyclic=False, star=False, maxdepth=2, nimports=(0, 3), invalid=r.random() < 0.3, reexport=False, nentries=r.choice([1, 2]), scripts=(0, 1))
        w = g.world
        imp = random_implies(r, g, 3) if r.random() < 0.25 else None
        exc = r.sample(g.order, 1) if r.random() < 0.2 else ()
        w.write(ctx.dir)
        dists = []
        mods = [m for m in w.mods.values() if m.kind != "nspkg"]
        r.shuffle(mods)
        for i in range(r.randint(1, 3)):
            d = Dist(r.choice(["D%d", "dist-%d", "Name.With.Dots%d", "alpha-%d"]) % i, str(i))
            if dists and r.random() < 0.3:
                # another version of the same distribution
                d = Dist(dists[0].name, str(i))
            e = r.randrange(len(w.entries))
            d.rows = [m.relpath() for m in mods[i::4] if m.entry == e]
            d.rows += r.sample(["README", "../x.py", "nothere_%d.py" % i, "nope/__init__.py", "nopkg%d/sub/x.py" % i, "a.b.py", "d/__pycache__/x.pyc", d.dirname + "/RECORD", "errno.py"], r.randrange(4))
            d.write(os.path.join(ctx.dir, w.entries[e]), r)
            dists.append(d)
        activate(ctx, w)
        ctx.note(files=w.dump(), roots=g.roots, rows={d.dirname: d.rows for d in dists}, implies=imp, excludes=list(exc))
        mdl = model_for(w, [], imp, exc)
        gr = new_graph(implies=imp, excludes=exc)
        ops = [("root", x) for x in g.roots] + [("dist", d) for d in dists if r.random() < 0.8] or [("dist", dists[0])]
        r.shuffle(ops)
        done = {}
        for op, x in ops:
            if op == "root":
                add_roots(gr, w, [x])
                mdl.add_script(w.script_path(x[1]), w.scripts[x[1]]) if x[0] == "script" else mdl.add_module(x[1])
                continue
            unique = sum(d.name == x.name for d in dists) == 1
            by_object = r.random() < 0.3 or not unique
            if by_object:
                ctx.count("objects")
                ctx.count("same_name", not unique)
                arg = next(d for d in mg.all_distributions() if (d.name, d.version) == (x.name, x.version))
            else:
                arg = x.name
            node = gr.add_distribution(arg)
            ctx.check(type(node) is mg.PyPIDistribution and (node.name, node.version) == (x.name, x.version) and node in gr.roots(), "add_distribution gave %r" % (node,))
            done[x.version] = node
            ctx.count("added")
            ident = node.identifier
            mdl.nodes[ident] = Node(ident, "PyPIDistribution")
            mdl.roots.add(ident)
            for n in sorted(x.import_names()):
                mdl.edge(ident, mdl.load(n).name, DEFAULT)
                ctx.count("added_modules")
            if r.random() < 0.6:
                ctx.count("unknown")
                before = observe(gr, info=True, everything=True)
                for bad in r.sample(["nosuchdist", "", "D", x.name.upper() if x.name.upper() != x.name else "zz", x.name + " ", x.dirname], 2):
                    try:
                        gr.add_distribution(bad)
                    except ValueError:
                        pass
                    else:
                        ctx.violation("the unknown distribution %r is accepted" % bad)
                ctx.check(observe(gr, info=True, everything=True) == before, "an unknown distribution changes the graph")
            if r.random() < 0.6:
                ctx.count("repeated")
                before = observe(gr, info=True, everything=True)
                y = r.choice(sorted(done))
                nm = done[y].name
                again = gr.add_distribution(nm if r.random() < 0.5 and sum(d.name == nm for d in dists) == 1 else done[y])
                ctx.check(again is done[y], "adding %s again gives another node" % y)
                ctx.check(observe(gr, info=True, everything=True) == before, "adding %s again changes the graph" % y)
        exp, act = mdl.snapshot(), observe(gr)
        d = diff(exp, act)
        ctx.check(not d, lambda: "the graph differs from the model: " + text(d), differences=[str(x) for x in d[:30]])
        n = 0
        for x in dists:
            if x.version in done:
                got = {b for (a, b) in act["edges"] if a == done[x.version].identifier}
                n += len(got)
                ctx.check(got == x.import_names(), lambda: "edges of %s go to %s, its modules are %s" % (x.name, sorted(got), sorted(x.import_names())))
        ctx.nontrivial(n >= 3)
        ctx.sig(size_sig({"nodes": {k: v for k, v in act["nodes"].items()}, "edges": {k: sorted(map(str, v)) for k, v in act["edges"].items()}}))
        ctx.sample({"rows": {d.dirname: d.rows for d in dists}, "nodes": act["nodes"]})

    # --- fixed cases

    def probe_everything(self, ctx):
        e = write_files(ctx, {"m.py": "import errno", "p/__init__.py": "from . import q", "p/q.py": "import k", "k.py": "", "p/r/__init__.py": "", "p/r/s.py": "import nope", "other.py": ""})
        Dist("Foo-Bar", "1.0", ["m.py", "p/__init__.py", "p/q.py", "p/r/__init__.py", "p/r/s.py", "p/data.txt", "gone.py", "../bin/x.py"]).write(e, ctx.rng)
        gr = new_graph()
        d = gr.add_distribution("Foo-Bar")
        act = observe(gr)
        i = d.identifier
        ctx.check({b for a, b in act["edges"] if a == i} == {"m", "p", "p.q", "p.r", "p.r.s", "gone"}, "edges %s" % sorted(act["edges"]))
        ctx.check(all(v == {DEFAULT} for (a, b), v in act["edges"].items() if a == i), "attributes")
        ctx.check(set(act["nodes"]) == {i, "m", "errno", "p", "p.q", "k", "p.r", "p.r.s", "nope", "gone"}, "nodes %s" % sorted(act["nodes"]))
        ctx.check(act["roots"] == [i], "roots %s" % act["roots"])

    def probe_unknown(self, ctx):
        e = write_files(ctx, {"m.py": ""})
        Dist("Foo", "1.0", ["m.py"]).write(e, ctx.rng)
        gr = new_graph()
        for bad in ("foo", "Fo", "Foo-1.0", "", "m"):
            try:
                gr.add_distribution(bad)
            except ValueError:
                pass
            else:
                ctx.violation("%r is accepted" % bad)
        ctx.check(list(gr.nodes()) == [] and list(gr.roots()) == [], "the graph is not empty")

    def probe_after_its_modules(self, ctx):
        e = write_files(ctx, {"a.py": "import b", "b.py": "import c", "c.py": ""})
        Dist("D", "1.0", ["a.py", "c.py"]).write(e, ctx.rng)
        gr = new_graph()
        gr.add_module("a")
        gr.add_module("c")
        d = gr.add_distribution("D")
        ctx.check(gr.add_distribution(d) is d and gr.add_distribution("D") is d, "again")
        act = observe(gr)
        ctx.check(set(act["edges"]) == {("a", "b"), ("b", "c"), (d.identifier, "a"), (d.identifier, "c")}, "edges %s" % sorted(act["edges"]))

    def probe_large(self, ctx):
        files = {"m%d.py" % i: "import m%d" % (i + 1) for i in range(600)}
        e = write_files(ctx, files)
        Dist("D", "1.0", sorted(files)).write(e, ctx.rng)
        gr = new_graph()
        d = gr.add_distribution("D")
        act = observe(gr)
        ctx.check(len(act["nodes"]) == 602 and len(act["edges"]) == 1200, "%d nodes, %d edges" % (len(act["nodes"]), len(act["edges"])))


CHECK = C19()
