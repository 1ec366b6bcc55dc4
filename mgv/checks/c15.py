"""Excluded modules."""
import modulegraph2 as mg

from ..build import activate, new_graph, to_implies, write_files
from ..model import DEFAULT
from ..snap import diff, observe, text
from ._world import WorldCheck
from .c16 import random_implies


class C15(WorldCheck):
    technique = "runtime monitor: observed graph against a reference model with excluded names, plus invariants on excluded nodes"
    level_note = ("Random worlds, implications and excluded names (existing, missing, external, packages, submodules, targets of "
                  "implications), configured in random order and reached by roots, every import form, implications and hook imports; the "
                  "whole graph is compared with the independent model and excluded nodes are checked to have no dependencies but "
                  "their parent. Trusts the model; bounded by the generated shapes.")
    cases = {"quick": 2000, "thorough": 40000}
    rule = "random worlds with 1-4 excluded names; non-trivial when an excluded node is reachable; distinct by nodes and edge attributes"
    minimum = {"excluded_nodes": 800}

    def opts(self, ctx):
        return dict(acyclic=False, layered=ctx.rng.random() < 0.6, ntops=(2, 4), maxsubs=3, nentries=1, weird=0.2, star=False,
                    reexport=False, invalid=False)

    def implies(self, ctx, g):
        return random_implies(ctx.rng, g, 3) if ctx.rng.random() < 0.5 else None

    def excludes(self, ctx, g):
        r = ctx.rng
        res = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.7:
                res.append(r.choice(g.order))
            elif k < 0.8:
                # a name that starts like an existing one
                n = r.choice(g.order)
                res.append(r.choice([n + "x", n[:-1] or "q", n + ".nosub", n.rpartition(".")[2]]))
            else:
                res.append(r.choice(["nope", "errno", "keyword", "nope.sub", "no", "atexit", "nope3"]))
        return list(dict.fromkeys(res))

    def graph(self, ctx, imp, exc):
        r = ctx.rng
        gr = new_graph()
        steps = [lambda: gr.add_implies(to_implies(imp)), lambda: gr.add_excludes(exc)]
        if r.random() < 0.3 and len(exc) > 1:
            steps[1:] = [lambda: gr.add_excludes(exc[:1]), lambda: gr.add_excludes(iter(exc[1:]))]
        if r.random() < 0.5:
            steps.reverse()
        for s in steps:
            s()
        return gr

    def after(self, ctx, g, gr, mdl):
        r = ctx.rng
        if r.random() < 0.6:
            return False
        start = r.choice(sorted(n for n in mdl.reachable() if mdl.nodes[n].cls != "ExcludedModule") or [mdl.snapshot()["roots"][0]])
        names = [r.choice(g.order + list(ctx.detail["excludes"])) for _ in range(r.randint(1, 2))]
        ctx.note(hook_imports=[start, names])
        with gr.hook_context():
            for n in names:
                gr.import_module(gr.find_node(start), n)
        for n in names:
            mdl.hook_import(start, n)
        return True

    def is_nontrivial(self, exp, mdl):
        return "ExcludedModule" in exp["nodes"].values()

    def more(self, ctx, g, gr, mdl, exp, act):
        exc = set(ctx.detail["excludes"])
        for n, cls in act["nodes"].items():
            below = {n} | {".".join(n.split(".")[:i]) for i in range(1, n.count(".") + 1)}
            if below & exc:
                ctx.count("excluded_nodes")
                parent = n.rpartition(".")[0]
                ctx.check(cls == "ExcludedModule" or cls == "MissingModule" and act["nodes"].get(parent) == "MissingModule",
                          "excluded %s is a %s" % (n, cls))
                for (a, b) in act["edges"]:
                    ctx.check(a != n or b == parent or a in ctx.detail.get("hook_imports", ())[:1], "excluded %s depends on %s" % (a, b))

    def probe_distribution(self, ctx):
        write_files(ctx, {"a.py": "import errno", "b/__init__.py": "import keyword", "b/c.py": "import atexit",
                          "D-1.dist-info/METADATA": "Metadata-Version: 2.1\nName: D\nVersion: 1\n",
                          "D-1.dist-info/RECORD": "a.py,,\nb/__init__.py,,\nb/c.py,,\n"})
        gr = new_graph(excludes=["b"])
        gr.add_distribution("D")
        act = observe(gr)
        ctx.check(act["nodes"].get("b") == "ExcludedModule" and act["nodes"].get("b.c") == "ExcludedModule"
                  and "atexit" not in act["nodes"] and "keyword" not in act["nodes"] and "errno" in act["nodes"],
                  "excludes are not honoured for distributions: %s" % sorted(act["nodes"].items()))

    def probe_missing_hook(self, ctx):
        write_files(ctx, {"a.py": "import x\nimport y\nimport x.z\n"})
        gr = new_graph(excludes=["x"])
        seen = []
        gr.add_missing_hook(lambda g, i, n: seen.append(n))
        gr.add_module("a")
        ctx.check(seen == ["y"], "missing hooks were called for %s" % seen)

    def probe_import_package(self, ctx):
        write_files(ctx, {"p/__init__.py": "", "p/a.py": "import errno", "p/q/__init__.py": "", "p/q/r.py": "import keyword", "m.py": ""})
        gr = new_graph(excludes=["p.a", "p.q"])
        n = gr.add_module("m")
        with gr.hook_context():
            gr.import_package(n, "p")
        act = observe(gr)
        ctx.check(act["nodes"].get("p.a") == "ExcludedModule" and act["nodes"].get("p.q") == "ExcludedModule"
                  and "errno" not in act["nodes"] and "keyword" not in act["nodes"],
                  "excludes are not honoured by import_package: %s" % sorted(act["nodes"].items()))

    def probe_many(self, ctx):
        n = 500
        files = {"m.py": "".join("import e%d, e%d.sub.x\nfrom k%d import a\n" % (i, i, i) for i in range(n))}
        for i in range(n):
            files["e%d/__init__.py" % i] = "import dep%d" % i
            files["e%d/sub/__init__.py" % i] = files["e%d/sub/x.py" % i] = "import dep%d" % i
            files["dep%d.py" % i] = files["k%d.py" % i] = ""
        write_files(ctx, files)
        gr = new_graph(excludes=["e%d" % i for i in range(n)])
        gr.add_module("m")
        act = observe(gr)
        want = {"m": "SourceModule"}
        for i in range(n):
            want.update({"k%d" % i: "SourceModule", "e%d" % i: "ExcludedModule", "e%d.sub" % i: "ExcludedModule", "e%d.sub.x" % i: "ExcludedModule"})
        ctx.check(act["nodes"] == want, lambda: "nodes differ: %s" % sorted(set(want.items()) ^ set(act["nodes"].items()))[:6])


CHECK = C15()
