"""Missing modules."""
import sys

import modulegraph2 as mg

from ..build import new_graph, write_files
from ..model import DEFAULT
from ..snap import dep_tuple, observe
from ._world import WorldCheck

WORDS = ["nope", "nope2", "nope.sub", "no.pe.deep.er", "\u00e9t\u00e9", "class", "1abc", "a b", "-x", "x" * 300, "nope.x.y.z", "__nope__",
         "NOPE", "keyword.nope", "resource.nope", "sys.nope", "errno.x.y", "__future__.nope.sub", "itertools.chain", "keyword.kwlist", "nope.__init__"]


class C13(WorldCheck):
    technique = "runtime monitor: missing nodes and edges of observed graphs against a reference model; lookups of random absent names"
    level_note = ("Random worlds rich in imports of absent names (below missing names, plain modules, packages, namespace packages, extension "
                  "modules, broken modules) in every form; missing nodes, their edges and the survival of all other imports are compared "
                  "with the model, then absent and existing names are added again and checked one by one. Names with empty parts are outside.")
    cases = {"quick": 1600, "thorough": 30000}
    rule = "random worlds; non-trivial with at least 2 missing nodes; distinct by nodes and edge attributes"
    minimum = {"missing_nodes": 3000, "added_missing": 2000}

    def opts(self, ctx):
        r = ctx.rng
        acyclic = r.random() < 0.5
        return dict(acyclic=acyclic, ntops=(2, 4), maxdepth=2, weird=0.2, pmissing=0.5, mix=(0.55, 0.58, 0.62, 0.97, 0.98),
                    nimports=(1, 7), star=acyclic and r.random() < 0.5, zips=r.random() < 0.2)

    def relevant(self, d, ctx, g, mdl):
        if d.kind in ("lost-node", "lost-edge"):
            return True
        if d.kind == "class":
            return "MissingModule" in d[2:]
        if d.kind == "extra-node":
            return d[3] == "MissingModule"
        if d.kind == "extra-edge":
            return "." in d[1][1]
        return False

    def is_nontrivial(self, exp, mdl):
        return list(exp["nodes"].values()).count("MissingModule") >= 2

    def more(self, ctx, g, gr, mdl, exp, act):
        r = ctx.rng
        w = g.world
        ctx.count("missing_nodes", list(act["nodes"].values()).count("MissingModule"))
        hidden = {"__main__"}
        if r.random() < 0.3:
            gr.add_missing_hook(lambda graph, importer, name: None)
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < 0.4:
                name = r.choice(WORDS)
            elif k < 0.7:
                name = r.choice(g.order) + "." + r.choice(["nosub_", "nosub_.deeper", "x1_", "\u00e9_"])
            else:
                name = r.choice(g.order)
            exists = name in w.mods
            if not exists and not (k < 0.7):
                continue
            before = {n.identifier: n for n in gr.nodes()}
            bedges = {(a.identifier, b.identifier): set(map(dep_tuple, d)) for a, b, d in gr.edges()}
            if name in hidden or any(name.startswith(h + ".") for h in hidden):
                continue
            node = gr.add_module(name)
            if not exists:
                ctx.count("added_missing")
                ctx.check(isinstance(node, mg.MissingModule), "add_module(%r), which does not exist, gave %r" % (name, type(node).__name__))
                ctx.check(node.name == name and node.identifier == name, "add_module(%r) gave the node %s" % (name, node.name))
                parent = name.rpartition(".")[0]
                if parent and name not in before:
                    pn = gr.find_node(parent)
                    ctx.check(pn is not None, "no node for the parent of %s" % name)
                    ctx.check(DEFAULT in {dep_tuple(d) for d in gr.edge_data(node, pn)} if pn is not None else True,
                              "no edge from %s to its parent" % name)
                ctx.check(gr.add_module(name) is node, "adding %s again gives another node" % name)
            else:
                ctx.check(not isinstance(node, mg.MissingModule) or "__main__" in name, "existing %s is missing" % name)
            for n, old in before.items():
                ctx.check(gr.find_node(n) is old, "adding %s replaced node %s" % (name, n))
            edges = {(a.identifier, b.identifier): set(map(dep_tuple, d)) for a, b, d in gr.edges()}
            for k2, v in bedges.items():
                ctx.check(v <= edges.get(k2, set()), "adding %s changed edge %s" % (name, k2))

    # --- fixed cases

    def graph_of(self, ctx, files, root="m", **kw):
        write_files(ctx, files)
        gr = new_graph(**kw)
        gr.add_module(root)
        return gr, observe(gr)

    def probe_dotted(self, ctx):
        gr, act = self.graph_of(ctx, {"m.py": "import p.q.nope.deep\nimport errno.x\nimport nope.a.b\nimport keyword\n", "p/__init__.py": "import atexit",
                                      "p/q.py": "import itertools"})
        exp = {"m": "SourceModule", "p": "Package", "p.q": "SourceModule", "p.q.nope": "MissingModule", "p.q.nope.deep": "MissingModule",
               "atexit": "BuiltinModule", "itertools": "BuiltinModule", "errno": "BuiltinModule", "errno.x": "MissingModule",
               "nope": "MissingModule", "nope.a": "MissingModule", "nope.a.b": "MissingModule", "keyword": "SourceModule"}
        ctx.check(act["nodes"] == exp, "nodes are %s" % act["nodes"])

    def probe_each_importer(self, ctx):
        gr, act = self.graph_of(ctx, {"m.py": "import a, b, nope, c", "a.py": "from nope import x", "b.py": "def f():\n  import nope as n",
                                      "c.py": "from nope.sub import y"})
        got = {a for a, b in act["edges"] if b == "nope"}
        ctx.check(got == {"m", "a", "b", "nope.sub"}, "nope is connected to %s" % sorted(got))

    def probe_name_order(self, ctx):
        # finding: the importer asks for a global of the package first, and for a submodule of that name later
        gr, act = self.graph_of(ctx, {"p/__init__.py": "X = 1\n", "m.py": "import p.X\nfrom p import X\n"})
        ctx.check(act["nodes"].get("p.X") == "MissingModule" and ("p.X", "p") in act["edges"] and ("m", "p.X") in act["edges"],
                  "p.X: %s" % sorted(act["edges"]))

    def probe_submodule_of_broken(self, ctx):
        gr, act = self.graph_of(ctx, {"m.py": "import b.x\nimport p.x\nimport e.x\nimport keyword", "b.py": "def f(:", "p/__init__.py": "raise ValueError",
                                      "e.so": ""})
        ctx.check(all(act["nodes"].get(n) == "MissingModule" for n in ("b.x", "p.x", "e.x")) and "keyword" in act["nodes"], "nodes %s" % act["nodes"])

    def probe_module_shadowed_by_directory(self, ctx):
        gr, act = self.graph_of(ctx, {"m.py": "import a.b", "a.py": "", "a/b.py": "", "a/c/d.py": ""})
        # a directory without __init__ does not hide the module
        ctx.check(act["nodes"].get("a") == "SourceModule" and act["nodes"].get("a.b") == "MissingModule", "nodes %s" % act["nodes"])

    def probe_error_in_parent(self, ctx):
        gr, act = self.graph_of(ctx, {"m.py": "import p.nope, p.sub\n", "p/__init__.py": "import nope_at_all", "p/sub.py": "import errno"})
        ctx.check(act["nodes"].get("p.nope") == "MissingModule" and act["nodes"].get("p.sub") == "SourceModule" and "errno" in act["nodes"],
                  "nodes %s" % act["nodes"])

    def probe_many(self, ctx):
        n = 600
        files = {"m%d.py" % k: "".join("import nope%d.sub.x%d\nimport errno, no%d\nfrom p import q%d\n" % (i, i, i, i) for i in range(n)) + "import last%d\n" % k
                 for k in range(3)}
        files["p/__init__.py"] = ""
        files.update({"last%d.py" % k: "" for k in range(3)})
        write_files(ctx, files)
        gr = new_graph()
        nodes = {}
        for k in range(3):
            gr.add_module("m%d" % k)
            for i in range(n):
                for nm in ("nope%d" % i, "nope%d.sub" % i, "nope%d.sub.x%d" % (i, i), "no%d" % i, "p.q%d" % i):
                    x = gr.find_node(nm)
                    ctx.check(type(x) is mg.MissingModule and nodes.setdefault(nm, x) is x, "%s is %r" % (nm, x))
        act = observe(gr)
        for k in range(3):
            out = {b for a, b in act["edges"] if a == "m%d" % k}
            want = {"errno", "p", "last%d" % k} | {f.format(i) for i in range(n) for f in ("nope{0}.sub.x{0}", "no{0}", "p.q{0}")}
            ctx.check(out == want, lambda: "edges of m%d: %s too many, %s lost" % (k, sorted(out - want)[:4], sorted(want - out)[:4]))


CHECK = C13()
