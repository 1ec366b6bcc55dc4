import os

import modulegraph2 as mg

from ..build import new_graph, write_files
from ..snap import observe
from ..stmts import Raw
from ..world import EXTERNAL
from ._world import WorldCheck

FOUND = {"SourceModule", "BytecodeModule", "ExtensionModule", "BuiltinModule", "FrozenModule", "InvalidModule",
         "Package", "NamespacePackage"}

DECOYS = ["pkgutil = pkg_resources = None; use_ = pkgutil, pkg_resources", "pkgutil = 1", "def swig_import_helper(): return _errno", "six = moves = {}; six['moves']",
          "docs_ = 'import itertools'", "# import itertools", "x_ = 'pkgutil', 'pkg_resources', 'six.moves'", "importlib = __name__; importlib",
          "class importlib_: import_module = 'itertools'", "__import__ = None", "lst_ = ['from', 'import', 'itertools']", "os = sys = None; os, sys",
          "def import_(itertools): return itertools", "\"\"\"\nimport itertools\n\"\"\"", "__all__ = ['nosuch_1', 'nosuch_2']",
          "__getattr__ = lambda name: None", "mypyc = __mypyc = 1", "extend_path = declare_namespace = None", "type_: 'itertools.chain' = None"]


class C10(WorldCheck):
    technique = "runtime monitor: every node and edge of observed graphs must be explained by a reference model of the generated program"
    level_note = ("Graphs of random module worlds (packages, namespace packages, bytecode, extensions, broken and missing modules, "
                  "cycles, scripts, implies, excludes) are read through the public API; a node or edge that the independent model of "
                  "the generated statements cannot explain, a node that does not exist on disk, a duplicate or dangling entry is "
                  "reported. Trusts the model (mgv/model.py) and the statement renderer; bounded by the generated shapes.")
    cases = {"quick": 2200, "thorough": 40000}
    rule = ("random worlds of up to ~40 modules; non-trivial when more than 3 edges are reachable; distinct by node kinds and edge attributes")
    kinds = {"extra-node", "extra-edge"}
    minimum = {"nodes": 5000, "edges": 8000, "decoys": 2000}

    def make(self, ctx):
        g = WorldCheck.make(self, ctx)
        r = ctx.rng
        for m in g.world.mods.values():
            if m.kind == "source" and r.random() < 0.4:
                # none of this is an import
                m.tree = m.tree + [Raw(t, simple=False) for t in r.sample(DECOYS, r.randint(1, 3))]
                ctx.count("decoys")
        return g

    def opts(self, ctx):
        r = ctx.rng
        return dict(acyclic=r.random() < 0.6, zips=r.random() < 0.3, weird=r.choice([0.2, 1.0]))

    def implies(self, ctx, g):
        r = ctx.rng
        if r.random() < 0.7:
            return None
        from .c16 import random_implies
        return random_implies(r, g, 3)

    def excludes(self, ctx, g):
        r = ctx.rng
        if r.random() < 0.8:
            return ()
        return r.sample(g.order, min(len(g.order), r.randint(1, 2)))

    def more(self, ctx, g, gr, mdl, exp, act):
        w = g.world
        seen = set()
        nodes = list(gr.nodes())
        for n in nodes:
            ctx.check(n.identifier not in seen, "two nodes are called %r" % n.identifier)
            seen.add(n.identifier)
            ctx.check(gr.find_node(n.identifier) is n, "find_node(%r) gives another node" % n.identifier)
        for a, b, _ in gr.edges():
            ctx.check(a.identifier in seen and b.identifier in seen, "edge %s -> %s leaves the graph" % (a.identifier, b.identifier))
        for r in gr.roots():
            ctx.check(r.identifier in seen, "root %s is not in the graph" % r.identifier)
        for name, cls in act["nodes"].items():
            if cls in FOUND:
                ctx.check(name in w.mods or name in EXTERNAL, "%s %s does not exist" % (cls, name))
            if cls == "MissingModule":
                ctx.check(name not in EXTERNAL and not (name in w.mods and mdl.nodes.get(name) is not None
                                                        and mdl.nodes[name].cls != "MissingModule"),
                          "existing module %s is reported missing" % name)
            node = gr.find_node(name)
            if cls in FOUND and node.filename is not None and name in w.mods:
                ctx.check(os.path.exists(str(node.filename)) or ".zip/" in str(node.filename),
                          "file %s of %s does not exist" % (node.filename, name))
            ctx.check(node.name == name, "node %s has the name %s" % (name, node.name))
            ctx.check(type(node).__name__ != "FrozenModule" or isinstance(node, mg.FrozenModule), "kind")

    def probe_decoys(self, ctx):
        files = {}
        for i, t in enumerate(DECOYS):
            files["m%d.py" % i] = files["p%d/__init__.py" % i] = t + "\n"
        write_files(ctx, files)
        for use in (True, False):
            for fn in files:
                gr = new_graph(use_builtin_hooks=use)
                gr.add_module(fn.split("/")[0].removesuffix(".py"))
                act = observe(gr)
                ctx.check(not act["edges"] and len(act["nodes"]) == 1, "%r gives %s" % (files[fn], sorted(act["nodes"])))


CHECK = C10()
