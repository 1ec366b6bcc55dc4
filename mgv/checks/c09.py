"""Chains of parent packages."""
import sys

import modulegraph2 as mg

from ..build import activate, add_roots, model_for, new_graph, write_files
from ..model import DEFAULT
from ..snap import diff, observe, text
from ..stmts import Import
from ..world import Mod
from ._world import WorldCheck
from .c16 import random_implies

EXISTS = {"SourceModule", "BytecodeModule", "ExtensionModule", "BuiltinModule", "FrozenModule", "InvalidModule", "Package",
          "NamespacePackage", "FrozenPackage", "AliasNode", "VirtualNode"}


class C09(WorldCheck):
    technique = "runtime monitor: parent-chain invariant on every observed graph, and the parents' dependencies against a reference model"
    level_note = ("Random worlds of deep packages reached by roots, every import form, implications, aliases, distributions, hook imports, "
                  "import_package and missing hooks; for every node that exists the chain of parents and the edge at each level are "
                  "checked, and parents and their dependencies are compared with the model. Bounded by the generated shapes.")
    cases = {"quick": 1600, "thorough": 30000}
    rule = "random worlds; non-trivial with at least 3 dotted nodes; distinct by nodes and edge attributes"
    minimum = {"chains": 4000, "route_distribution": 100, "route_hook": 100, "route_package": 100, "route_implies": 100, "route_missing_hook": 50, "route_sys_modules": 40}

    def opts(self, ctx):
        r = ctx.rng
        return dict(acyclic=False, layered=r.random() < 0.5, ntops=(1, 3), maxsubs=3, depth=5, weird=0, star=False, reexport=False,
                    zips=r.random() < 0.2, invalid=r.random() < 0.3, sametop=True)

    def implies(self, ctx, g):
        if ctx.rng.random() < 0.5:
            return None
        ctx.count("route_implies")
        return random_implies(ctx.rng, g, 4)

    def relevant(self, d, ctx, g, mdl):
        if d.kind in ("lost-node", "lost-edge"):
            return True
        return False

    def after(self, ctx, g, gr, mdl):
        r = ctx.rng
        k = r.randrange(5)
        if k == 0:
            # a distribution object
            ctx.count("route_distribution")
            names = set(r.sample(g.order, min(len(g.order), r.randint(1, 4))))
            dist = mg.PyPIDistribution("<dist>", "dist", "1", set(), set(names), {})
            gr.add_distribution(dist)
            mdl.nodes["<dist>"] = type("N", (), {"cls": "PyPIDistribution", "mod": None, "globals": set()})()
            mdl.roots.add("<dist>")
            for n in sorted(names):
                mdl.edge("<dist>", mdl.load(n).name, DEFAULT)
            return True
        if k == 1:
            ctx.count("route_hook")
            start = sorted(mdl.roots)[0]
            if mdl.nodes[start].cls == "ExcludedModule":
                return False
            names = r.sample(g.order, min(len(g.order), r.randint(1, 3)))
            with gr.hook_context():
                for n in names:
                    gr.import_module(gr.find_node(start), n)
            for n in names:
                mdl.hook_import(start, n)
            return True
        return False

    def is_nontrivial(self, exp, mdl):
        return sum("." in n for n in exp["nodes"]) >= 3

    def more(self, ctx, g, gr, mdl, exp, act):
        self.chains(ctx, gr)

    def chains(self, ctx, gr):
        act = observe(gr)
        for name, cls in act["nodes"].items():
            if cls not in EXISTS or "." not in name.strip("."):
                continue
            n = name
            while "." in n:
                p = n.rpartition(".")[0]
                ctx.count("chains")
                ctx.check(gr.find_node(p) is not None, "%s is in the graph, its parent %s is not" % (n, p))
                ctx.check(p in act["nodes"], "parent %s of %s is not reachable" % (p, n))
                ctx.check(DEFAULT in act["edges"].get((n, p), ()), "no edge from %s to its parent" % n)
                n = p

    def case(self, ctx):
        r = ctx.rng
        k = r.random()
        if k < 0.8:
            return WorldCheck.case(self, ctx)
        if k < 0.85:
            return self.other_name(ctx)
        g = self.make(ctx)
        w = g.world
        m = w.add(Mod("hooked_", "source"))
        m.tree = [Import("nope.sub"), Import("nope2"), Import("nope.made.up")]
        w.write(ctx.dir)
        activate(ctx, w)
        ctx.note(files=w.dump())
        gr = new_graph()
        if k < 0.93:
            ctx.count("route_package")
            top = r.choice(g.order)
            ctx.note(import_package=top)
            start = gr.add_module(r.choice(["errno", g.order[0]]))
            with gr.hook_context():
                gr.import_package(start, top)
        else:
            ctx.count("route_missing_hook")
            target = r.choice([n for n in g.order] + ["keyword"])
            made = {}

            def hook(graph, importer, name):
                if name.endswith("nope.sub"):
                    return graph.import_module(importer, target) if importer is not None else None
                if name == "nope.made.up":
                    node = mg.SourceModule(name=name, loader=None, distribution=None, extension_attributes={}, filename=None,
                                           globals_written=set(), globals_read=set(), code=None)
                    graph.add_node(node)
                    return node
                return None

            gr.add_missing_hook(hook)
            gr.add_module("hooked_")
            act = observe(gr)
            ctx.check("nope.made.up" in act["nodes"] and ("nope.made.up", "nope.made") in act["edges"], "node made by the hook has no parent: %s" % (act,))
        self.chains(ctx, gr)
        ctx.nontrivial(len(list(gr.nodes())) > 3)
        ctx.sig(sorted((n, c) for n, c in observe(gr)["nodes"].items()))

    def other_name(self, ctx):
        """A package puts a module in sys.modules under another name."""
        r = ctx.rng
        ctx.count("route_sys_modules")
        leaves = ["errno", "itertools", "keyword", "atexit", "_thread"]
        files = {"m.py": ""}
        imports = {}

        def chain(prefix, n, code=""):
            name = ""
            for i in range(n):
                name += "." * bool(i) + "%s%d" % (prefix, i)
                x = imports[name] = r.choice(leaves)
                last = i == n - 1
                files[name.replace(".", "/") + ("/__init__.py" if not last or r.random() < 0.5 or code else ".py")] = "import %s\n" % x + (code if last else "")
            return name

        target = chain("za", r.randint(2, 4))
        alias = "al"
        p = chain("zp", r.randint(1, 3), "import sys as s_, importlib as i_\ns_.modules[__name__ + '.al'] = i_.import_module(%r)\n" % target)
        alias = p + ".al"
        form = r.choice(["import %s", "import %s as x", "from %s import nothing", "def f():\n    import %s", "from {0} import {1}", "root"])
        if form == "root":
            root = alias
        else:
            root = "m"
            files["m.py"] = form.format(p, "al") if "{" in form else form % alias
        write_files(ctx, files)
        ctx.note(files=files, root=root)
        gr = new_graph(excludes=["sys", "importlib"])
        for n in [root] + r.sample(["m", p, target.rpartition(".")[0]], r.choice([0, 0, 1])):
            gr.add_module(n)
        act = observe(gr)
        ctx.check((alias, target) in act["edges"], "%s does not lead to %s: %s" % (alias, target, sorted(act["edges"])))
        self.chains(ctx, gr)
        for n in list(imports):
            ctx.check((n, imports[n]) in act["edges"], "the import of %s by %s is not in the graph" % (imports[n], n))
        ctx.nontrivial(True)
        ctx.sig(sorted(act["nodes"].items()))

    # --- fixed cases

    FILES = {"a/__init__.py": "import errno", "a/b/__init__.py": "import itertools", "a/b/c.py": "import keyword", "a/b/d.so": "",
             "a/ns/e/__init__.py": "", "a/ns/e/f.pyc": b"broken", "m.py": ""}

    def route(self, ctx, do, implies=None, extra=None):
        root = write_files(ctx, {**self.FILES, **(extra or {})})
        gr = new_graph(implies=implies)
        do(gr, root)
        self.chains(ctx, gr)
        act = observe(gr)
        need = {"a", "a.b", "a.b.c", "errno", "itertools", "keyword"}
        ctx.check(need <= set(act["nodes"]), "not reachable: %s" % sorted(need - set(act["nodes"])))
        ctx.check({("a", "errno"), ("a.b", "itertools"), ("a.b.c", "keyword"), ("a.b", "a"), ("a.b.c", "a.b")} <= set(act["edges"]), "edges")

    def probe_root(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_module("a.b.c"))

    def probe_import(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_module("m"), extra={"m.py": "import a.b.c as x"})

    def probe_from(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_module("m"), extra={"m.py": "from a.b import c"})

    def probe_relative(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_module("a.x"), extra={"a/x.py": "from .b import c"})

    def probe_implied(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_module("m"), {"m": ("list", ["a.b.c"])})

    def probe_aliased(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_module("m"), {"m": ("alias", "a.b.c")})

    def probe_virtual(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_module("m"), {"m": ("virtual", "a.b.c")})

    def probe_alias_below_package(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_module("a.b.al"), {"a.b.al": ("alias", "a.b.c")})

    def probe_distribution(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_distribution("D"),
                   extra={"D-1.dist-info/METADATA": "Name: D\nVersion: 1\n", "D-1.dist-info/RECORD": "a/b/c.py,,\n"})

    def probe_hook(self, ctx):
        def do(gr, root):
            n = gr.add_module("m")
            with gr.hook_context():
                gr.import_module(n, "a.b.c")
        self.route(ctx, do)

    def probe_import_package(self, ctx):
        def do(gr, root):
            n = gr.add_module("m")
            with gr.hook_context():
                gr.import_package(n, "a.b")
        self.route(ctx, do)

    def probe_source(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_dependencies_for_source("from a.b import c"))

    def probe_script(self, ctx):
        self.route(ctx, lambda gr, root: gr.add_script(root + "/x.script"), extra={"x.script": "def f():\n  from a.b.c import x"})

    def probe_namespace(self, ctx):
        write_files(ctx, self.FILES)
        gr = new_graph()
        gr.add_module("a.ns.e.f")
        gr.add_module("a.b.d")
        self.chains(ctx, gr)
        ctx.check({"a", "a.ns", "a.ns.e", "a.ns.e.f", "a.b", "a.b.d"} <= set(observe(gr)["nodes"]), "nodes")

    def probe_parent_already_there(self, ctx):
        write_files(ctx, self.FILES)
        gr = new_graph()
        for n in ("a", "a.b", "m", "a.b.c", "a.b.d"):
            gr.add_module(n)
        self.chains(ctx, gr)

    def probe_six_moves(self, ctx):
        from .c35 import SIX
        for n, t in (("html_entities", "html.entities"), ("html_parser", "html.parser"), ("collections_abc", "collections.abc")):
            for form in ("import six.moves.%s", "from six.moves import %s", "from six.moves.%s import x"):
                write_files(ctx, {"six.py": SIX, "m.py": form % n})
                gr = new_graph(excludes=["re", "_markupbase", "sys", "functools", "itertools", "_collections_abc"])
                gr.add_module("m")
                self.chains(ctx, gr)
                ctx.check(t in observe(gr)["nodes"], "no %s for %s" % (t, form % n))

    def probe_broken_parent(self, ctx):
        write_files(ctx, {**self.FILES, "a/__init__.py": "import errno\nraise ValueError\n", "a/b/__init__.py": "def f(:"})
        gr = new_graph()
        gr.add_module("a.b.c")
        self.chains(ctx, gr)
        ctx.check({"a", "a.b", "a.b.c", "errno", "keyword"} <= set(observe(gr)["nodes"]), "nodes")

    def probe_very_deep(self, ctx):
        name = "d0"
        files = {}
        names = []
        for i in range(1, 60):
            files[name.replace(".", "/") + "/__init__.py"] = "import leaf%d\n" % i
            files["leaf%d.py" % i] = ""
            names.append((name, i))
            name += ".d%d" % (i % 10)
        files[name.replace(".", "/") + ".py"] = ""
        files["m.py"] = "from %s import x\n" % name
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("m")
        self.chains(ctx, gr)
        act = observe(gr)
        ctx.check(name in act["nodes"] and act["nodes"][name] == "SourceModule", "the innermost module is not in the graph")
        for n, i in names:
            ctx.check((n, "leaf%d" % i) in act["edges"], "the import of %s" % n)


CHECK = C09()
