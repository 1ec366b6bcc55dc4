"""Missing hooks."""
import modulegraph2 as mg

from ..build import activate, add_roots, new_graph, write_files
from ..gen import gen_world, size_sig
from ..model import Model
from ..snap import diff, observe, text
from ._world import WorldCheck
from .c16 import random_implies


def source_node(name):
    return mg.SourceModule(name=name, loader=None, distribution=None, extension_attributes={}, filename=None, globals_written=set(),
                           globals_read=set(), code=None)


class C21(WorldCheck):
    technique = "runtime monitor: log of every missing-hook call checked against a reference model of which names are missing and who asks"
    level_note = ("Random worlds with many absent names, exclusions and implications, with 1-4 logging missing hooks that decline, supply "
                  "new nodes for a random subset of the names or return an existing node; calls (once per name, order, arguments) and the "
                  "resulting nodes and edges are compared with the model. Hooks that return nodes outside the graph are outside.")
    cases = {"quick": 1600, "thorough": 30000}
    rule = "random worlds; non-trivial with at least 3 calls; distinct by nodes and edges"
    minimum = {"calls": 8000, "supplied": 800, "redirected": 100, "asked_for_root": 100, "declined": 4000}

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, acyclic=False, layered=r.random() < 0.5, ntops=(2, 4), maxsubs=3, nentries=1, weird=0.1, star=False, reexport=False,
                      invalid=r.random() < 0.4, pmissing=0.5, mix=(0.55, 0.58, 0.62, 0.97, 0.98), nimports=(1, 7))
        w = g.world
        w.write(ctx.dir)
        activate(ctx, w)
        imp = random_implies(r, g, 4) if r.random() < 0.5 else None
        exc = [r.choice(g.order + ["errno", "nope", "nope2"]) for _ in range(r.choice([0, 0, 1, 3]))]
        roots = list(g.roots)
        # an anchor that is complete before anything else
        anchor = "anchor_"
        if r.random() < 0.5:
            roots.append(("module", r.choice(["nope", "no.pe", r.choice(g.order) + ".nosub"])))
        roots.insert(0, ("module", "errno"))
        mode = r.choice(["none", "new", "new", "node"])
        dry = self.model(w, roots, imp, exc, {})
        names = sorted({n for i, n in dry.missing_calls})
        provided = {}
        if mode == "new":
            for n in names:
                if r.random() < 0.5:
                    provided[n] = ("new", "SourceModule")
        elif mode == "node" and "errno" in dry.nodes and dry.nodes["errno"].cls == "BuiltinModule" and "errno" not in exc and (
                not imp or "errno" not in imp):
            for n in names:
                if "." not in n and n not in (imp or ()) and not any(x.startswith(n + ".") for x in dry.asked) and r.random() < 0.6:
                    provided[n] = ("node", "errno")
        mdl = self.model(w, roots, imp, exc, provided)
        nh = r.randint(1, 4)
        supplier = {n: r.randrange(nh) for n in provided}
        log = []
        gr = new_graph(implies=imp, excludes=exc, use_builtin_hooks=r.random() < 0.5)
        ctx.note(files=w.dump(), roots=roots, implies=imp, excludes=exc, provided=provided, supplier=supplier)
        made = {}

        def make(h):
            def hook(*args, **kwds):
                ctx.check(len(args) == 3 and not kwds and args[0] is gr, "the hook is called with %r %r" % (args, kwds))
                _, importer, name = args
                log.append((h, importer.identifier if importer is not None else None, name))
                ctx.check(isinstance(name, str), "the hook is called for %r" % (name,))
                ctx.check(gr.find_node(name) is None, "the hook is called for %s, which has a node" % name)
                ctx.check(importer is None or gr.find_node(importer.identifier) is importer,
                          "the hook is called with the importer %r, which is not in the graph" % (importer,))
                if supplier.get(name) == h:
                    kind, what = provided[name]
                    if kind == "new":
                        ctx.count("supplied")
                        node = source_node(name)
                        gr.add_node(node)
                        made[name] = node
                        return node
                    ctx.count("redirected")
                    return gr.find_node(what)
                ctx.count("declined")
                return None
            return hook

        for h in range(nh):
            gr.add_missing_hook(make(h))
        add_roots(gr, w, roots)
        self.judge(ctx, gr, mdl, log, nh, supplier, provided)
        exp = mdl.snapshot()
        act = observe(gr)
        special = set(provided) | {n for n, c in exp["nodes"].items() if c == "MissingModule"} | {
            n for n, c in act["nodes"].items() if c == "MissingModule"}
        d = [x for x in diff(exp, act, attrs=False) if (x.kind.endswith("edge") and (x[1][1] in special or x[1][0] in special))
             or (x.kind.endswith("node") or x.kind == "class") and x[1] in special]
        ctx.check(not d, lambda: "the graph differs: " + text(d))
        for n, node in made.items():
            ctx.check(gr.find_node(n) is node, "the node that the hook supplied for %s is not in the graph" % n)
        ctx.nontrivial(len(log) >= 3)
        ctx.sig(size_sig(exp), sorted(set(log), key=repr))
        ctx.sample({"calls": log[:50], "roots": roots})

    def model(self, w, roots, imp, exc, provided):
        m = Model(w, imp, exc)
        m.provided = provided
        for kind, n in roots:
            if kind == "script":
                m.add_script(w.script_path(n), w.scripts[n])
            else:
                m.add_module(n)
        return m

    def judge(self, ctx, gr, mdl, log, nh, supplier, provided):
        ctx.count("calls", len(log))
        byname = {}
        for h, imp, name in log:
            byname.setdefault(name, []).append((h, imp))
        want = {n for i, n in mdl.missing_calls}
        got = set(byname)
        ctx.check(not got - want, lambda: "missing hooks are called for %s, which can be found" % sorted(got - want)[:5])
        ctx.check(not want - got, lambda: "missing hooks are not called for the missing %s" % sorted(want - got)[:5])
        for name, calls in byname.items():
            stop = supplier.get(name, 0)
            once = list(range(nh - 1, stop - 1, -1))
            hs = [h for h, _ in calls]
            if provided.get(name, ("",))[0] == "node":
                ok = len(hs) % len(once) == 0 and hs == once * (len(hs) // len(once))
            else:
                ok = hs == once
            ctx.check(ok, "hooks called for %s: %s, expected %s" % (name, hs, once))
            for _, imp in calls:
                if imp is None:
                    ctx.count("asked_for_root")
                ctx.check(imp in mdl.asked.get(name, ()), lambda: "the hook for %s is called with the importer %s, but it is imported by %s" % (
                    name, imp, sorted(map(str, mdl.asked.get(name, ())))))
            if provided.get(name, ("",))[0] != "node":
                ctx.check(len({i for _, i in calls}) == 1, "the hooks for %s are called with importers %s" % (name, calls))

    # --- fixed cases

    def logged(self, ctx, files, implies=None, excludes=(), **kw):
        if files:
            write_files(ctx, files)
        gr = new_graph(implies=implies, excludes=excludes, **kw)
        log = []
        gr.add_missing_hook(lambda graph, imp, name: log.append((imp.identifier if imp is not None else None, name)))
        return gr, log

    def probe_roots(self, ctx):
        gr, log = self.logged(ctx, {"a.py": ""})
        gr.add_module("nope.x")
        gr.add_module("nope.x")
        gr.add_module("a.b")
        ctx.check(log == [(None, "nope"), (None, "nope.x"), (None, "a.b")], "calls %s" % log)

    def probe_distribution(self, ctx):
        gr, log = self.logged(ctx, {"a.py": "import zz"})
        gr.add_distribution(mg.PyPIDistribution("<x>", "x", "1", set(), {"a", "nope"}, {}))
        ctx.check(sorted(log, key=repr) == sorted([(None, "nope"), ("a", "zz")], key=repr), "calls %s" % log)

    def probe_hook_import(self, ctx):
        gr, log = self.logged(ctx, {"a.py": ""})
        a = gr.add_module("a")
        with gr.hook_context():
            gr.import_module(a, "nope.sub")
            gr.import_module(a, "nope.sub")
            gr.import_module(a, "nope")
        ctx.check(log == [("a", "nope"), ("a", "nope.sub")], "calls %s" % log)

    def probe_source(self, ctx):
        gr, log = self.logged(ctx, {"p/__init__.py": "X = 1"})
        gr.add_dependencies_for_source("import nope\nfrom p import X, zz\nimport nope\nfrom nope import y\n")
        ctx.check(sorted(log, key=repr) == sorted([(None, "nope"), (None, "p.zz")], key=repr), "calls %s" % log)

    def probe_hidden_names(self, ctx):
        gr, log = self.logged(ctx, {"m.py": "import ex.x, al, vi, ex, __main__, p.q", "real.py": "", "p/__init__.py": "def f(:"},
                              implies={"al": ("alias", "real"), "vi": ("virtual", "real")}, excludes=["ex", "p.q"])
        gr.add_module("m")
        ctx.check(log == [], "calls %s" % log)

    def probe_supplied_then_used(self, ctx):
        # a supplied node is used for later imports without asking again
        write_files(ctx, {"m.py": "import nope\nfrom nope import x\nimport a", "a.py": "import nope as n\ndef f():\n import nope"})
        gr = new_graph()
        log = []

        def hook(graph, imp, name):
            log.append(name)
            node = source_node(name)
            graph.add_node(node)
            return node
        gr.add_missing_hook(hook)
        gr.add_module("m")
        act = observe(gr)
        ctx.check(log == ["nope"] and set(act["edges"]) == {("m", "nope"), ("m", "a"), ("a", "nope")}, "calls %s, edges %s" % (log, act["edges"]))

    def probe_falsy_node(self, ctx):
        write_files(ctx, {"m.py": "import nope"})

        class Odd(mg.SourceModule):
            def __bool__(self):
                return False
        gr = new_graph()
        gr.add_missing_hook(lambda *a: ctx.violation("an earlier hook is called although a later one supplied a node"))

        def hook(graph, imp, name):
            node = Odd(name=name, loader=None, distribution=None, extension_attributes={}, filename=None, globals_written=set(),
                       globals_read=set(), code=None)
            graph.add_node(node)
            return node
        gr.add_missing_hook(hook)
        gr.add_module("m")
        ctx.check(type(gr.find_node("nope")) is Odd, "another node")

    def probe_hook_uses_graph(self, ctx):
        # a hook that imports something else for the missing name
        write_files(ctx, {"m.py": "import nope, other", "stub.py": "import dep, nope2", "dep.py": "", "other.py": ""})
        gr = new_graph()
        log = []

        def hook(graph, imp, name):
            log.append(name)
            if name == "nope":
                return graph.import_module(imp, "stub")
        gr.add_missing_hook(hook)
        gr.add_module("m")
        act = observe(gr)
        ctx.check(sorted(log) == ["nope", "nope2"] and set(act["nodes"]) == {"m", "stub", "dep", "nope2", "other"}, "calls %s, nodes %s" % (log, act["nodes"]))

    def probe_hook_changes_missing_list(self, ctx):
        # hooks that are added by a hook are for later names
        gr, log = self.logged(ctx, {"m.py": "import n1, n2"})
        late = []

        def adder(graph, imp, name):
            if not late:
                late.append("added")
                graph.add_missing_hook(lambda g2, i2, n2: late.append(n2))
        gr.add_missing_hook(adder)
        gr.add_module("m")
        names = [n for i, n in log]
        ctx.check(sorted(names) == ["n1", "n2"] and late == ["added", names[1]], "calls %s, late %s" % (log, late))


CHECK = C21()
