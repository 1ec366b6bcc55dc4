"""Post-processing hooks."""
import modulegraph2 as mg

from ..build import activate, new_graph, write_files
from ..gen import size_sig
from ..model import Model
from ..snap import cls_of, dep_tuple, edge_key
from ..stmts import From, Import, Star
from ._world import WorldCheck
from .c16 import random_implies


def requests(r, g, n):
    """name -> names that a hook imports when that name is processed"""
    pool = g.order + ["errno", "atexit", "nope", "nope2", "nope.sub"]
    ask = g.order + ["errno", "keyword", "itertools", "nope_h", "nope_h.sub", "nope"]
    res = {}
    for _ in range(n):
        res.setdefault(r.choice(pool), []).append(r.choice(ask))
    return res


def run_requests(mdl, table, done):
    """The imports that the hooks ask for, until there is nothing more."""
    more = True
    while more:
        more = False
        for name in list(mdl.nodes):
            if name not in done:
                done.add(name)
                more = True
                for t in table.get(name, ()):
                    mdl.hook_import(name, t)


class C20(WorldCheck):
    technique = "runtime monitor: log of every hook call with the graph's edges at the time, checked online and against a reference model"
    level_note = ("Random worlds (cycles, broken and missing modules, exclusions, implications) built by random sequences of operations with "
                  "1-4 recording hooks, added before or between them, some of which request more imports; every call is logged with the "
                  "node's edges at that time. Nodes that hooks themselves insert are outside.")
    cases = {"quick": 1600, "thorough": 30000}
    rule = "random worlds with logging hooks; non-trivial with at least 8 calls; distinct by nodes and edges"
    minimum = {"calls": 20000, "requested": 500, "statement_edges": 10000, "calls_AliasNode": 50, "calls_VirtualNode": 50,
               "calls_ExcludedModule": 100, "calls_MissingModule": 1000, "calls_InvalidRelativeImport": 100, "calls_Script": 300,
               "calls_NamespacePackage": 100, "calls_InvalidModule": 50, "calls_Package": 500, "late_hooks": 100}

    def case(self, ctx):
        r = ctx.rng
        g = self.gen(ctx)
        w = g.world
        w.write(ctx.dir)
        activate(ctx, w)
        imp = random_implies(r, g, 3) if r.random() < 0.4 else None
        exc = [r.choice(g.order + ["errno", "nope"]) for _ in range(r.choice([0, 0, 1, 2]))]
        table = requests(r, g, r.randint(1, 6)) if r.random() < 0.5 else {}
        asker = r.randrange(3)
        gr = new_graph(implies=imp, excludes=exc, use_builtin_hooks=r.random() < 0.5)
        mdl = Model(w, imp, exc)
        log = []
        seen_at = []      # the nodes that were there when a hook was added

        def add_hook():
            h = len(seen_at)
            seen_at.append({n.identifier for n in gr.nodes()})

            def hook(*args, **kwds):
                ctx.check(len(args) == 2 and not kwds and args[0] is gr, "the hook is called with %r %r" % (args, kwds))
                node = args[1]
                ctx.check(isinstance(node, mg.BaseNode) if hasattr(mg, "BaseNode") else hasattr(node, "identifier"),
                          "the hook is called for %r" % (node,))
                ctx.check(gr.find_node(node.identifier) is node, "the hook is called for %s, which is not in the graph" % node.identifier)
                log.append((h, node.identifier, cls_of(node), {(t.identifier, dep_tuple(d)) for ds, t in gr.outgoing(node) for d in ds}))
                if h == asker or (h == 0 and asker >= nhooks):
                    for t in table.get(node.identifier, ()):
                        ctx.count("requested")
                        gr.import_module(node, t)
            gr.add_post_processing_hook(hook)

        nhooks = r.randint(1, 4)
        ctx.note(files=w.dump(), implies=imp, excludes=exc, table=table)
        first = r.randint(1, nhooks)
        ops = list(g.roots)
        for _ in range(r.randint(0, 2)):
            ops.append(("module", r.choice(g.order + ["nope", "errno"])))
        if r.random() < 0.3:
            ops.append(("source", None))
        if r.random() < 0.3:
            ops.append(("context", r.choice(g.order)))
        if r.random() < 0.2:
            ops.append(("dist", None))
        later = [r.randrange(1, len(ops) + 1) for _ in range(nhooks - first)]
        # before the asking hook is there nothing is requested
        askidx = asker if asker < nhooks else 0
        done = set()
        started = False
        desc = []
        for i in range(first):
            add_hook()
        bound = []      # (operation index) only for the replay
        for i, (kind, name) in enumerate(ops):
            for k in later:
                if k == i:
                    ctx.count("late_hooks")
                    add_hook()
            if not started and askidx < len(seen_at):
                started = True
                done |= set(mdl.nodes)
            desc.append((kind, name))
            if kind == "script":
                if w.script_path(name) in mdl.nodes:
                    continue
                gr.add_script(w.script_path(name))
                mdl.add_script(w.script_path(name), w.scripts[name])
            elif kind == "module":
                gr.add_module(name)
                mdl.add_module(name)
            elif kind == "source":
                gr.add_dependencies_for_source("import errno, nope_s\nfrom ..x import y\n")
                for n in ("errno", "nope_s"):
                    mdl.add_module(n)
                from ..model import Node
                if "..x" not in mdl.nodes:
                    mdl.add(Node("..x", "InvalidRelativeImport"))
                mdl.roots.add("..x")
            elif kind == "context":
                src = r.choice(sorted(n.identifier for n in gr.roots()) or [None]) if any(True for _ in gr.roots()) else None
                if src is None:
                    continue
                if src not in mdl.nodes:
                    continue
                with gr.hook_context():
                    gr.import_module(gr.find_node(src), name)
                mdl.hook_import(src, name)
            elif kind == "dist":
                names = sorted(r.sample(g.order, min(len(g.order), 2)))
                gr.add_distribution(mg.PyPIDistribution("<dist>", "dist", "1", set(), set(names), {}))
                for n in names:
                    mdl.load(n)
            if started:
                run_requests(mdl, table, done)
        ctx.note(ops=desc)
        self.judge(ctx, gr, mdl, log, seen_at)
        ctx.sig(size_sig(mdl.snapshot()))

    def gen(self, ctx):
        from ..gen import gen_world
        r = ctx.rng
        return gen_world(r, acyclic=False, layered=r.random() < 0.5, ntops=(2, 4), maxsubs=3, nentries=1, weird=0.1, star=False, reexport=False,
                         invalid=r.random() < 0.5, scripts=(0, 2))

    def judge(self, ctx, gr, mdl, log, seen_at):
        calls = {}
        for h, name, cls, out in log:
            calls.setdefault(name, []).append(h)
            ctx.count("calls")
            ctx.count("calls_" + cls)
        ctx.nontrivial(len(log) >= 8)
        for n in gr.nodes():
            if isinstance(n, mg.PyPIDistribution):
                continue
            want = [h for h in reversed(range(len(seen_at))) if n.identifier not in seen_at[h]]
            got = calls.get(n.identifier, [])
            ctx.check(got == want, "hooks called for %s (%s): %s, expected %s" % (n.identifier, cls_of(n), got, want))
        # the edges of import statements at the time of the call
        stmts = {}
        for (a, b), whys in mdl.why.items():
            for dep, why in whys:
                if why is not None and not isinstance(why, str):
                    stmts.setdefault(a, set()).add((b, dep))
        for h, name, cls, out in log:
            if name in mdl.nodes:
                lost = stmts.get(name, set()) - out
                ctx.count("statement_edges", len(stmts.get(name, ())))
                ctx.check(not lost, "the hook was called for %s before these edges for its import statements were there: %s" % (
                    name, sorted(map(repr, lost))[:5]))
        ctx.sample({"calls": [(h, n) for h, n, c, o in log][:60]})

    # --- fixed cases

    def logged(self, ctx, files, implies=None, excludes=(), **kw):
        write_files(ctx, files)
        gr = new_graph(implies=implies, excludes=excludes, **kw)
        log = []
        gr.add_post_processing_hook(lambda graph, node: log.append(node.identifier))
        return gr, log

    def probe_distribution(self, ctx):
        gr, log = self.logged(ctx, {"a.py": "import b", "b.py": "", "p/__init__.py": "from . import c", "p/c.py": "import a"})
        gr.add_distribution(mg.PyPIDistribution("<x>", "x", "1", set(), {"a", "p", "nope"}, {}))
        ctx.check(sorted(log) == ["a", "b", "nope", "p", "p.c"], "calls %s" % log)

    def probe_import_package(self, ctx):
        gr, log = self.logged(ctx, {"m.py": "", "p/__init__.py": "from . import c", "p/c.py": "import a", "p/q/__init__.py": "", "p/q/r.py": "import errno",
                                    "a.py": ""})
        m = gr.add_module("m")
        with gr.hook_context():
            gr.import_package(m, "p")
        want = sorted(n.identifier for n in gr.nodes())
        ctx.check(sorted(log) == want and "p.q.r" in want, "calls %s, nodes %s" % (log, want))

    def probe_aliased_in_sys_modules(self, ctx):
        gr, log = self.logged(ctx, {"m.py": "import os.path"})
        gr.add_module("m")
        names = [n.identifier for n in gr.nodes()]
        ctx.check(sorted(log) == sorted(names) and "os.path" in names, "calls %s" % [n for n in set(log) if log.count(n) != 1])

    def probe_orphans(self, ctx):
        gr, log = self.logged(ctx, {"m.py": "from p import X, nope", "p/__init__.py": "X = 1"})
        gr.add_module("m")
        want = sorted(n.identifier for n in gr.nodes())
        ctx.check(sorted(log) == want, "calls %s, nodes %s" % (log, want))

    def probe_hook_chain(self, ctx):
        # each call asks for one more
        n = 300
        write_files(ctx, {"m%d.py" % i: "import k%d" % i for i in range(n)} | {"k%d.py" % i: "" for i in range(n)})
        gr = new_graph()
        log = []

        def hook(graph, node):
            log.append(node.identifier)
            if node.identifier.startswith("k") and int(node.identifier[1:]) + 1 < n:
                graph.import_module(node, "m%d" % (int(node.identifier[1:]) + 1))
        gr.add_post_processing_hook(hook)
        gr.add_module("m0")
        ctx.check(sorted(log) == sorted(["m%d" % i for i in range(n)] + ["k%d" % i for i in range(n)]), "%d calls" % len(log))

    def probe_hook_added_by_hook(self, ctx):
        gr, log = self.logged(ctx, {"m.py": "import a", "a.py": "import b", "b.py": ""})
        late = []

        def adder(graph, node):
            if node.identifier == "b":
                graph.add_post_processing_hook(lambda g2, n2: late.append(n2.identifier))
        gr.add_post_processing_hook(adder)
        gr.add_module("m")
        ctx.check(sorted(log) == ["a", "b", "m"], "calls %s" % log)
        ctx.check([x for x in late if x != "b"] == ["a", "m"], "calls of a hook added on the way: %s" % late)


CHECK = C20()
