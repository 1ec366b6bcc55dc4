"""Several graphs in one process."""
import contextlib
import os
import sys

import modulegraph2 as mg

from ..build import activate, isolated, to_implies
from ..check import Check
from ..dists import Dist
from ..gen import gen_world
from ..snap import diff, edge_key, observe, text
from .c16 import random_implies


class Builder:
    """Carries out the operations for one graph, one by one."""

    def __init__(self, ident, ops, opts, world):
        self.ident, self.ops, self.world = ident, list(ops), world
        self.gr = None
        self.opts = opts
        self.log = []
        self.errors = []
        self.at = 0
        self.inside = None      # called from within the hooks of this graph

    def more(self):
        return self.at < len(self.ops)

    def step(self):
        op = self.ops[self.at]
        self.at += 1
        if self.gr is None:
            self.gr = mg.ModuleGraph(**self.opts)
        try:
            getattr(self, "do_" + op[0])(*op[1:])
        except (ValueError, TypeError, SyntaxError, OSError) as exc:
            self.errors.append((op[0], type(exc).__name__, str(exc)))

    def do_excludes(self, names):
        self.gr.add_excludes(names)

    def do_implies(self, imp):
        self.gr.add_implies(to_implies(imp))

    def do_module(self, n):
        self.gr.add_module(n)

    def do_script(self, n):
        self.gr.add_script(self.world.script_path(n))

    def do_dist(self, n):
        d = self.gr.add_distribution(n)
        self.log.append(("dist", d.name, d.version, sorted(d.import_names)))

    def do_source(self, s):
        self.gr.add_dependencies_for_source(s)

    def do_package(self, n):
        roots = sorted(self.gr.roots(), key=lambda x: x.identifier)
        if roots:
            with self.gr.hook_context():
                self.gr.import_package(roots[0], n)

    def do_remove(self):
        roots = sorted(self.gr.roots(), key=lambda x: x.identifier)
        if roots:
            self.gr.remove_root(roots[0])

    def do_look(self):
        self.log.append(("look", sorted(n.identifier for n in self.gr.iter_graph()), sorted(d.name for d in self.gr.distributions(False))))

    def do_post(self, k, act):
        def hook(gr, node):
            self.log.append(("post", k, gr is self.gr, node.identifier))
            if act == "import" and node.identifier.endswith(("a", "1")):
                gr.import_module(node, "errno")
            elif act == "edge":
                for r in sorted(gr.roots(), key=lambda x: x.identifier)[:1]:
                    gr.add_edge(node, r, mg.DependencyInfo(True, False, False, "hook%d" % k))
            if act == "others" and self.inside:
                self.inside()
        self.gr.add_post_processing_hook(hook)

    def do_missing(self, k, act):
        def hook(gr, importer, name):
            self.log.append(("missing", k, gr is self.gr, importer.identifier if importer is not None else None, name))
            if act == "others" and self.inside:
                self.inside()
            if act == "supply" and sum(map(ord, name)) % 3 == 0:
                node = mg.FrozenModule(name=name, loader=None, distribution=None, extension_attributes={}, filename=None, globals_written=set(), globals_read=set(), code=None)
                gr.add_node(node)
                return node
            return None
        self.gr.add_missing_hook(hook)

    def result(self):
        if self.gr is None:
            return None
        o = observe(self.gr, None, True, everything=True)
        o["log"], o["errors"] = self.log, self.errors
        o["iter"] = sorted(n.identifier for n in self.gr.iter_graph())
        return o


class C36(Check):
    technique = "runtime monitor: complete observations and hook logs of graphs built alone and of the same graphs built interleaved in one process, compared"
    level_note = ("2-4 graphs with random sequences of up to 12 operations (configuration, roots of all kinds, hooks, package imports, sources, failing calls) over one world; "
                  "random schedules, including whole operations from within hooks of other graphs and repetitions; nodes, edges, attributes, roots, errors and hook calls must be "
                  "those of a process that builds the graph alone.")
    cases = {"quick": 420, "thorough": 8000}
    rule = "random worlds, operation sequences and schedules; non-trivial with two graphs of 4 nodes and 4 switches; distinct by operations, schedule and results"
    minimum = {"graphs": 1000, "switches": 2500, "inside_hooks": 200, "hook_calls": 5000, "distributions": 150, "repeated": 150, "errors": 30}

    def ops(self, r, g, dists):
        w = g.world
        ops = []
        mods = g.order + ["nothing", g.order[0] + ".nosub"]
        if r.random() < 0.4:
            ops.append(("excludes", r.sample(g.order, r.randint(1, min(2, len(g.order))))))
        if r.random() < 0.4:
            ops.append(("implies", random_implies(r, g, 3)))
        for k in range(r.randrange(3)):
            ops.append(("post", k, r.choice(["log", "import", "edge", "others", "others"])))
        for k in range(r.randrange(3)):
            ops.append(("missing", k, r.choice(["log", "supply", "others"])))
        r.shuffle(ops)
        for _ in range(r.randint(1, 5)):
            k = r.random()
            if k < 0.45 or (k < 0.6 and not w.scripts):
                ops.append(("module", r.choice(mods)))
            elif k < 0.6:
                ops.append(("script", r.choice(sorted(w.scripts) + ["not there.py"])))
            elif k < 0.75 and dists:
                ops.append(("dist", r.choice(dists + ["no-such-dist"])))
            elif k < 0.82:
                ops.append(("source", r.choice(["import %s\n" % r.choice(g.order), "from %s import x1, x2" % r.choice(g.order), "import (", "from . import x"])))
            elif k < 0.9:
                pk = [n for n, m in w.mods.items() if m.pkg]
                if pk:
                    ops.append(("package", r.choice(pk)))
            elif k < 0.95:
                ops.append(("remove",))
            else:
                ops.append(("look",))
        if r.random() < 0.15:
            ops.append(r.choice([("excludes", [g.order[0]]), ("implies", {g.order[0]: ("list", ["errno"])}), ("post", 7, "log")]))
        return ops

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, ntops=(2, 5), maxsubs=3, weird=0.2, nentries=r.choice([1, 2]), acyclic=r.random() < 0.5, scripts=(0, 2), nimports=(0, 5), zips=r.random() < 0.1)
        w = g.world
        w.write(ctx.dir)
        dists = []
        files = [m for m in w.mods.values() if m.kind != "nspkg" and not w.entries[m.entry].endswith(".zip")]
        for i in range(r.randrange(3) if files else 0):
            e = r.choice(files).entry
            d = Dist("Dist%d" % i, "1.%d" % i, [m.relpath() for m in files if m.entry == e and r.random() < 0.6])
            d.write(os.path.join(ctx.dir, w.entries[e]), r)
            dists.append(d.name)
        activate(ctx, w)
        n = r.randint(2, 4)
        todo = []
        for i in range(n):
            if i and r.random() < 0.25:
                todo.append(todo[r.randrange(i)])        # the same again
                ctx.count("repeated")
                continue
            todo.append((self.ops(r, g, dists), {"use_stdlib_implies": r.random() < 0.3, "use_builtin_hooks": r.random() < 0.5}))
        ctx.note(files=w.dump(), operations=todo)
        seed = r.randrange(10 ** 9)

        def alone(i):
            b = Builder(i, *todo[i], w)
            while b.more():
                b.step()
            return b.result()

        def together():
            import random
            s = random.Random(seed)
            bs = [Builder(i, *t, w) for i, t in enumerate(todo)]
            trace, active, inside = [], set(), [0]

            def one(b):
                trace.append(b.ident)
                active.add(b.ident)
                try:
                    b.step()
                finally:
                    active.discard(b.ident)

            def nested():
                # from within a hook of one graph: work on the others
                for _ in range(2):
                    ready = [b for b in bs if b.more() and b.ident not in active]
                    if ready and s.random() < 0.5:
                        inside[0] += 1
                        one(s.choice(ready))
            for b in bs:
                b.inside = nested
            style = s.choice(["steps", "steps", "steps", "sequence", "backwards"])
            while any(b.more() for b in bs):
                ready = [b for b in bs if b.more()]
                one(s.choice(ready) if style == "steps" else ready[0] if style == "sequence" else ready[-1])
            return [b.result() for b in bs], trace, inside[0]
        got, trace, inside = isolated(together)
        want = [isolated(alone, i) for i in range(n)]
        ctx.note(trace=trace)
        for i in range(n):
            a, b = want[i], got[i]
            if a is None or b is None:
                ctx.check(a == b, "graph %d" % i)
                continue
            d = diff(a, b)
            ctx.check(not d, lambda: "graph %d differs when others are built in between: %s" % (i, text(d)), differences=[str(x) for x in d], ops=todo[i])
            for k in ("log", "errors", "iter"):
                ctx.check(a[k] == b[k], lambda: "%s of graph %d: %s" % (k, i, [(x, y) for x, y in zip(a[k] + [None], b[k] + [None]) if x != y][:2] or (len(a[k]), len(b[k]))))
            ctx.count("hook_calls", sum(x[0] in ("post", "missing") for x in a["log"]))
            ctx.count("distributions", sum(x[0] == "dist" for x in a["log"]))
            ctx.count("errors", len(a["errors"]))
        ctx.count("graphs", n)
        switches = sum(x != y for x, y in zip(trace, trace[1:]))
        ctx.count("switches", switches)
        ctx.count("inside_hooks", inside)
        ctx.nontrivial(sum(len(x["nodes"]) >= 4 for x in want if x) >= 2 and switches >= 4)
        ctx.sig(trace, [sorted(x["nodes"]) for x in want if x], str(todo))
        ctx.sample({"operations": [t[0] for t in todo], "trace": trace, "nodes": [len(x["nodes"]) for x in want if x], "inside_hooks": inside})

    def probe_configuration_is_not_shared(self, ctx):
        from ..build import write_files
        write_files(ctx, {"a.py": "import b, c, nope", "b.py": "", "c.py": ""})
        g1, g2 = mg.ModuleGraph(use_stdlib_implies=False), mg.ModuleGraph(use_stdlib_implies=False)
        log = []
        g1.add_excludes(["b"])
        g1.add_implies({"c": None, "x": mg.Alias("b")})
        g1.add_missing_hook(lambda *a: log.append(a[0]))
        g1.add_post_processing_hook(lambda g, n: log.append(g))
        g2.add_module("a")
        ctx.check(not log and isinstance(g2.find_node("b"), mg.SourceModule) and isinstance(g2.find_node("c"), mg.SourceModule), "configuration of another graph")
        g1.add_module("a")
        ctx.check(set(map(id, log)) == {id(g1)}, "hooks of another graph")
        ctx.check(isinstance(g1.find_node("b"), mg.ExcludedModule) and isinstance(g1.find_node("c"), mg.ExcludedModule), "excludes")
        ctx.check(not {id(n) for n in g1.nodes()} & {id(n) for n in g2.nodes()}, "the graphs share nodes")

    def probe_stdlib_implies_are_not_changed(self, ctx):
        def fn():
            before = observe(build(None), None, True)
            g = mg.ModuleGraph()
            g.add_implies({"_curses": ["errno"], "_datetime": mg.Alias("errno"), "os.path": mg.Alias("errno"), "_elementtree": None})
            g.add_module("_datetime")
            return diff(before, observe(build(None), None, True))

        def build(x):
            g = mg.ModuleGraph()
            g.add_excludes(["time", "_strptime", "curses", "copy", "xml"])
            for n in ("_datetime", "_curses", "_elementtree"):
                g.add_module(n)
            return g
        d = isolated(fn)
        ctx.check(not d, text(d))


CHECK = C36()
