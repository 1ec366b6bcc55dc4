"""Order and repetition of operations."""
import modulegraph2 as mg

from ..build import ChildError, activate, isolated, new_graph, write_files
from ..gen import gen_world
from ..snap import cls_of, dep_tuple, diff, node_info, observe, text
from ._world import WorldCheck
from .c16 import random_implies


def apply(gr, w, op):
    kind, n = op[0], op[1]
    if kind == "script":
        return gr.add_script(w.script_path(n))
    if kind == "dist":
        return gr.add_distribution(mg.PyPIDistribution("<%s>" % n, n, "1", set(), set(op[2]), {}))
    return gr.add_module(n)


def everything(gr):
    return ({n.identifier: (id(n), node_info(n)) for n in gr.nodes()},
            {(a.identifier, b.identifier): {dep_tuple(d) for d in ds} for a, b, ds in gr.edges()},
            sorted(n.identifier for n in gr.roots()))


class C23(WorldCheck):
    technique = "runtime monitor: metamorphic comparison of graphs built with permuted, repeated and fewer operations, plus a step-by-step monotonicity monitor"
    level_note = ("Random worlds (with star imports and re-exports when layered, cycles otherwise); the same 2-7 operations are run in 4 "
                  "orders in separate processes, with repetitions, and each root alone; full node information and edges are compared, and "
                  "every step is checked to keep all earlier nodes and edges. Worlds where a from-import asks a package of the same cycle "
                  "for a re-exported name are left out except for the listed finding.")
    cases = {"quick": 600, "thorough": 16000}
    rule = "random worlds and operation lists; non-trivial with at least 3 different operations that reach 6 nodes; distinct by nodes and edges"
    minimum = {"graphs": 2500, "orders": 1200, "repeats": 400, "steps": 5000, "alone": 800}

    def case(self, ctx):
        r = ctx.rng
        if r.random() < 0.5:
            g = gen_world(r, acyclic=True, layered=True, ntops=(2, 5), maxsubs=3, nentries=r.choice([1, 2]), weird=0, scripts=(0, 3), zips=r.random() < 0.15,
                          invalid=r.random() < 0.5)
            imp, exc = None, []
        else:
            g = gen_world(r, acyclic=False, layered=r.random() < 0.4, ntops=(2, 5), maxsubs=3, nentries=r.choice([1, 2]), weird=0, star=False,
                          reexport=False, scripts=(0, 3), invalid=r.random() < 0.5)
            imp = random_implies(r, g, 3) if r.random() < 0.4 else None
            exc = [r.choice(g.order + ["errno", "nope"]) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        w = g.world
        w.write(ctx.dir)
        activate(ctx, w)
        ops = [("script", s) for s in g.script_order]
        names = r.sample(g.order, min(len(g.order), r.randint(1, 4))) + (["nope"] if r.random() < 0.3 else [])
        if r.random() < 0.3:
            names.append(r.choice(g.order) + ".nosub")
        ops += [("module", n) for n in dict.fromkeys(names)]
        if r.random() < 0.3:
            ops.append(("dist", "Some", r.sample(g.order, min(len(g.order), 2))))
        r.shuffle(ops)
        ops = ops[:7]
        ctx.note(files=w.dump(), implies=imp, excludes=exc, ops=ops)

        def build(ops, monitor=False, alone=()):
            gr = new_graph(implies=imp, excludes=exc)
            before = everything(gr)
            bad = None
            for op in ops:
                apply(gr, w, op)
                if monitor:
                    after = everything(gr)
                    bad = bad or self.lost(before, after, op)
                    before = after
            out = observe(gr, None, True)
            return out, bad, {a: observe(gr, None, True, from_roots=[a]) for a in alone}

        def run(*a):
            try:
                return isolated(build, *a)
            except ChildError as exc:
                ctx.violation("building the graph fails: " + str(exc)[:1500])

        roots = {self.root(w, op): op for op in ops}
        ref, bad, parts = run(ops, True, sorted(roots))
        ctx.count("graphs")
        ctx.count("steps", len(ops))
        ctx.check(bad is None, bad)
        orders = []
        for _ in range(3):
            o = list(ops)
            r.shuffle(o)
            if o != ops and o not in orders:
                orders.append(o)
        if list(reversed(ops)) not in orders and len(ops) > 1:
            orders.append(list(reversed(ops)))
        for o in orders:
            act, bad, _ = run(o, True)
            ctx.count("graphs")
            ctx.count("orders")
            ctx.count("steps", len(o))
            ctx.check(bad is None, bad, order=o)
            d = diff(ref, act)
            ctx.check(not d, lambda: "in another order the graph differs: " + text(d), order=o)
        # repetition
        o = list(ops)
        rep = [op for op in ops if op[0] != "script"]
        if rep:
            for _ in range(r.randint(1, 3)):
                op = r.choice(rep)
                o.insert(r.randint(o.index(op), len(o)), op)
            act, bad, _ = run(o, True)
            ctx.count("graphs")
            ctx.count("repeats")
            ctx.check(bad is None, bad, order=o)
            d = diff(ref, act)
            ctx.check(not d, lambda: "with repeated operations the graph differs: " + text(d), order=o)
        for name in r.sample(sorted(roots), min(2, len(roots))):
            act, bad, _ = run([roots[name]])
            ctx.count("graphs")
            ctx.count("alone")
            d = diff(act, parts[name])
            ctx.check(not d, lambda: "what is reachable from %s depends on the other roots: %s" % (name, text(d)), alone=roots[name])
        ctx.nontrivial(len(ops) >= 3 and len(ref["nodes"]) >= 6)
        ctx.sig(sorted(ref["nodes"]), sorted(map(str, ref["edges"].items())))
        ctx.sample({"ops": ops, "orders": orders, "nodes": {n: i["cls"] for n, i in ref["nodes"].items()}})

    def root(self, w, op):
        if op[0] == "script":
            return w.script_path(op[1])
        if op[0] == "dist":
            return mg.PyPIDistribution("<%s>" % op[1], op[1], "1", set(), set(), {}).identifier
        return op[1]

    def lost(self, before, after, op):
        for n, (i, info) in before[0].items():
            if n not in after[0]:
                return "%s removes node %s" % (op, n)
            if after[0][n][0] != i:
                return "%s replaces node %s" % (op, n)
            if after[0][n][1] != info:
                return "%s changes node %s: %s -> %s" % (op, n, info, after[0][n][1])
        for k, deps in before[1].items():
            if k not in after[1]:
                return "%s removes edge %s" % (op, k)
            if not deps <= after[1][k]:
                return "%s changes edge %s: %s -> %s" % (op, k, deps, after[1][k])
        if not set(before[2]) <= set(after[2]):
            return "%s removes a root" % (op,)
        return None

    # --- fixed cases

    def orders(self, ctx, files, ops, implies=None, excludes=()):
        write_files(ctx, files)
        import itertools

        def build(o):
            gr = new_graph(implies=implies, excludes=excludes)
            for n in o:
                gr.add_module(n)
            return observe(gr, None, True)
        ref = isolated(build, ops)
        for o in itertools.permutations(ops):
            act = isolated(build, list(o))
            d = diff(ref, act)
            ctx.check(not d, lambda: "order %s: %s" % (o, text(d)))
        for n in ops:
            alone = isolated(build, [n])
            full = isolated(lambda: self.part(ops, n, implies, excludes))
            d = diff(alone, full)
            ctx.check(not d, lambda: "%s alone: %s" % (n, text(d)))

    def part(self, ops, n, implies, excludes):
        gr = new_graph(implies=implies, excludes=excludes)
        for o in ops:
            gr.add_module(o)
        return observe(gr, None, True, from_roots=[n])

    def probe_from_then_import(self, ctx):
        # the name is a global for one importer and a missing submodule for the other
        self.orders(ctx, {"p/__init__.py": "g = 1", "a.py": "from p import g", "b.py": "import p.g"}, ["a", "b", "p"])

    def probe_parent_and_child(self, ctx):
        self.orders(ctx, {"p/__init__.py": "import errno", "p/s.py": "import atexit", "p/t.py": "from . import s"}, ["p", "p.s", "p.t"])

    def probe_alias_and_target(self, ctx):
        self.orders(ctx, {"a.py": "import b", "b.py": "import errno", "c.py": "import al"}, ["al", "b", "c", "a"], {"al": ("alias", "b")})

    def probe_missing_and_children(self, ctx):
        self.orders(ctx, {"a.py": "import nope.x.y", "b.py": "from nope import x", "c.py": "import nope"}, ["nope.x", "a", "b", "c"])

    def probe_broken_package(self, ctx):
        self.orders(ctx, {"p/__init__.py": "raise ValueError", "p/s.py": "import errno", "a.py": "import p.s, p.nope"}, ["p", "p.s", "a"])

    def probe_excluded_parent(self, ctx):
        self.orders(ctx, {"p/__init__.py": "", "p/s/__init__.py": "", "p/s/t.py": "import errno", "a.py": "from p.s import t"}, ["p.s.t", "p.s", "a"], None, ["p.s"])

    def probe_unprocessed_package(self, ctx):
        # finding: see C08
        self.orders(ctx, {"p/__init__.py": "from a import *\n", "a.py": "A = 1\n", "p/s.py": "from p import A\n"}, ["p", "p.s"])

    def probe_invalid_relative(self, ctx):
        self.orders(ctx, {"a.py": "from .. import x\nfrom . import y", "b.py": "from .. import z", "p/__init__.py": "from ... import q"}, ["a", "b", "p"])


CHECK = C23()
