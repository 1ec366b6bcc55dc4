"""Implied dependencies, aliases and virtual modules."""
import modulegraph2 as mg

from ..build import activate, new_graph, to_implies, write_files
from ..model import DEFAULT, Model
from ..snap import diff, dep_tuple, observe, text
from ._world import WorldCheck


def random_implies(r, g, n):
    """Implications that point to later modules, to external modules or to missing names."""
    order = g.order
    res = {}
    for _ in range(r.randint(1, n)):
        k = r.random()
        if k < 0.75:
            key = r.choice(order)
        elif k < 0.9:
            key = r.choice(["nope", "nope2", "errno", "vm", "never_used", "nope.sub"])
        else:
            key = r.choice(order) + "." + r.choice(["vsub", "nosub"])
        base = key
        while base not in order and "." in base:
            base = base.rpartition(".")[0]
        later = order[order.index(base) + 1:] if base in order else []

        def later_ok(t):
            return t != key and not t.startswith(key + ".")

        later = [t for t in later if later_ok(t)] + ["errno", "atexit", "nope3", "keyword", "nope3.sub"]
        later = [t for t in later if later_ok(t)]
        kind = r.choice(["list", "list", "alias", "virtual"])
        if any(t.startswith(key + ".") for t in order):
            kind = "list"
        if kind == "list":
            val = list(dict.fromkeys(r.choice(later) for _ in range(r.randint(0, 3))))
            # listed modules are analysed last to first
            val.sort(key=lambda t: order.index(t) if t in order else len(order))
        else:
            val = r.choice(later)
        res[key] = (kind, val)
    return res


class C16(WorldCheck):
    technique = "runtime monitor: observed graph against a reference model of implied, alias and virtual modules"
    level_note = ("Random worlds with random implications (chained, on existing and missing names, packages and submodules, reached by "
                  "roots, imports, from-imports and other implications, replaced before use): every node and edge that the implications "
                  "add, and every one they must not add, is compared with the independent model. Implication cycles are only probed with "
                  "fixed cases. Trusts the model and the generator.")
    cases = {"quick": 2000, "thorough": 40000}
    rule = "random worlds with 1-5 implications; non-trivial when at least one implication took effect; distinct by nodes and edge attributes"
    minimum = {"implications_used": 500}

    def opts(self, ctx):
        # star imports and re-exports through nodes that became aliases or virtual are left to C08 and C07
        return dict(acyclic=False, layered=ctx.rng.random() < 0.7, ntops=(2, 4), maxsubs=3, nentries=1, weird=0.2, star=False, reexport=False,
                    invalid=False)

    def implies(self, ctx, g):
        return random_implies(ctx.rng, g, 5)

    def graph(self, ctx, imp, exc):
        r = ctx.rng
        gr = new_graph()
        conf = to_implies(imp)
        if r.random() < 0.4:
            # configured for another meaning first
            ctx.count("reconfigured")
            decoy = {k: r.choice([["decoy_dep"], mg.Alias("decoy"), mg.Virtual("decoy")]) for k in conf if r.random() < 0.5}
            gr.add_implies(decoy)
        items = list(conf.items())
        if r.random() < 0.5:
            r.shuffle(items)
        cut = r.randint(0, len(items))
        gr.add_implies(dict(items[:cut]))
        gr.add_implies(dict(items[cut:]))
        ctx.note(order=[k for k, _ in items])
        return gr

    def is_nontrivial(self, exp, mdl):
        return mdl.used > 0

    def more(self, ctx, g, gr, mdl, exp, act):
        ctx.count("implications_used", mdl.used)


    # --- fixed cases

    def world(self, ctx, files):
        from ..build import write_files
        write_files(ctx, files)

    def expect(self, ctx, implies, roots, nodes, edges):
        gr = new_graph(implies=implies)
        for n in roots:
            gr.add_module(n)
        act = observe(gr)
        exp = {"nodes": nodes, "edges": {k: {DEFAULT} for k in edges}, "roots": sorted(roots)}
        d = diff(exp, act)
        ctx.check(not d, lambda: "implications: " + text(d), implies=implies)

    def probe_cycle(self, ctx):
        self.world(ctx, {"a.py": "", "b.py": "", "c.py": ""})
        self.expect(ctx, {"a": ("list", ["b"]), "b": ("list", ["c", "a"]), "c": ("list", ["c", "a"])}, ["a"],
                    dict.fromkeys("abc", "SourceModule"), [("a", "b"), ("b", "c"), ("b", "a"), ("c", "c"), ("c", "a")])

    def probe_alias_chain(self, ctx):
        self.world(ctx, {"a.py": "import errno", "b.py": "import errno", "c.py": "", "d.py": ""})
        self.expect(ctx, {"a": ("alias", "b"), "b": ("alias", "c"), "c": ("list", ["d"])}, ["a"],
                    {"a": "AliasNode", "b": "AliasNode", "c": "SourceModule", "d": "SourceModule"},
                    [("a", "b"), ("b", "c"), ("c", "d")])

    def probe_virtual_chain(self, ctx):
        self.world(ctx, {"b.py": "import errno", "c.py": ""})
        self.expect(ctx, {"a": ("virtual", "b"), "b": ("virtual", "c"), "c": ("alias", "nope")}, ["a"],
                    {"a": "VirtualNode", "b": "VirtualNode", "c": "AliasNode", "nope": "MissingModule"},
                    [("a", "b"), ("b", "c"), ("c", "nope")])

    def probe_used_name_keeps_its_meaning(self, ctx):
        self.world(ctx, {"a.py": "", "b.py": "import a"})
        gr = new_graph()
        gr.add_module("a")
        gr.add_implies(to_implies({"a": ("alias", "errno"), "b": ("list", ["errno"])}))
        gr.add_module("b")
        act = observe(gr)
        exp = {"nodes": {"a": "SourceModule", "b": "SourceModule", "errno": "BuiltinModule"},
               "edges": {("b", "a"): {DEFAULT}, ("b", "errno"): {DEFAULT}}, "roots": ["a", "b"]}
        d = diff(exp, act)
        ctx.check(not d, lambda: "implications: " + text(d))

    def probe_many(self, ctx):
        n = 400
        files = {"m.py": "import r, c0\n", "r.py": "import own\n", "own.py": ""}
        imp = {"r": ("list", ["d%d" % i for i in range(n)])}
        for i in range(n):
            files["d%d.py" % i] = "import v%d, a%d\n" % (i, i)
            files["t%d.py" % i] = ""
            imp["v%d" % i] = ("virtual", "t%d" % i)
            imp["a%d" % i] = ("alias", "t%d" % i)
        for i in range(60):
            imp["c%d" % i] = (("alias", "virtual")[i % 2], "c%d" % (i + 1))
        files["c60.py"] = "import end\n"
        files["end.py"] = ""
        write_files(ctx, files)
        gr = new_graph(implies=imp)
        gr.add_module("m")
        act = observe(gr)
        want = {("m", "r"), ("m", "c0"), ("r", "own"), ("c60", "end")} | {("c%d" % i, "c%d" % (i + 1)) for i in range(60)}
        for i in range(n):
            want |= {("r", "d%d" % i), ("d%d" % i, "v%d" % i), ("d%d" % i, "a%d" % i), ("v%d" % i, "t%d" % i), ("a%d" % i, "t%d" % i)}
        got = set(act["edges"])
        ctx.check(got == want, lambda: "%d edges too many, %d lost: %s" % (len(got - want), len(want - got), sorted(got ^ want)[:6]))


CHECK = C16()
