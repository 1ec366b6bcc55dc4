"""Star imports."""
import modulegraph2 as mg

from ..build import new_graph, write_files
from ..snap import observe
from ._world import WorldCheck


class C08(WorldCheck):
    technique = "runtime monitor: recorded globals, star edges and re-exported names of observed graphs against a reference model"
    level_note = ("Random worlds with chains and fans of star imports through modules, packages and bytecode, relative and absolute, and "
                  "from-imports of names that only arrive through stars: the globals written by every analysed module, every edge and "
                  "every missing module are compared with the independent model. Stars of a package that is not fully processed yet "
                  "are a recorded finding. Trusts the model.")
    cases = {"quick": 1600, "thorough": 30000}
    rule = "random worlds; non-trivial with at least 2 star imports in reachable modules; distinct by nodes and edge attributes"
    minimum = {"stars": 2000, "globals": 5000}

    def opts(self, ctx):
        r = ctx.rng
        return dict(acyclic=True, ntops=(2, 5), maxdepth=2, weird=0, forms=(0.1, 0.4, 0.5, 0.97), ndefs=(1, 2, 4), nimports=(1, 6),
                    mix=(0.88, 0.9, 0.94, 0.98, 0.99), invalid=r.random() < 0.3, asnames=0.2, pmissing=0.1, scripts=(0, 1))

    def is_nontrivial(self, exp, mdl):
        return self.stars(exp, mdl) >= 2

    def stars(self, exp, mdl):
        n = 0
        for name in exp["nodes"]:
            m = mdl.nodes[name].mod
            if m is not None:
                n += sum(rec.kind == "star" for rec in m.records())
        return n

    def more(self, ctx, g, gr, mdl, exp, act):
        ctx.count("stars", self.stars(exp, mdl))
        for name, cls in act["nodes"].items():
            ctx.check(name != "*" and not name.endswith(".*"), "a star became the node %s" % name)
            node, mnode = gr.find_node(name), mdl.nodes.get(name)
            if mnode is None or mnode.mod is None or cls in ("NamespacePackage", "ExtensionModule", "InvalidModule", "Script"):
                continue
            got, want = set(map(str, node.globals_written)), set(mnode.globals)
            ctx.count("globals", len(got))
            ctx.check(got == want, lambda: "%s binds %s too many and misses %s" % (name, sorted(got - want), sorted(want - got)))

    # --- fixed cases

    def probe_chain(self, ctx):
        files = {"m.py": "from c0 import X, Y, nope, errno\n"}
        for i in range(60):
            files["c%d.py" % i] = "from c%d import *\nZ%d = 1\n" % (i + 1, i)
        files["c60.py"] = "import errno\nX = Y = 1\n"
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("m")
        got = gr.find_node("c0").globals_written
        ctx.check(got == {"X", "Y", "errno"} | {"Z%d" % i for i in range(60)}, "names of c0: %s" % sorted(got))
        ctx.check(set(observe(gr)["nodes"]) == set(["m"] + ["c%d" % i for i in range(61)] + ["errno"]) , "nodes")

    def probe_package(self, ctx):
        write_files(ctx, {"p/__init__.py": "from .a import *\nfrom .b import *\n", "p/a.py": "A1 = A2 = 1\n", "p/b.py": "def B(): pass\nclass C: x = 1\n",
                          "p/other.py": "import keyword", "m.py": "from p import A1, A2, B, C, x\n", "n.py": "from p import *\nfrom nope import *\nfrom errno import *\n"})
        gr = new_graph()
        gr.add_module("m")
        gr.add_module("n")
        act = observe(gr)
        ctx.check(set(act["nodes"]) == {"p", "p.a", "p.b", "m", "n", "p.x", "nope", "errno"}, "nodes %s" % sorted(act["nodes"]))
        ctx.check({b for a, b in act["edges"] if a == "n"} == {"p", "nope", "errno"}, "edges of n")
        n = gr.find_node("n")
        ctx.check(n.globals_written == {"A1", "A2", "B", "C"}, "names of n: %s" % sorted(n.globals_written))

    def probe_later_names_stay_out(self, ctx):
        # names are copied, the two modules do not share them
        write_files(ctx, {"a.py": "A = 1\n", "b.py": "from a import *\nB = 1\n", "c.py": "from a import *\nC = 1\nfrom b import *\n"})
        gr = new_graph()
        gr.add_module("c")
        got = {n: sorted(gr.find_node(n).globals_written) for n in "abc"}
        ctx.check(got == {"a": ["A"], "b": ["A", "B"], "c": ["A", "B", "C"]}, "names %s" % got)

    def probe_cycle(self, ctx):
        write_files(ctx, {"a.py": "from b import *\nA = 1\n", "b.py": "from a import *\nB = 1\n"})
        gr = new_graph()
        gr.add_module("a")
        act = observe(gr)
        ctx.check(set(act["nodes"]) == {"a", "b"} and set(act["edges"]) == {("a", "b"), ("b", "a")}, "cycle of stars")
        ctx.check({"A", "B"} <= gr.find_node("a").globals_written, "names of a")

    def probe_conditional_star(self, ctx):
        write_files(ctx, {"a.py": "A = 1\n", "p/__init__.py": "try:\n  from a import *\nexcept ImportError:\n  pass\nif x:\n  from a2 import *\n",
                          "a2.py": "A2 = 1", "m.py": "from p import A, A2\n"})
        gr = new_graph()
        gr.add_module("m")
        act = observe(gr)
        ctx.check(set(act["nodes"]) == {"a", "a2", "p", "m"}, "nodes %s" % sorted(act["nodes"]))
        ctx.check(act["edges"][("p", "a")] == {(True, True, False, None)}, "attributes of the star edge")

    def probe_alias(self, ctx):
        write_files(ctx, {"a.py": "A = 1\n", "p/__init__.py": "from al import *\n", "m.py": "from p import A\n"})
        gr = new_graph(implies={"al": ("alias", "a")})
        gr.add_module("m")
        act = observe(gr)
        ctx.check(set(act["nodes"]) == {"a", "al", "p", "m"}, "nodes %s" % sorted(act["nodes"]))

    def probe_unprocessed_package(self, ctx):
        # finding: p is in the graph, but its star imports are processed after those of p.s
        write_files(ctx, {"p/__init__.py": "from a import *\n", "a.py": "A = 1\n", "p/s.py": "from p import A\n"})
        gr = new_graph()
        gr.add_module("p.s")
        act = observe(gr)
        ctx.check("p.A" not in act["nodes"], "p.A is missing, although p has A from its star import")

    def probe_many(self, ctx):
        # long chain of packages and modules, every one with names of its own
        n = 150
        files = {"c%d.py" % i: "from c%d import *\nN%d = 1\n" % (i + 1, i) for i in range(n)}
        files["c%d.py" % n] = "".join("Z%d = 1\n" % i for i in range(400))
        files["p/__init__.py"] = "from c0 import *\n"
        nms = ["N%d" % i for i in range(n)] + ["Z%d" % i for i in range(400)]
        files["m.py"] = "from p import %s, nope\n" % ", ".join(nms)
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("m")
        act = observe(gr)
        lost = [x for x in nms if "p." + x in act["nodes"]]
        ctx.check(not lost, lambda: "%d names are not passed on: %s" % (len(lost), lost[:5]))
        ctx.check(set(gr.find_node("p").globals_written) == set(nms), "globals of p")
        ctx.check("p.nope" in act["nodes"], "p.nope is not missing")

    def probe_many_stars(self, ctx):
        n = 300
        files = {"a%d.py" % i: "N%d = 1\nfrom b%d import *\n" % (i, i % 7) for i in range(n)}
        files.update({"b%d.py" % i: "B%d = 1\n" % i for i in range(7)})
        files["p/__init__.py"] = "".join("from a%d import *\n" % i for i in range(n))
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("p")
        want = {"N%d" % i for i in range(n)} | {"B%d" % i for i in range(7)}
        ctx.check(set(gr.find_node("p").globals_written) == want, "globals of p")


CHECK = C08()
