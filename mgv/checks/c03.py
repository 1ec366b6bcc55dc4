"""Edge attributes."""
from ..build import new_graph, write_files
from ..snap import observe
from ._world import WorldCheck
from .c16 import random_implies


class C03(WorldCheck):
    technique = "runtime monitor: attributes of all observed edges against the context of the generated import statements"
    level_note = ("Random worlds and scripts whose import statements stand in every kind and depth of block, the same pair of modules "
                  "connected by several statements, with implications and submodules; the complete attribute set of each edge is compared "
                  "with the one that follows from the statement tree. Trusts the statement tree and its renderer.")
    cases = {"quick": 2000, "thorough": 40000}
    rule = "random worlds; non-trivial with at least 4 different attribute combinations on the edges; distinct by nodes and edge attributes"
    kinds = {"attrs"}
    minimum = {"edges": 5000, "attribute_combinations": 4000}

    def opts(self, ctx):
        r = ctx.rng
        ctx.note(with_implies=r.random() < 0.3)
        if ctx.detail["with_implies"]:
            return dict(acyclic=False, layered=True, star=False, reexport=False, invalid=False, maxdepth=6, weird=0.3, ntops=(2, 4))
        return dict(acyclic=True, ntops=(2, 4), maxdepth=r.choice([2, 4, 7]), weird=0.3, pblock=r.choice([0.3, 0.6, 0.85]), nimports=(3, 10),
                    asnames=r.choice([0.2, 0.7]))

    def implies(self, ctx, g):
        return random_implies(ctx.rng, g, 3) if ctx.detail["with_implies"] else None

    def is_nontrivial(self, exp, mdl):
        return len({str(sorted(map(str, v))) for v in exp["edges"].values()}) >= 4

    def more(self, ctx, g, gr, mdl, exp, act):
        ctx.count("attribute_combinations", len({str(sorted(map(str, v))) for v in act["edges"].values()}))
        for e in gr.edges():
            for dep in e[2]:
                ctx.check(type(dep.is_optional) is bool and type(dep.is_global) is bool and type(dep.in_fromlist) is bool
                          and (dep.imported_as is None or isinstance(dep.imported_as, str)), "types of the attributes: %r" % (dep,))

    # --- fixed cases

    def attrs(self, ctx, src, expected, implies=None):
        write_files(ctx, {"m.py": src, "p/__init__.py": "import errno as en", "p/s.py": "", "p/t.py": ""})
        gr = new_graph(implies=implies)
        gr.add_module("m")
        act = observe(gr)
        for b, exp in expected.items():
            got = act["edges"].get(("m", b), set())
            exp = {(bool(o), bool(gl), bool(f), a) for o, gl, f, a in exp}
            ctx.check(got == exp, "edge m -> %s has %s, expected %s" % (b, sorted(map(str, got)), sorted(map(str, exp))), source=src)

    def probe_same_target(self, ctx):
        self.attrs(ctx, "import errno\nimport errno as e\nif x:\n  import errno as f\ndef g():\n  import errno\n  import errno as e\n"
                        "try:\n  import errno as t\nfinally:\n  import errno as u\n",
                   {"errno": [(0, 1, 0, None), (0, 1, 0, "e"), (1, 1, 0, "f"), (1, 0, 0, None), (1, 0, 0, "e"), (1, 1, 0, "t"), (0, 1, 0, "u")]})

    def probe_names(self, ctx):
        self.attrs(ctx, "from p import s as x, t, s as y, en as z, s\n",
                   {"p": [(0, 1, 0, None)], "p.s": [(0, 1, 1, "x"), (0, 1, 1, "y"), (0, 1, 1, None)], "p.t": [(0, 1, 1, None)],
                    "errno": [(0, 1, 1, "z")]})

    def probe_names_in_function(self, ctx):
        self.attrs(ctx, "def f():\n  if x:\n    from p import s as x, t\n  try:\n    pass\n  finally:\n    from p.s import q\n",
                   {"p": [(1, 0, 0, None)], "p.s": [(1, 0, 1, "x"), (1, 0, 0, None)], "p.t": [(1, 0, 1, None)]})

    def probe_dotted_as(self, ctx):
        self.attrs(ctx, "import p.s as q, p.t, errno as e, itertools\n",
                   {"p.s": [(0, 1, 0, "q")], "p.t": [(0, 1, 0, None)], "errno": [(0, 1, 0, "e")], "itertools": [(0, 1, 0, None)]})

    def probe_blocks(self, ctx):
        self.attrs(ctx, "while x:\n  import a1\nelse:\n  import a2\nfor y in x:\n  import a3\nwith x:\n  import a4\nmatch x:\n  case 1:\n    import a5\n"
                        "class C:\n  import a6\n  def f(self):\n    import a7\n  if x:\n    import a8\ntry:\n  import b1\nexcept E:\n  import b2\n"
                        "else:\n  import b3\nfinally:\n  import b4\n  if x:\n    import b5\nif x:\n  pass\nelif y:\n  import b6\nelse:\n  import b7\n"
                        "try:\n  import c1\nexcept* E:\n  import c2\nelse:\n  import c3\nfinally:\n  import c4\n"
                        "async def f():\n  import c5\n  class D:\n    import c6\nif x:\n  class E:\n    import c7\n    def g():\n      import c8\n"
                        "try:\n  try:\n    pass\n  finally:\n    import d1\nfinally:\n  try:\n    import d2\n  finally:\n    import d3\n"
                        "try:\n  pass\nexcept E:\n  try:\n    pass\n  finally:\n    import d4\n",
                   {**{n: [(0, 1, 0, None)] for n in ("a1", "a2", "a3", "a4", "a5", "a6", "b4", "c4", "d3")},
                    **{n: [(1, 1, 0, None)] for n in ("a8", "b1", "b2", "b3", "b5", "b6", "b7", "c1", "c2", "c3", "c7", "d1", "d2", "d4")},
                    **{n: [(1, 0, 0, None)] for n in ("a7", "c5", "c6", "c8")}})

    def probe_decorators_and_defaults(self, ctx):
        # nothing but statements can import; the class in a function is function code
        self.attrs(ctx, "@dec\ndef f(x=1):\n  @dec\n  class C:\n    from errno import x as y\n",
                   {"errno": [(1, 0, 0, None)]})

    def probe_structural(self, ctx):
        write_files(ctx, {"m.py": "def f():\n  try:\n    import p.q.r as x\n  except: import al, vi, im\n",
                          "p/__init__.py": "", "p/q/__init__.py": "", "p/q/r.py": "", "im.py": "", "o.py": ""})
        gr = new_graph(implies={"al": ("alias", "o"), "vi": ("virtual", "o"), "im": ("list", ["o", "p.q", "nope.x"])})
        gr.add_module("m")
        act = observe(gr)
        d = (False, True, False, None)
        for k in [("p.q.r", "p.q"), ("p.q", "p"), ("al", "o"), ("vi", "o"), ("im", "o"), ("im", "p.q"), ("im", "nope.x"), ("nope.x", "nope")]:
            ctx.check(act["edges"].get(k) == {d}, "edge %s -> %s has %s" % (k + (act["edges"].get(k),)))
        ctx.check(act["edges"].get(("m", "p.q.r")) == {(True, False, False, "x")}, "import as in try in function")

    def probe_many(self, ctx):
        # one target imported in many ways: every combination is there once
        n = 300
        src = ["import t", "from t import *"] + ["import t as a%d" % i for i in range(n)]
        src += ["def f%d():\n    import t as b%d" % (i, i) for i in range(n)]
        src += ["if x:\n    import t as c%d" % i for i in range(n)]
        src += ["from p import s as d%d" % i for i in range(n)]
        write_files(ctx, {"m.py": "\n".join(src), "t.py": "", "p/__init__.py": "", "p/s.py": ""})
        gr = new_graph()
        gr.add_module("m")
        act = observe(gr)["edges"]
        want = {(False, True, False, None)}
        for i in range(n):
            want |= {(False, True, False, "a%d" % i), (True, False, False, "b%d" % i), (True, True, False, "c%d" % i)}
        ctx.check(act["m", "t"] == want, lambda: "attributes differ: %s" % sorted(map(str, act["m", "t"] ^ want))[:5])
        ctx.check(act["m", "p.s"] == {(False, True, True, "d%d" % i) for i in range(n)}, "from-list attributes")


CHECK = C03()
