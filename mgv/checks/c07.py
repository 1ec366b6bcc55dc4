"""Names in from-imports."""
from ..build import new_graph, write_files
from ..snap import observe
from ..stmts import From
from ..world import Mod
from ._world import WorldCheck


class C07(WorldCheck):
    technique = "runtime monitor: from-list edges and missing modules of observed graphs against a reference model of name resolution"
    level_note = ("Random worlds dominated by from-imports whose lists mix submodules, globals, renamed and re-exported imports and absent "
                  "names of packages, namespace packages, bytecode packages and plain modules; every from-list edge and missing module is "
                  "compared with the independent model. Modules are written so that a package's imports are known before its names are asked "
                  "for (see the finding on processing order). Trusts the model.")
    cases = {"quick": 1400, "thorough": 30000}
    rule = "random worlds; non-trivial with at least 3 from-list edges; distinct by nodes and edge attributes"
    minimum = {"fromlist_edges": 4000, "aliases": 400}

    def opts(self, ctx):
        r = ctx.rng
        acyclic = self.acyclic = r.random() < 0.65
        return dict(acyclic=acyclic, ntops=(2, 4), maxdepth=2, weird=0.2, forms=(0.1, 0.75, 0.95, 0.97), fromn=r.choice([3, 5]),
                    pmissing=0.4, ndefs=(1, 2, 4), nimports=(1, 7), invalid=r.random() < 0.3, star=acyclic and r.random() < 0.3,
                    asnames=r.choice([0.2, 0.6]))

    def make(self, ctx):
        r = ctx.rng
        self.aliases = {}
        g = WorldCheck.make(self, ctx)
        w = g.world
        if self.acyclic and r.random() < 0.4:
            # names of an alias are those of its target
            m = w.add(Mod("aliased_", "source"))
            m.tree = []
            for i in range(r.randint(1, 4)):
                a, t = "al%d" % i, r.choice(g.order)
                tm = w.mods[t]
                self.aliases[a] = ("alias", t)
                nms = [c.rpartition(".")[2] for c in w.children(t)]
                nms += [n for n in getattr(tm, "names", ()) if n.isidentifier()] + ["nosuch_a", "nosuch_b"]
                nms = r.sample(sorted(set(nms)), min(len(set(nms)), r.randint(1, 4)))
                m.tree.append(From(0, a, [(n, r.choice([None, None, "as_" + n])) for n in nms]))
                ctx.count("aliases")
            r.shuffle(m.tree)
            g.roots.append(("module", "aliased_"))
        return g

    def implies(self, ctx, g):
        return self.aliases or None

    def relevant(self, d, ctx, g, mdl):
        if d.kind in ("extra-edge", "lost-edge", "attrs"):
            return any(x[2] for x in (d[2] or ())) or any(x[2] for x in (d[3] or ()))
        if d.kind in ("extra-node", "lost-node", "class"):
            return "." in d[1]
        return False

    def is_nontrivial(self, exp, mdl):
        return sum(any(x[2] for x in v) for v in exp["edges"].values()) >= 3

    def more(self, ctx, g, gr, mdl, exp, act):
        n = sum(any(x[2] for x in v) for v in act["edges"].values())
        ctx.count("fromlist_edges", n)

    # --- fixed cases

    def names(self, ctx, files, expected, absent=(), implies=None, excludes=(), root="m"):
        write_files(ctx, files)
        gr = new_graph(implies=implies, excludes=excludes)
        gr.add_module(root)
        act = observe(gr)
        got = {b: v for (a, b), v in act["edges"].items() if a == "m"}
        exp = {b: {(False, True, f, a) for f, a in v} for b, v in expected.items()}
        ctx.check(got == exp, "m depends on %s, expected %s" % (got, exp))
        for n in absent:
            ctx.check(n not in act["nodes"], "%s is reachable" % n)

    P = {"p/__init__.py": "import errno, json.decoder\nimport itertools as it\nX = 1\nimport p.s3 as s4\nfrom . import s5\n",
         "p/s1.py": "", "p/X2.py": "", "p/it2.py": "", "p/s3.py": "", "p/s5.py": "", "p/q/__init__.py": ""}

    def probe_package(self, ctx):
        self.names(ctx, {**self.P, "m.py": "from p import s1, X, errno, it as iter_, nope, q, s4, s5\n"},
                   {"p": [(False, None)], "p.s1": [(True, None)], "errno": [(True, None)], "itertools": [(True, "iter_")],
                    "p.nope": [(True, None)], "p.q": [(True, None)], "p.s3": [(True, None)], "p.s5": [(True, None)]},
                   ["p.X", "p.errno", "p.it", "p.s4"])

    def probe_global_and_submodule(self, ctx):
        # bound in the package and a submodule: the submodule can be what is meant
        self.names(ctx, {"p/__init__.py": "s1 = None\ndef s2(): pass\n", "p/s1.py": "", "p/s2/__init__.py": "", "m.py": "from p import s1, s2\n"},
                   {"p": [(False, None)], "p.s1": [(True, None)], "p.s2": [(True, None)]})

    def probe_module(self, ctx):
        self.names(ctx, {"p.py": "import errno\nimport itertools as it\nX = 1\nfrom json import decoder\n", "m.py": "from p import errno, it, X, nope\n"},
                   {"p": [(False, None)], "errno": [(True, None)], "itertools": [(True, None)]}, ["p.X", "p.nope", "p.it", "p.errno"])

    def probe_namespace(self, ctx):
        self.names(ctx, {"p/s.py": "", "m.py": "from p import s, nope\n"},
                   {"p": [(False, None)], "p.s": [(True, None)], "p.nope": [(True, None)]})

    def probe_missing_and_excluded(self, ctx):
        self.names(ctx, {"p/__init__.py": "", "p/s.py": "", "m.py": "from nope import a, b\nfrom p import s\nfrom nope.sub import a\n"},
                   {"nope": [(False, None)], "p": [(False, None)], "nope.sub": [(False, None)]}, ["nope.a", "p.s", "nope.sub.a"], excludes=["p"])

    def probe_alias(self, ctx):
        self.names(ctx, {**self.P, "m.py": "from al import s1, X, errno\n"},
                   {"al": [(False, None)], "p.s1": [(True, None)], "errno": [(True, None)]}, ["al.s1", "al.X", "p.X"],
                   implies={"al": ("alias", "p")})

    def probe_virtual(self, ctx):
        self.names(ctx, {**self.P, "m.py": "from vi import s1, X, nope\n"}, {"vi": [(False, None)]},
                   ["vi.s1", "vi.X", "vi.nope", "p.nope"], implies={"vi": ("virtual", "p")})

    def probe_imported_not_bound(self, ctx):
        # 'import a.b' binds a; 'from x import y' binds no module x; 'import a as b' does not bind a
        self.names(ctx, {"p/__init__.py": "from errno import E1\nimport itertools as it\n", "m.py": "from p import errno, itertools, it, E1\n"},
                   {"p": [(False, None)], "p.errno": [(True, None)], "p.itertools": [(True, None)], "itertools": [(True, None)]},
                   ["p.E1", "p.it"])

    def probe_one_name_many_times(self, ctx):
        self.names(ctx, {"p/__init__.py": "", "p/s.py": "", "m.py": "from p import s, s as t, s as u, nope as v, nope as w\n"},
                   {"p": [(False, None)], "p.s": [(True, None), (True, "t"), (True, "u")], "p.nope": [(True, "v"), (True, "w")]})

    def probe_own_package(self, ctx):
        write_files(ctx, {"p/__init__.py": "from . import s, x\nfrom .s import y\nz = 1\nfrom p import z, t\n", "p/s.py": "from . import t, z, nope\n",
                          "p/t.py": ""})
        gr = new_graph()
        gr.add_module("p")
        act = observe(gr)
        ctx.check(set(act["nodes"]) == {"p", "p.s", "p.t", "p.nope"} or set(act["nodes"]) == {"p", "p.s", "p.t", "p.nope", "p.x"},
                  "nodes are %s" % sorted(act["nodes"]))
        ctx.check(("p.s", "p.t") in act["edges"] and ("p", "p.s") in act["edges"] and ("p", "p.t") in act["edges"], "edges in the package")

    def probe_script(self, ctx):
        root = write_files(ctx, {**self.P, "m.script": "from p import s1, errno as e, X, nope\nfrom p.q import z\n"})
        gr = new_graph()
        gr.add_script(root + "/m.script")
        act = observe(gr)
        got = {b for a, b in act["edges"] if a.endswith("m.script")}
        ctx.check(got == {"p", "p.s1", "errno", "p.nope", "p.q", "p.q.z"}, "the script depends on %s" % sorted(got))

    def probe_many_names(self, ctx):
        n = 700
        files = {"p/__init__.py": "".join("import x%d as y%d\n" % (i, i) for i in range(n)) + "".join("G%d = 1\n" % i for i in range(n)),
                 "q.py": "".join("import x%d\n" % i for i in range(n))}
        for i in range(n):
            files["x%d.py" % i] = files["p/s%d.py" % i] = ""
        nms = [f % i for i in range(n) for f in ("y%d", "G%d", "s%d", "nope%d")]
        files["m.py"] = "from p import (%s)\nfrom q import %s\n" % (",\n".join(nms), ", ".join("x%d as z%d" % (i, i) for i in range(n)))
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("m")
        act = observe(gr)
        got = {b: v for (a, b), v in act["edges"].items() if a == "m"}
        want = {"p": {(False, True, False, None)}, "q": {(False, True, False, None)}}
        for i in range(n):
            want["x%d" % i] = {(False, True, True, None), (False, True, True, "z%d" % i)}
            want["p.s%d" % i] = want["p.nope%d" % i] = {(False, True, True, None)}
        bad = sorted(k for k in want.keys() | got.keys() if want.get(k) != got.get(k))
        ctx.check(not bad, lambda: "%d of %d edges are wrong: %s" % (len(bad), len(want), [(k, got.get(k), want.get(k)) for k in bad[:5]]))


CHECK = C07()
