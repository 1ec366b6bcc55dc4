"""Relative imports."""
import importlib.util
import sys

from ..build import new_graph, write_files
from ..snap import observe
from ..world import make_pyc
from ._world import WorldCheck

ALIKE = ["alpha", "beta", "core", "sub", "util", "pkg", "mod", "iox", "x", "a"]


class C06(WorldCheck):
    technique = "runtime monitor: edges of relative imports against the interpreter's own name resolution and a reference model"
    level_note = ("Random trees of packages, namespace packages, bytecode and scripts whose modules share names on all levels, with relative imports of "
                  "levels 1 to 8 inside and outside the top-level package; every relative import statement is resolved with "
                  "importlib.util.resolve_name and the edge to that name (or to the invalid-relative-import node) must be there, and nodes and edges "
                  "must be those of the model. Bounded by the generated shapes.")
    cases = {"quick": 1500, "thorough": 30000}
    rule = "random worlds; non-trivial with at least 2 relative imports in reachable modules; distinct by nodes and edge attributes"
    minimum = {"relative": 6000, "invalid_relative": 700, "level3": 400, "in_namespace": 200}
    kinds = {"extra-node", "lost-node", "class", "extra-edge", "lost-edge"}

    def opts(self, ctx):
        r = ctx.rng
        return dict(acyclic=False, layered=r.random() < 0.5, ntops=(1, 3), maxsubs=4, depth=r.choice([2, 3, 5]), weird=0, star=False, reexport=False,
                    invalid=False, ext=r.random() < 0.2, zips=r.random() < 0.2, tops=ALIKE, subs=ALIKE + ["__main__", "__init__x"], selfimports=False,
                    forms=(0.1, 0.55, 0.95, 0.95), mix=(0.68, 0.78, 0.8, 0.84, 0.97), nimports=(1, 6), ndefs=(0, 1), scripts=(0, 2), asnames=0.15)

    def is_nontrivial(self, exp, mdl):
        return sum(1 for n in exp["nodes"] if mdl.nodes[n].mod for rec in mdl.nodes[n].mod.records() if rec.level) >= 2

    def more(self, ctx, g, gr, mdl, exp, act):
        for n in exp["nodes"]:
            m = mdl.nodes[n].mod
            if m is None:
                continue
            pkg = "" if mdl.nodes[n].cls == "Script" else n if m.is_pkg else n.rpartition(".")[0]
            for rec in m.records():
                if not rec.level:
                    continue
                written = "." * rec.level + rec.mod
                ctx.count("relative")
                ctx.count("level3", rec.level >= 3)
                try:
                    want = importlib.util.resolve_name(written, pkg)
                    want = want.rstrip(".")
                    cls = None
                except ImportError:
                    want, cls = written, "InvalidRelativeImport"
                    ctx.count("invalid_relative")
                p = w = g.world.mods.get(pkg)
                if p is not None and w.kind == "nspkg":
                    ctx.count("in_namespace")
                ctx.check((n, want) in act["edges"], lambda: "'%s' in %s: no edge to %s" % (written, n, want))
                got = act["nodes"].get(want)
                ctx.check((got == "InvalidRelativeImport") == (cls is not None), lambda: "'%s' in %s leads to %s (%s)" % (written, n, want, got))

    # --- fixed cases

    def run_files(self, ctx, files, *roots):
        self.n = getattr(self, "n", 0) + 1
        root = write_files(ctx, files, sub="d%d" % self.n)
        for n in list(sys.modules):
            if n.split(".")[0] in ("p", "p0", "ns"):
                del sys.modules[n]
        gr = new_graph()
        for n in roots:
            gr.add_script(root + "/" + n) if n.endswith(".script") else gr.add_module(n)
        return observe(gr, root)

    def targets(self, act, src):
        return {b: act["nodes"][b] for (a, b) in act["edges"] if a == src}

    def probe_levels(self, ctx):
        for ext in (".py", ".pyc"):
            for level in range(1, 8):
                for init in (False, True):
                    path = ["p%d" % i for i in range(5)]
                    files = {"/".join(path[:i + 1]) + "/__init__.py": "" for i in range(5)}
                    for i in range(5):
                        files["/".join(path[:i + 1]) + "/t.py"] = ""
                    files["t.py"] = ""
                    fn = "/".join(path) + ("/__init__" if init else "/m")
                    text = "from %s import t" % ("." * level)
                    files.pop(fn + ".py", None)
                    files[fn + ext] = text if ext == ".py" else make_pyc(text, "x")
                    name = ".".join(path) + ("" if init else ".m")
                    act = self.run_files(ctx, files, name)
                    ctx.count("relative")
                    got = self.targets(act, name)
                    keep = 5 - level + 1
                    if keep > 0:
                        base = ".".join(path[:keep])
                        want = {base: "Package", base + ".t": "SourceModule"}
                        got.pop(".".join(path[:4] if init else path), None)
                        want.pop(".".join(path[:4] if init else path), None)
                        # parent and own package edges
                        if init and level == 1:
                            want.pop(name, None), got.pop(name, None)
                    else:
                        want = {"." * level: "InvalidRelativeImport"}
                        got.pop(".".join(path[:4] if init else path), None)
                    ctx.check(got == want, "%s in %s: %s, expected %s" % (text, name, got, want))
                    ctx.check("t" not in act["nodes"], "the top-level t is in the graph")

    def probe_named(self, ctx):
        files = {"p/__init__.py": "from .a.b import c\n", "p/a/__init__.py": "from ..a.b.c import x\nfrom .b.c import y\n", "p/a/b/__init__.py": "",
                 "p/a/b/c.py": "from ...d import e\nfrom ....p import d\nfrom .....a import q\n", "p/d.py": "", "a.py": "", "p.py": ""}
        act = self.run_files(ctx, files, "p")
        ctx.check({k: v for k, v in self.targets(act, "p.a.b.c").items()} ==
                  {"p.a.b": "Package", "p.d": "SourceModule", "....p": "InvalidRelativeImport", ".....a": "InvalidRelativeImport"}, "p.a.b.c: %s" % self.targets(act, "p.a.b.c"))
        ctx.check(set(self.targets(act, "p")) == {"p.a.b", "p.a.b.c"}, "p: %s" % self.targets(act, "p"))

    def probe_top_level(self, ctx):
        files = {"m.py": "from . import errno\nfrom .errno import x\nfrom .. import m\nfrom .m import y\ndef f():\n  from . import errno as z\n",
                 "s.script": "from . import m\nfrom .m import x\nfrom ..m import x\n", "b.pyc": make_pyc("from . import m\nfrom .m import q\n", "b")}
        act = self.run_files(ctx, files, "m", "s.script", "b")
        inv = "InvalidRelativeImport"
        ctx.check(self.targets(act, "m") == {".": inv, ".errno": inv, "..": inv, ".m": inv}, "m: %s" % self.targets(act, "m"))
        ctx.check(self.targets(act, "b") == {".": inv, ".m": inv}, "b: %s" % self.targets(act, "b"))
        ctx.check(self.targets(act, "<R>/s.script") == {".": inv, ".m": inv, "..m": inv}, "script: %s" % self.targets(act, "<R>/s.script"))
        ctx.check(len(act["nodes"]) == 8, "nodes %s" % sorted(act["nodes"]))

    def probe_namespace_package(self, ctx):
        files = {"ns/sub/m.py": "from . import k\nfrom .. import j\nfrom ..pk import l\nfrom ...ns import sub\n", "ns/sub/k.py": "", "ns/j.py": "",
                 "ns/pk/__init__.py": "from .. import j\nfrom ..sub import k\n", "ns/pk/l.py": "", "j.py": "", "k.py": ""}
        act = self.run_files(ctx, files, "ns.sub.m")
        ctx.check(self.targets(act, "ns.sub.m") == {"ns.sub": "NamespacePackage", "ns": "NamespacePackage", "ns.sub.k": "SourceModule", "ns.j": "SourceModule",
                                                    "ns.pk": "Package", "ns.pk.l": "SourceModule", "...ns": "InvalidRelativeImport"} or
                  self.targets(act, "ns.sub.m") == {"ns.sub": "NamespacePackage", "ns": "NamespacePackage", "ns.sub.k": "SourceModule", "ns.j": "SourceModule",
                                                    "ns.pk": "Package", "...ns": "InvalidRelativeImport"}, "ns.sub.m: %s" % self.targets(act, "ns.sub.m"))
        ctx.check(set(self.targets(act, "ns.pk")) == {"ns", "ns.j", "ns.sub", "ns.sub.k"}, "ns.pk: %s" % self.targets(act, "ns.pk"))

    def probe_same_names_above(self, ctx):
        files = {"p/__init__.py": "", "p/p/__init__.py": "from . import p\n", "p/p/p/__init__.py": "from . import p\nfrom .. import p as q\n", "p/p/p/p.py": "from . import p\nfrom .. import p\nfrom ... import p\n"}
        act = self.run_files(ctx, files, "p.p.p.p")
        ctx.check(set(self.targets(act, "p.p.p.p")) == {"p.p.p", "p.p.p.p", "p.p", "p"}, "targets %s" % self.targets(act, "p.p.p.p"))
        ctx.check(set(act["nodes"]) == {"p", "p.p", "p.p.p", "p.p.p.p"}, "nodes %s" % sorted(act["nodes"]))

    def probe_missing_target(self, ctx):
        act = self.run_files(ctx, {"p/__init__.py": "from .nope import x\nfrom .m.deeper import y\nfrom . import q\n", "p/q.py": "from . import nope2\n", "p/m.py": "", "nope.py": "", "nope2.py": ""}, "p")
        miss = {n for n, c in act["nodes"].items() if c == "MissingModule"}
        ctx.check(miss == {"p.nope", "p.nope2", "p.m.deeper"}, "missing %s" % miss)
        ctx.check(set(act["nodes"]) == miss | {"p", "p.m", "p.q"}, "nodes %s" % sorted(act["nodes"]))

    def probe_invalid_is_shared(self, ctx):
        # one node for one spelling, different nodes for different ones
        act = self.run_files(ctx, {"a.py": "from .x import y", "b.py": "from .x import z\nfrom ..x import z", "x.py": "", "p/__init__.py": "from ..x import y\nfrom .x import q", "p/x.py": ""}, "a", "b", "p")
        inv = {n for n, c in act["nodes"].items() if c == "InvalidRelativeImport"}
        ctx.check(inv == {".x", "..x"}, "invalid %s" % inv)
        ctx.check({a for (a, b) in act["edges"] if b == "..x"} == {"b", "p"} and {a for (a, b) in act["edges"] if b == ".x"} == {"a", "b"}, "edges")
        ctx.check(not any(a in inv for a, b in act["edges"]), "edges of invalid imports")


CHECK = C06()
