"""Modules that only have bytecode."""
import os
import warnings

import modulegraph2 as mg

from ..build import activate, new_graph, write_files
from ..check import Check
from ..gen import gen_world
from ..pygen import Gen
from ..snap import diff, observe, text
from ..world import make_pyc

SUBS = ["sub", "s1", "s2", "util", "core", "_impl", "init", "test", "\u00fcber", "data", "v1", "main", "S1"]
FROM = {"lib": ["x1", "x2"], "libp": ["y1", "sub", "sub2"], "nope": ["z1"], "libp.q": ["a", "b"]}
FILES = {"lib.py": "x1 = x2 = 1\n", "libp/__init__.py": "y1 = 1\n", "libp/sub.py": "", "libp/sub2.py": "import errno", "libp/q/__init__.py": "a = 1\n"}
IMPORTS = ["lib", "libp", "libp.sub", "nope", "nope.sub", "errno", "lib.nosub", "libp.q.a"]


def fold(obs):
    """What has to be the same: edges as (in function, from-list, optional where it is settled)."""
    edges = {}
    for k, deps in obs["edges"].items():
        edges[k] = {(not glob, fl) for opt, glob, fl, asname in deps}
        bad = [d for d in deps if not d[1] and not d[0]]
        if bad:
            edges[k].add(("in a function, but not optional",))
    nodes = {}
    for n, c in obs["nodes"].items():
        nodes[n] = {"SourceModule": "Module", "BytecodeModule": "Module"}.get(c, c)
    return {"nodes": nodes, "edges": edges, "roots": obs["roots"]}


class C04(Check):
    technique = "runtime monitor: differential observation of a module's graph with its source and with its bytecode only"
    level_note = ("Random worlds and random module texts (all statement nestings, more than 255 names and constants, generics, closures, "
                  "relative and star imports) are analysed twice, with sources and with compiled files only (all or a subset); nodes, edges, "
                  "in-function and from-list attributes and global names must agree. Code that the compiler drops is not generated.")
    cases = {"quick": 1100, "thorough": 30000}
    rule = "random worlds and texts; non-trivial with at least 4 edges from bytecode modules; distinct by nodes and edge attributes"
    minimum = {"bytecode_edges": 6000, "in_function": 1000, "long_arguments": 150}

    def case(self, ctx):
        warnings.simplefilter("ignore")
        if ctx.rng.random() < 0.35:
            return self.text_case(ctx)
        r = ctx.rng
        g = gen_world(r, ntops=(1, 4), bytecode=False, reexport=False, sametop=False, subs=SUBS, acyclic=r.random() < 0.5, star=True, asnames=0.15,
                      invalid=False, ext=False, nimports=(1, 6), maxdepth=4, weird=0.3)
        w = g.world
        for m in w.mods.values():
            if m.kind == "source" and r.random() < 0.2:
                n = r.choice([100, 260, 300, 520])
                m.header = ["h%d_ = %d.25" % (i, i) for i in range(n)]
                ctx.count("long_arguments", n >= 260)
        src = self.build(ctx, g, "src")
        some = [m for m in w.mods.values() if m.kind == "source" and (r.random() < 0.7)]
        for m in some:
            w.source(m)
            m.kind = "bytecode"
        byt = self.build(ctx, g, "byt")
        self.compare(ctx, src, byt, {m.name for m in some})

    def build(self, ctx, g, sub):
        w = g.world
        root = os.path.join(ctx.dir, sub)
        os.makedirs(root)
        w.write(root)
        activate(ctx, w)
        ctx.note(files=w.dump(), roots=g.roots)
        import sys
        for n in [n for n in sys.modules if n in w.mods]:
            del sys.modules[n]
        gr = new_graph()
        for kind, n in g.roots:
            gr.add_script(w.script_path(n)) if kind == "script" else gr.add_module(n)
        obs = observe(gr, root)
        names = {}
        for n in gr.nodes():
            if isinstance(n, (mg.Module, mg.Package)) and n.identifier in obs["nodes"]:
                names[n.identifier] = (sorted(n.globals_written), sorted(n.globals_read))
        return obs, names, gr

    def compare(self, ctx, src, byt, changed):
        (o1, n1, g1), (o2, n2, g2) = src, byt
        d = diff(fold(o1), fold(o2))
        ctx.check(not d, lambda: "with bytecode only: " + text(d), differences=[str(x) for x in d[:30]])
        for n in n1:
            ctx.check(n1[n] == n2.get(n), lambda: "global names of %s with source, bytecode: %s, %s" % (n, n1[n], n2.get(n)))
        for n in changed & set(o2["nodes"]):
            node = g2.find_node(n)
            node = node.init_module if isinstance(node, mg.Package) else node
            ctx.check(isinstance(node, mg.BytecodeModule), "%s is a %s" % (n, type(node).__name__))
        k = 0
        for (a, b), deps in o2["edges"].items():
            if a in changed:
                k += 1
                ctx.count("bytecode_edges")
                ctx.count("in_function", any(not d[1] for d in deps))
                ctx.check(all(d[3] is None for d in deps), "'as' name from bytecode: %s -> %s %s" % (a, b, deps))
        ctx.nontrivial(k >= 4)
        ctx.sig(sorted(o2["nodes"].values()), sorted(str(sorted(map(str, v))) for v in o2["edges"].values()))
        ctx.sample({"nodes": o2["nodes"], "edges": [[a, b, sorted(map(str, v))] for (a, b), v in list(o2["edges"].items())[:60]]})

    def graph_of(self, ctx, files, roots, sub):
        import sys
        write_files(ctx, files, sub=sub)
        for n in list(sys.modules):
            if n.split(".")[0] in ("lib", "libp", "m", "p"):
                del sys.modules[n]
        gr = new_graph()
        for n in roots:
            gr.add_module(n)
        obs = observe(gr)
        names = {n.identifier: (sorted(n.globals_written), sorted(n.globals_read)) for n in gr.nodes()
                 if isinstance(n, (mg.Module, mg.Package)) and n.identifier in obs["nodes"]}
        return obs, names, gr

    def text_case(self, ctx):
        r = ctx.rng
        g = Gen(r, IMPORTS, FROM, generics=r.choice([False, True, "all"]), stars=["lib", "libp"])
        t = g.module()
        if r.random() < 0.3:
            n = r.choice([260, 600])
            ctx.count("long_arguments")
            t = "".join("h%d_ = %d.5\n" % (i, i) for i in range(n)) + t
            compile(t, "x", "exec")
        pkg = r.random() < 0.5
        if pkg:
            rel = ["from . import s", "from .s import x", "def f_():\n    from . import s as s_", "from .t import y"]
            # the package is imported when its submodules are looked up: stop there
            t = "assert not __name__\n" + t + "\n".join(r.sample(rel, 2)) + "\n"
        f1, f2 = dict(FILES), dict(FILES)
        fn = "p/__init__" if pkg else "m"
        root = "p" if pkg else "m"
        if pkg:
            f1["p/s.py"] = f2["p/s.py"] = "x = 1"
            f1["p/t/__init__.py"] = f2["p/t/__init__.py"] = "import errno"
        f1[fn + ".py"] = t
        f2[fn + ".pyc"] = make_pyc(t, fn + ".py")
        ctx.note(text=t)
        src = self.graph_of(ctx, f1, [root], "src")
        byt = self.graph_of(ctx, f2, [root], "byt")
        ctx.note(text=t)
        self.compare(ctx, src, byt, {root})

    # --- fixed cases

    def same(self, ctx, t):
        ctx.note(text=t[:4000])
        src = self.graph_of(ctx, dict(FILES, **{"m.py": t}), ["m"], "src")
        byt = self.graph_of(ctx, dict(FILES, **{"m.pyc": make_pyc(t, "m.py")}), ["m"], "byt")
        self.compare(ctx, src, byt, {"m"})
        return byt[0]

    def probe_generic_class(self, ctx):
        self.same(ctx, "class C[T]:\n    import lib\n    def f[S](self):\n        import libp\ndef g[T]():\n    class D[S]:\n        import errno\ntype X[T] = T\n")

    def probe_generic_class_with_bases(self, ctx):
        self.same(ctx, "class C[T: int](dict[T, str], metaclass=type):\n    import lib\n    class D[S, *Ts, **P]:\n        from libp import sub\n")

    def probe_class_with_closure(self, ctx):
        self.same(ctx, "class A:\n    import errno\n    class B:\n        import lib\n        def f(self):\n            import libp\n            return __class__\n"
                       "    def g(self):\n        super().g()\n        class E:\n            import libp.sub\n            def h(s): return self\n    x = [lambda: 1 for y in z]\n")

    def probe_three_prefixes(self, ctx):
        n = 66000
        t = "".join("v%d = %d.5\n" % (i, i) for i in range(n)) + "import libp.sub\nfrom libp import sub2, y1\ndef f():\n    from lib import x1\n    import libp.q.a\nclass C:\n    import errno\n"
        got = self.same(ctx, t)
        ctx.check({b for a, b in got["edges"] if a == "m"} == {"libp.sub", "libp.sub2", "libp", "lib", "libp.q.a", "errno"}, "edges of m: %s" % sorted(got["edges"]))

    def probe_prefix_boundaries(self, ctx):
        for n in list(range(248, 262)) + [512, 1024]:
            t = "".join("v%d = %d.5\n" % (i, i) for i in range(n)) + "import libp.sub\nfrom libp import sub2\ndef f():\n    from lib import x1\nclass C:\n    import errno\n    def g(s): import lib\n"
            got = self.same(ctx, t)
            ctx.check({b for a, b in got["edges"] if a == "m"} == {"libp.sub", "libp.sub2", "libp", "lib", "errno"}, "edges with %d names" % n)
            t = "def f():\n" + "".join("  v%d = %d.5, a%d.b%d\n" % (i, i, i, i) for i in range(n // 2)) + "  import libp.sub\n  from libp import sub2\n"
            self.same(ctx, t)

    def probe_positions(self, ctx):
        body = ["import lib", "from libp import sub, sub2", "import libp.q.a as z", "from libp.q import *"]
        for wrap in ["%s", "if x:\n    %s\nelse:\n    pass", "try:\n    %s\nexcept E:\n    pass\nfinally:\n    pass", "try:\n    pass\nexcept* E:\n    %s", "for i in x:\n    %s",
                     "with x as y:\n    %s", "while x:\n    %s", "match x:\n    case [a, *b]:\n        %s", "def f():\n    %s", "async def f():\n    async with x:\n        %s",
                     "class C:\n    %s", "class C:\n    def f(self):\n        %s", "def f():\n    class C:\n        %s", "def f():\n    def g():\n        class C:\n            def h(s):\n                %s",
                     "@d(lambda: 1)\ndef f(a=[b for b in c], *, d=lambda: 1) -> {e: f for e, f in g}:\n    %s", "def f(a):\n    def g():\n        nonlocal a\n        %s\n        yield a",
                     "lambda: (yield)\nclass C(x, y=lambda: 1, metaclass=m):\n    %s", "class C:\n    class D:\n        class E:\n            %s", "x = [lambda: 0 for i in y]; %s"]:
            for b in body:
                if "*" in b and ("def " in wrap or "class " in wrap):
                    continue
                self.same(ctx, wrap % b + "\n")

    def probe_deep_functions(self, ctx):
        t = ""
        for i in range(18):
            t += " " * i + "def f%d():\n" % i + " " * i + " import lib\n"
        t += " " * 18 + "import errno\n"
        got = self.same(ctx, t)
        ctx.check(got["edges"][("m", "errno")] == {(True, False, False, None)}, "attributes of the innermost import")


CHECK = C04()
