"""Broken modules."""
import importlib.util
import marshal
import struct
import sys

import modulegraph2 as mg

from ..build import new_graph, write_files
from ..snap import diff, observe, text
from ..stmts import Raw
from ..world import BAD_SOURCES, make_pyc
from ._world import WorldCheck

TAILS = ["raise Exception", "raise ValueError('x')", "1 / 0", "raise ImportError('no')", "raise ImportError('no', name=__name__)",
         "raise ModuleNotFoundError(\"No module named 'zz'\", name='zz')", "raise ModuleNotFoundError('x', name=__name__)",
         "raise SystemExit", "raise SystemExit(3)", "raise SystemExit('bye')", "exec('def f(:')", "raise AttributeError('__path__')",
         "raise ModuleNotFoundError('__path__ attribute not found on')", "def rec_(): rec_()\nrec_()", "raise RuntimeError(chr(0xdcff))",
         "raise OSError(2, 'x')", "raise ExceptionGroup('x', [ValueError(1)])", "raise AssertionError", "raise NotImplementedError",
         "raise MemoryError", "raise UnicodeDecodeError('utf-8', b'x', 0, 1, 'y')", "raise StopIteration", "raise KeyError('__spec__')",
         "raise ValueError(__name__ + '.__spec__ is None')", "raise ValueError('__spec__')", "raise EOFError", "raise Warning"]


def bad_bytecode(r):
    good = make_pyc(b"import errno\nx = 1\n", "x.py")
    k = r.randrange(9)
    if k == 0:
        return b""
    if k == 1:
        return good[: r.randint(1, 15)]
    if k == 2:
        return good[: r.randint(16, len(good) - 1)]
    if k == 3:
        return b"\0\0\r\n" + good[4:]
    if k == 4:
        return good[:16] + marshal.dumps(r.choice([None, 1, "text", ("a", 1), [], b"x"]))
    if k == 5:
        return b"import errno\n"
    if k == 6:
        return good[:16]
    if k == 7:
        return good[:4] + struct.pack("<I", 0xFF) + good[8:]
    return good[:16] + b"?" * 20


class C14(WorldCheck):
    technique = "runtime monitor: graphs of worlds with broken modules against a reference model that ignores the breakage; exceptions watched"
    level_note = ("Random worlds in which source files are replaced by syntax errors, undecodable or null bytes, bytecode by corrupt files, "
                  "and package __init__ files end with one of 27 ways to raise or exit, in directories and zip files; nothing may be raised "
                  "and the whole graph must be that of the sound world. Random damage inside marshalled code (which can crash the "
                  "interpreter itself) is not generated. Trusts the model.")
    cases = {"quick": 1600, "thorough": 30000}
    rule = "random worlds with broken modules; non-trivial when a broken module is reachable; distinct by nodes and edge attributes"
    minimum = {"broken_reached": 1500, "raising_packages": 800}

    def opts(self, ctx):
        r = ctx.rng
        acyclic = r.random() < 0.5
        return dict(acyclic=acyclic, ntops=(2, 5), maxdepth=2, weird=0.2, zips=r.random() < 0.3, nimports=(1, 5), invalid=True, star=acyclic)

    def make(self, ctx):
        r = ctx.rng
        g = WorldCheck.make(self, ctx)
        w = g.world
        share = r.choice([0.2, 0.5, 1])
        for n, m in w.mods.items():
            zipped = w.entries[m.entry].endswith(".zip")
            if m.kind in ("source", "bytecode") and m.pkg and r.random() < share:
                t = r.choice(TAILS)
                m.tail = [Raw(t, simple="\n" not in t)]
                if t.startswith("def"):
                    m.names.append("rec_")
            if m.kind == "invalid" and m.data is None:
                if not m.pkg and r.random() < 0.4 or (m.pkg and not zipped and r.random() < 0.3):
                    m.suffix = ".pyc"
                    m.data = bad_bytecode(r)
                else:
                    m.data = r.choice(BAD_SOURCES)
        return g

    def is_nontrivial(self, exp, mdl):
        return any(self.broken(mdl.nodes[n]) for n in exp["nodes"])

    def broken(self, node):
        return node.mod is not None and (node.mod.kind == "invalid" or node.mod.tail)

    def more(self, ctx, g, gr, mdl, exp, act):
        for n in act["nodes"]:
            mn = mdl.nodes[n]
            if self.broken(mn):
                ctx.count("broken_reached")
                ctx.count("raising_packages", bool(mn.mod.tail))
            if mn.mod is not None and mn.mod.kind == "invalid":
                node = gr.find_node(n)
                node = node.init_module if mn.mod.pkg else node
                ctx.check(isinstance(node, mg.InvalidModule), "broken %s is a %s" % (n, type(node).__name__))
                ctx.check(node.code is None and not node.globals_written, "broken %s has code or globals" % n)

    # --- fixed cases

    def probe_all_tails(self, ctx):
        files = {"m.py": "", "nsroot/p.py": "import keyword"}
        for i, t in enumerate(TAILS):
            files["p%d/__init__.py" % i] = "import errno\n" + t + "\nimport itertools\n"
            files["p%d/s.py" % i] = "import keyword\nfrom . import t\nfrom .q import u"
            files["p%d/t.py" % i] = "import atexit"
            files["p%d/q/__init__.py" % i] = "import p%d.s\n" % i + t
            files["p%d/q/u.py" % i] = "import resource"
            files["m.py"] += "import p%d.q.u as x%d\nfrom p%d import s, nosub\n" % (i, i, i)
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("m")
        act = observe(gr)
        for i, t in enumerate(TAILS):
            for n, c in {"p%d": "Package", "p%d.s": "SourceModule", "p%d.t": "SourceModule", "p%d.q": "Package", "p%d.q.u": "SourceModule",
                         "p%d.nosub": "MissingModule"}.items():
                ctx.check(act["nodes"].get(n % i) == c, "%s is %s with %r" % (n % i, act["nodes"].get(n % i), t))
            for a, b in [("p%d", "errno"), ("p%d", "itertools"), ("p%d.s", "keyword"), ("p%d.t", "atexit"), ("p%d.q.u", "resource"), ("p%d.s", "p%d.t"),
                         ("p%d.s", "p%d.q.u"), ("p%d.q", "p%d.s")]:
                a, b = a % i, b % i if "%" in b else b
                ctx.check((a, b) in act["edges"], "no edge %s -> %s with %r" % (a, b, t))

    def probe_all_sources(self, ctx):
        files = {"m.py": ""}
        for i, s in enumerate(BAD_SOURCES):
            files["b%d.py" % i] = s
            files["p%d/__init__.py" % i] = s
            files["p%d/s.py" % i] = "import errno"
            files["m.py"] += "import b%d, p%d.s, b%d.x\nfrom p%d import nope, s as t\nfrom b%d import *\nfrom p%d import *\n" % ((i,) * 6)
        files["m.py"] += "import keyword\n"
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("m")
        act = observe(gr)
        ctx.check("keyword" in act["nodes"], "imports after the broken ones are lost")
        for i in range(len(BAD_SOURCES)):
            for n, c in {"b%d": "InvalidModule", "p%d": "Package", "p%d.s": "SourceModule", "p%d.nope": "MissingModule", "b%d.x": "MissingModule"}.items():
                ctx.check(act["nodes"].get(n % i) == c, "%s is %s: %r" % (n % i, act["nodes"].get(n % i), BAD_SOURCES[i]))
            ctx.check(type(gr.find_node("p%d" % i).init_module).__name__ == "InvalidModule", "__init__ of p%d" % i)

    def probe_zip_package(self, ctx):
        # finding: zipimport cannot say that the broken module is a package
        import zipfile
        root = write_files(ctx, {})
        with zipfile.ZipFile(root + "/z.zip", "w") as zf:
            zf.writestr("p/__init__.py", "def f(:\n")
            zf.writestr("p/s.py", "import errno\n")
        sys.path.insert(0, root + "/z.zip")
        gr = new_graph()
        gr.add_module("p.s")
        act = observe(gr)
        ctx.check(act["nodes"].get("p") == "Package" and act["nodes"].get("p.s") == "SourceModule", "nodes %s" % act["nodes"])

    def probe_broken_root(self, ctx):
        write_files(ctx, {"b.py": "def f(:", "c.pyc": b"x", "p/__init__.py": "raise SystemExit(4)", "p/s.py": "import errno", "nul.py": b"\0"})
        gr = new_graph()
        for n in ("b", "c", "p.s", "nul", "p"):
            gr.add_module(n)
        act = observe(gr)
        ctx.check(act["nodes"] == {"b": "InvalidModule", "c": "InvalidModule", "p": "Package", "p.s": "SourceModule", "errno": "BuiltinModule",
                                   "nul": "InvalidModule"}, "nodes %s" % act["nodes"])

    def probe_huge_nesting(self, ctx):
        # the compiler gives up with other errors than syntax errors
        n = 5000
        write_files(ctx, {"m.py": "import a, b, c, d\nimport errno", "a.py": "x = " + "(" * n + ")" * n, "b.py": "x = " + "-" * 20 * n + "1",
                          "c.py": "x = " + "[" * 150 + "]" * 150, "d.py": "".join(" " * i + "if x:\n" for i in range(120)) + " " * 120 + "pass"})
        gr = new_graph()
        gr.add_module("m")
        act = observe(gr)
        ctx.check("errno" in act["nodes"] and {"a", "b", "c", "d"} <= set(act["nodes"]), "nodes %s" % act["nodes"])


CHECK = C14()
