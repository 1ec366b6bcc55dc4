"""The recorded global names."""
import os
import warnings

import modulegraph2 as mg

from ..build import new_graph, write_files
from ..check import Check
from ..pygen import Gen
from ..symt import names_of
from ..world import make_pyc

FROM = {"lib": ["x1", "x2", "n1", "n2", "f1"], "libp": ["y1", "n3", "sub"], "nope": ["z1", "n4"]}
FILES = {"lib.py": "x1 = x2 = n1 = n2 = f1 = 1\n", "libp/__init__.py": "y1 = n3 = 1\n", "libp/sub.py": ""}
IMPORTS = ["lib", "libp", "libp.sub", "nope", "nope.sub", "errno", "lib.nosub"]
MAY_WRITE = {"__doc__", "__annotations__"}
MAY_READ = {"__annotations__", "__class__", "__doc__"}


class C05(Check):
    technique = "runtime monitor: names recorded on analysed modules against the compiler's symbol tables"
    level_note = ("Random source text with every binding and reading construct (nested functions, classes, lambdas, comprehensions, walrus, "
                  "match, with, except, del, global, star and from imports) is analysed as module, package, zip member and bytecode file; "
                  "globals_written, globals_read and the dunder flags must equal what symtable says. Reads inside type parameter scopes and "
                  "comprehensions of class bodies are not judged. Trusts symtable.")
    cases = {"quick": 1700, "thorough": 60000}
    rule = "random module texts; non-trivial with at least 10 names bound and read; distinct by text"
    minimum = {"names_bound": 12000, "names_read": 12000, "stars": 150}

    def case(self, ctx):
        warnings.simplefilter("ignore")
        r = ctx.rng
        files = dict(FILES)
        stars = {}
        for i in range(r.choice([0, 0, 1, 2])):
            g = Gen(r, ["errno"], {})
            t = g.module(r.randint(1, 4))
            stars["st%d" % i] = {n for n in names_of(t)[0] if not n.startswith("cv")}
            files["st%d.py" % i] = t
        g = Gen(r, IMPORTS, FROM, generics=r.random() < 0.2, stars=list(stars))
        text = g.module()
        if r.random() < 0.1:
            # many names and constants, so that arguments of instructions need a prefix
            text = "".join("w%d = %d.5\n" % (i, i) for i in range(r.choice([200, 300, 600]))) + text
            compile(text, "x", "exec")
        layout = r.randrange(4)
        ctx.note(text=text)
        if layout == 0:
            files["m.py"] = text
        elif layout == 1:
            files["m/__init__.py"] = text
        elif layout == 2:
            files["m.pyc"] = make_pyc(text, "m.py")
        else:
            files["q/__init__.py"] = ""
            files["q/m.py"] = text
        write_files(ctx, files)
        name = "q.m" if layout == 3 else "m"
        gr = new_graph()
        node = gr.add_module(name)
        bound, must, may = names_of(text)
        # variables of inlined comprehensions are in the table of the module
        bound = {n for n in bound | g.listed if not n.startswith("cv")}
        must |= g.aug_read | g.comp_must
        may |= must | g.comp_may
        for st in g.star_used:
            ctx.count("stars")
            bound |= stars[st]
        self.judge(ctx, node, bound, must, may)
        ctx.nontrivial(len(bound) >= 10 and len(must) >= 10)
        ctx.sig(text)
        ctx.sample({"text": text[:3000], "written": sorted(node.globals_written), "read": sorted(node.globals_read)})

    def judge(self, ctx, node, bound, must, may):
        got = set(map(str, node.globals_written))
        ctx.count("names_bound", len(got))
        ctx.check(bound - MAY_WRITE <= got <= bound | MAY_WRITE,
                  lambda: "globals written: lacks %s, too many %s" % (sorted(bound - got - MAY_WRITE), sorted(got - bound - MAY_WRITE)))
        got = set(map(str, node.globals_read))
        ctx.count("names_read", len(got))
        must = {n for n in must if not n.startswith("cv")}
        ctx.check(must - MAY_READ <= got <= may | MAY_READ,
                  lambda: "globals read: lacks %s, too many %s" % (sorted(must - got - MAY_READ), sorted(got - may - MAY_READ)))
        mod = node.init_module if isinstance(node, mg.Package) else node
        for attr, n in (("uses_dunder_import", "__import__"), ("uses_dunder_file", "__file__")):
            ctx.check(not (n in must and not getattr(mod, attr)), "%s is false, although %s is read" % (attr, n))
            ctx.check(not (n not in may and getattr(mod, attr)), "%s is true, although %s is not read" % (attr, n))

    # --- fixed cases

    def text(self, ctx, text, written, read=None, may=()):
        write_files(ctx, dict(FILES, **{"m.py": text}))
        gr = new_graph()
        node = gr.add_module("m")
        w, rd = set(node.globals_written) - MAY_WRITE, set(node.globals_read) - MAY_READ
        ctx.check(w == set(written), "written %s, expected %s" % (sorted(w), sorted(written)))
        if read is not None:
            ctx.check(set(read) <= rd <= set(read) | set(may), "read %s, expected %s" % (sorted(rd), sorted(read)))
        return node

    def probe_imports(self, ctx):
        self.text(ctx, "import errno, libp.sub, lib as l2, libp.sub as l3\nfrom lib import x1 as y, x2\nfrom nope import z as zz\n",
                  ["errno", "libp", "l2", "l3", "x1", "y", "x2", "z", "zz"], [])

    def probe_function_level_imports(self, ctx):
        self.text(ctx, "def f():\n  from lib import x1\n  import errno\n  from libp import y1 as a, sub\nclass C:\n  from lib import x2\n  import lib\n"
                       "def g():\n  global n1, n2\n  from lib import n1\n  import errno as n2\n", ["f", "C", "g", "n1", "n2"], [])

    def probe_class_with_global(self, ctx):
        self.text(ctx, "class C:\n  global a, b\n  a = 1\n  c = 2\n  def b(self): pass\n", ["C", "a", "b"], [])

    def probe_nested(self, ctx):
        self.text(ctx, "def f(x):\n  y = x\n  def g():\n    nonlocal y\n    y = z\n    global q\n    class D:\n      k = u\n      def m(self): return v, y, __class__\n"
                       "    for q in y: pass\n", ["f", "q"], ["z", "v"], [])

    def probe_comprehensions(self, ctx):
        self.text(ctx, "a = [b for b in c]\nd = {e: f for e, f in g if h}\n[i := j for k in l]\nm = list(n for n in o)\n", ["a", "d", "i", "m"],
                  ["c", "g", "h", "j", "l", "list", "o"])

    def probe_bindings(self, ctx):
        self.text(ctx, "for a, *b in c: pass\nwith d as (e, f): pass\ntry: pass\nexcept g as h: pass\nmatch i:\n  case [j, *k]: pass\n  case {'x': l, **m}: pass\n"
                       "  case n.o(p=q) as r: pass\ns: t = 1\nu += v\nw[x] = 1\ny.z = 2\nasync def aa(bb=cc, *dd: ee): pass\n@ff\nclass gg(hh, ii=jj): kk = 1\n(ll := mm)\ndel nn\n",
                  list("abefhjklmqrsu") + ["aa", "gg", "ll"], list("cdgintuvwxy") + ["cc", "ee", "ff", "hh", "jj", "mm"])

    def probe_dunder(self, ctx):
        for text, imp, fil in [("def f():\n  return __import__('x')\n", True, False), ("x = __file__\n", False, True), ("class C:\n  def f(self): __file__\n", False, True),
                               ("x.__import__\n'__file__'\n", False, False), ("def f(__import__, __file__): return __import__, __file__\n", False, False),
                               ("lambda: [__import__ for __file__ in x]\n", True, False), ("import __file__\n", False, False)]:
            write_files(ctx, {"m.py": text, "p/__init__.py": text})
            for n in "mp":
                gr = new_graph()
                node = gr.add_module(n)
                node = node.init_module if n == "p" else node
                ctx.check((node.uses_dunder_import, node.uses_dunder_file) == (imp, fil), "flags of %r" % text)

    def probe_prefixes(self, ctx):
        # more than 65536 names: two prefixes per instruction
        n = 66000
        text = "".join("v%d=%d\n" % (i, i) for i in range(n)) + "def f():\n  global last\n  last = first\nimport errno as imported\nfrom lib import x1\n"
        node = self.text(ctx, text, ["v%d" % i for i in range(n)] + ["f", "last", "imported", "x1"], ["first"])
        ctx.check(len(node.globals_written) > n, "names")

    def probe_star(self, ctx):
        self.text(ctx, "from lib import *\nfrom libp import *\nfrom nope import *\nfrom errno import *\nz = 1\n", ["x1", "x2", "n1", "n2", "f1", "y1", "n3", "z"], [])

    def probe_encoding(self, ctx):
        write_files(ctx, {"m.py": "# -*- coding: latin-1 -*-\n\u00e9 = \u00f8\n".encode("latin-1")})
        node = new_graph().add_module("m")
        ctx.check(node.globals_written == {"\u00e9"} and node.globals_read == {"\u00f8"}, "names of a latin-1 module")

    def probe_normalised(self, ctx):
        # identifiers are normalised (NFKC)
        self.text(ctx, "\ufb01 = \u210c\n", ["fi"], ["H"])


CHECK = C05()
