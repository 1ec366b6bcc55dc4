"""Every import statement is found."""
from ..build import activate, new_graph, write_files
from ..check import Check
from ..model import Model
from ..snap import diff, observe, text
from ..stmts import Bind, Block, From, Import, Nester, Raw
from ..world import Mod, World

LOOKALIKES = [
    "x_ = 'import not_me_1'", "b'import not_me_2'", "'''\nimport not_me_3\nfrom not_me_3 import a\n'''", "r'\\import not_me_4'",
    "f'import not_me_5 {1} import not_me_5'", "f'''{1}\nimport not_me_6\n'''", "0  # import not_me_7", "import_not_me = 8; import_ = 9",
    "x_ = 'a' 'import not_me_10'", "exec('import not_me_11') if 0 else None", "lambda: 'import not_me_12'",
    "x_ = {'import': 1, 'from': 'not_me_13'}", "x_ = 1 # ; import not_me_14", "x_ = [import_ for import_ in ()]",
    "'from . import not_me_15'", "x_ = \"\"\"\\\nimport not_me_16\"\"\"", "eval('__import__')('not_me_17') if 0 else 0",
    "def g_(imp: 'import not_me_18') -> 'import not_me_19': 'import not_me_20'",
    "class C_: 'import not_me_21'", "async def h_(): '''import not_me_22'''", "x_: 'import not_me_23'", "assert 1, 'import not_me_24'",
]


class C02(Check):
    technique = "runtime monitor: edges of one observed module against the list of import statements it was written from"
    level_note = ("Single modules, package __init__ files and scripts with up to ~60 import statements in deep random nestings of every "
                  "compound statement (all parts), several encodings and line endings, and look-alike text; each statement has targets of "
                  "its own, so a lost or an invented import is seen. Trusts the renderer.")
    cases = {"quick": 2000, "thorough": 40000}
    rule = "one random module with 1-60 import statements; non-trivial with at least 5; distinct by nesting and form of its statements"
    minimum = {"statements": 8000, "max_depth_5_or_more": 200, "lookalikes": 800}

    def case(self, ctx):
        r = ctx.rng
        w = World(r, 1)
        w.weird = r.choice([0.3, 1, 2])
        where = r.choice(["module", "package", "script", "sub", "bytecode"])
        name = {"module": "top", "package": "top", "script": "s.py", "sub": "top.mid.low", "bytecode": "top.mid.low"}[where]
        if where in ("sub", "bytecode"):
            w.add(Mod("top", "source", True))
            w.add(Mod("top.mid", "source", True))
        for i in range(4):
            w.add(Mod("real%d" % i, r.choice(["source", "source", "ext", "nspkg"])))
        if where == "script":
            m = w.add_script("s.py", [])
        else:
            m = w.add(Mod(name, "bytecode" if where == "bytecode" else "source", where == "package"))
        if where != "script":
            for i in range(3):
                base = name if where == "package" else name.rpartition(".")[0]
                if base:
                    w.add(Mod("%s.rel%d" % (base, i)))
        leaves = []
        n = r.choice([1, 3, 8, 20, 60])
        for i in range(r.randint(1, n)):
            k = r.random()
            t = r.choice(["t%d" % i, "t%d" % i, "t%d.s.u" % i, "real%d" % r.randrange(4), "b%d\u00e9" % i, "errno", "top.x%d" % i])
            if where == "bytecode" and t.startswith("top."):
                t = "t%d" % i
            if k < 0.35:
                items = [(t, r.choice([None, None, "as_%d" % i]))]
                for j in range(r.choice([0, 0, 0, 1, 2, 6])):
                    items.append(("t%d_%d" % (i, j), r.choice([None, "as_%d_%d" % (i, j)])))
                leaves.append(Import(*items))
            elif k < 0.7:
                leaves.append(From(0, t, [("n%d_%d" % (i, j), r.choice([None, "as_%d_%d" % (i, j)])) for j in range(r.choice([1, 1, 2, 5, 30]))]))
            elif k < 0.85:
                if where in ("sub", "package", "bytecode"):
                    f = r.randrange(3)
                    lvl = 1
                    if f == 0:
                        leaves.append(From(lvl, "", [("rel%d" % r.randrange(3), None)]))
                    elif f == 1:
                        leaves.append(From(lvl, "rel%d" % r.randrange(3), [("n%d" % i, None)]))
                    else:
                        leaves.append(From(r.randint(1, 5), "q%d" % i, [("n%d" % i, None)]))
                else:
                    leaves.append(From(r.randint(1, 3), "q%d" % i, [("n%d" % i, None)]))
            elif k < 0.95:
                leaves.append(Import(("w%d" % i), ("v%d.w" % i)))
            else:
                leaves.append(Import(t))
        nimports = len(leaves)
        mixed = []
        for s in leaves:
            if r.random() < 0.25:
                ctx.count("lookalikes")
                txt = r.choice(LOOKALIKES)
                mixed.append(Raw(txt, simple="\n" not in txt and not txt.startswith(("def ", "class ", "async ", "#")) and "#" not in txt))
            mixed.append(s)
        nest = Nester(r, maxdepth=r.choice([1, 3, 6, 12]), pblock=r.choice([0.3, 0.6, 0.9]), dead=where != "bytecode")
        m.tree = nest.tree(mixed)
        if where == "bytecode":
            m.style = None
        w.write(ctx.dir)
        activate(ctx, w)
        mdl = Model(w)
        gr = new_graph()
        ctx.note(files=w.dump())
        if where == "script":
            p = w.script_path("s.py")
            mdl.add_script(p, m)
            gr.add_script(p)
            name = p
        else:
            mdl.add_module(name)
            gr.add_module(name)
        act = observe(gr)
        exp = mdl.snapshot()
        d = [x for x in diff(exp, act, attrs=False) if x.kind.endswith("-edge") and x[1][0] == name or x.kind.endswith("-node")]
        ctx.check(not d, lambda: "imports of %s: %s" % (name, text(d)))
        depth = max_depth(m.tree)
        ctx.count("statements", nimports)
        ctx.count("max_depth_5_or_more", depth >= 5)
        ctx.nontrivial(nimports >= 5)
        ctx.sig(where, shape(m.tree))
        ctx.sample({"where": where, "files": w.dump()})

    # --- fixed cases

    def one(self, ctx, src, expected, name="m.py"):
        write_files(ctx, {name: src})
        gr = new_graph()
        gr.add_module("m")
        act = observe(gr)
        got = {b for a, b in act["edges"] if a == "m"}
        ctx.check(got == set(expected), "imports are %s, expected %s" % (sorted(got), sorted(expected)))

    def probe_encodings(self, ctx):
        for i, (enc, decl) in enumerate([("utf-8", None), ("latin-1", "latin-1"), ("utf-8-sig", None), ("cp1251", "cp1251"),
                                         ("euc-jp", "euc-jp"), ("utf-8-sig", "utf-8"), ("koi8-r", "koi8-r")]):
            for nl in ("\n", "\r\n", "\r"):
                src = nl.join((["#!/usr/bin/python", "# -*- coding: %s -*-" % decl] if decl else []) + ["x = 'a'", "import errno", "if x:", "  import atexit", ""])
                sub = "e%d%r" % (i, nl)
                from ..build import write_files as wf
                import sys
                sys.modules.pop("m", None)
                wf(ctx, {"m.py": src.encode(enc)}, sub=sub.replace("\\", "_").replace("'", ""))
                gr = new_graph()
                gr.add_module("m")
                got = {b for a, b in observe(gr)["edges"] if a == "m"}
                ctx.check(got == {"errno", "atexit"}, "encoding %s, line ending %r: %s" % (enc, nl, sorted(got)))

    def probe_deep_if(self, ctx):
        n = 90
        src = "".join(" " * i + "if x:\n" for i in range(n)) + " " * n + "import errno\n"
        self.one(ctx, src, ["errno"])

    def probe_deep_functions(self, ctx):
        n = 90
        src = "".join(" " * i + "def f():\n" for i in range(n)) + " " * n + "import errno\n" + \
            "".join(" " * i + "import t%d\n" % i for i in range(n - 1, 0, -1))
        self.one(ctx, src, ["errno"] + ["t%d" % i for i in range(1, n)])

    def probe_long_elif(self, ctx):
        n = 800
        src = "if x == 0:\n  import t0\n" + "".join("elif x == %d:\n  import t%d\n" % (i, i) for i in range(1, 90)) + "else:\n  import errno\n"
        self.one(ctx, src, ["errno"] + ["t%d" % i for i in range(90)])

    def probe_unreachable(self, ctx):
        self.one(ctx, "def f():\n  return 1\n  import a1\nif 0:\n  import a2\nelse:\n  import a3\nwhile False:\n  import a4\n"
                      "raise SystemExit\nimport a5\nif __debug__:\n  import a6\nfor x in ():\n  break\n  import a7\nassert 0\n"
                      "from a8 import (b,\n c)\n", ["a%d" % i for i in range(1, 9)])

    def probe_compound(self, ctx):
        self.one(ctx, "import a1; import a2\nif 1: import a3; from a4 import x\nclass A: import a5\ndef f(): import a6; return a6\n"
                      "async def g():\n  async with f(): import a7\n  async for i in g(): import a8\n  else: import a9\n"
                      "match 1:\n  case 1 if f(): import b1\n  case _: import b2\n"
                      "try: import b3\nexcept* ValueError: import b4\nelse: import b5\nfinally: import b6\n"
                      "try: import b7\nfinally: import b8\nwith f(): import b9\nfor i in f(): import c1\nelse: import c2\n"
                      "while f(): import c3\nelse: import c4\ndef g[T](x: T): import c5\nclass B[T]: import c6\n"
                      "@f\nclass D(B):\n  @f\n  def m(self):\n    class E:\n      import c7\ntype X = int; import c8\n\\\nimport c9\n",
                 ["a%d" % i for i in range(1, 10)] + ["b%d" % i for i in range(1, 10)] + ["c%d" % i for i in range(1, 10)])


def max_depth(tree):
    return max([0] + [1 + max_depth(b) for s in tree if isinstance(s, Block) for _, b in s.parts])


def shape(tree):
    return [(s.kind, [(p, shape(b)) for p, b in s.parts]) if isinstance(s, Block) else type(s).__name__[0] for s in tree]


CHECK = C02()
