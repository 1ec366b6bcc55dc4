"""Dependencies of source strings."""
import os

import modulegraph2 as mg

from ..build import activate, add_roots, new_graph, write_files
from ..check import Check
from ..gen import gen_world, size_sig
from ..model import Model, Node
from ..snap import diff, observe, text
from .c16 import random_implies

BAD = ["import (", "from a import\n", "import a as\n", "def f(:\n    import errno\n", "import errno\nimport atexit, \n", "from . import (a\n", "if 1:\nimport errno\n", "x = '''\nimport errno\n",
       "import errno\n\tx = 1\n", "import a.\n", "from .a. import b\n", "import errno; import 1\n", "print 1\n", "\0", "import errno\n\0import atexit\n", "async def f(): import a b\n", "from a import *, b\n"]


def add_source(mdl, m):
    """The documented effect on the reference model."""
    for rec in m.records():
        if rec.level:
            bad = "." * rec.level + rec.mod
            if bad not in mdl.nodes:
                mdl.add(Node(bad, "InvalidRelativeImport"))
            mdl.roots.add(bad)
            continue
        target = mdl.add_module(rec.mod)
        if target.cls == "AliasNode":
            target = mdl.nodes[target.target]
        if rec.kind in ("import", "star") or target.cls not in ("Package", "NamespacePackage"):
            continue
        for nm, _ in rec.names:
            if nm not in target.globals:
                mdl.add_module(target.name + "." + nm)


class C37(Check):
    technique = "runtime monitor: graphs after source strings are added against a reference model of the statements in them; nothing may run, failures may change nothing"
    level_note = ("Random source strings (all import forms, nesting, relative imports, odd layout) over random worlds with exclusions, aliases and other roots before and after; "
                  "roots, nodes, edges and attributes must be those of the model; the process is watched for modules of the world that run and for lines of the source that run; "
                  "17 kinds of broken source.")
    cases = {"quick": 800, "thorough": 20000}
    rule = "random worlds and sources; non-trivial with at least 3 roots from sources; distinct by nodes and edges"
    minimum = {"sources": 1100, "source_roots": 2500, "submodule_roots": 300, "relative": 150, "broken": 250, "missing_roots": 300, "repeated": 100}

    def case(self, ctx):
        r = ctx.rng
        implied = r.random() < 0.3
        # implications change the order in which modules are processed
        order = dict(acyclic=False, star=False, reexport=False) if implied else {}
        g = gen_world(r, ntops=(2, 5), maxsubs=4, scripts=(1, 4), weird=r.choice([0.2, 1]), nimports=(0, 6), pmissing=0.4, fromn=4,
                      zips=r.random() < 0.1, **order)
        w = g.world
        w.write(ctx.dir)
        activate(ctx, w)
        imp = random_implies(r, g, 3) if implied else {}
        exc = r.sample(g.order, 1) if r.random() < 0.25 else []
        sources = {}
        for n in g.script_order:
            m = w.scripts[n]
            data = w.source(m)
            try:
                sources[n] = data.decode("utf-8-sig")
            except UnicodeDecodeError:
                sources[n] = data.decode(m.style.encoding)
        ops = [("source", n) for n in g.script_order]
        ops += [x for x in g.roots if x[0] != "script" and r.random() < 0.4]
        if r.random() < 0.2:
            ops.append(("source", r.choice(g.script_order)))
            ctx.count("repeated")
        for _ in range(r.choice([0, 0, 1, 2])):
            ops.append(("broken", r.choice(BAD)))
        if r.random() < 0.2:
            ops.append(("script", r.choice(g.script_order)))
        r.shuffle(ops)
        ctx.note(files=w.dump(), operations=ops, sources=sources, implies=imp, excludes=exc)
        gr = new_graph(implies=imp, excludes=exc)
        mdl = Model(w, imp, exc)
        submodules = 0
        for kind, n in ops:
            if kind == "source":
                before = {x.identifier for x in gr.roots()}
                trap = "raise SystemExit('this runs')\n"
                s = sources[n]
                if r.random() < 0.3 and not s.startswith((" ", "\t")) and "__future__" not in s:
                    s = trap + s
                gr.add_dependencies_for_source(s)
                add_source(mdl, w.scripts[n])
                new = {x.identifier for x in gr.roots()} - before
                ctx.count("sources")
                ctx.count("source_roots", len(new))
                ctx.count("relative", sum(x.startswith(".") for x in new))
                ctx.count("submodule_roots", sum("." in x.strip(".") for x in new))
                ctx.count("missing_roots", sum(isinstance(gr.find_node(x), mg.MissingModule) for x in new))
                submodules += len(new)
            elif kind == "broken":
                before = observe(gr, None, True, everything=True)
                try:
                    gr.add_dependencies_for_source(n)
                except SyntaxError:
                    pass
                else:
                    ctx.violation("no syntax error for %r" % n)
                d = diff(before, observe(gr, None, True, everything=True))
                ctx.check(not d, lambda: "%r changed the graph: %s" % (n, text(d)))
                ctx.count("broken")
            elif kind == "script":
                gr.add_script(w.script_path(n))
                mdl.add_script(w.script_path(n), w.scripts[n])
            else:
                gr.add_module(n)
                mdl.add_module(n)
        exp, act = mdl.snapshot(), observe(gr)
        d = diff(exp, act)
        ctx.check(not d, lambda: "the graph differs from what the sources imply: " + text(d), differences=[str(x) for x in d[:40]])
        odd = [n for n in (x.identifier for x in gr.nodes()) if "source" in n and "code" in n]
        ctx.check(not odd and not any(isinstance(x, mg.Script) for x in gr.nodes()) or any(k == "script" for k, _ in ops), "node for the source: %s" % odd)
        ctx.nontrivial(submodules >= 3)
        ctx.sig(size_sig(exp))
        ctx.sample({"sources": sources, "operations": ops, "roots": sorted(exp["roots"]), "nodes": act["nodes"]})

    def probe_documented(self, ctx):
        write_files(ctx, {"p/__init__.py": "x = 1\nfrom . import c\n", "p/a.py": "import errno", "p/b.py": "", "p/c.py": "import atexit", "m.py": "y = 1", "ns/q.py": ""})
        gr = new_graph()
        src = ("import m\nfrom p import a, nope, x, c as d\nfrom m import y, z\nfrom p.b import u\ndef f():\n    class K:\n        from ns import q, nono\n"
               "from . import r\nfrom ..s import t\nfrom p import *\nfrom nothing import w\nimport nothing2.sub\nopen(%r, 'w')\n" % os.path.join(ctx.dir, "ran"))
        gr.add_dependencies_for_source(src)
        want = ["..s", "m", "ns", "ns.nono", "ns.q", "nothing", "nothing2.sub", "p", "p.a", "p.b", "p.nope", "."]
        got = sorted(n.identifier for n in gr.roots())
        ctx.check(got == sorted(want), "roots are %s, expected %s" % (got, sorted(want)))
        ctx.check(not os.path.exists(os.path.join(ctx.dir, "ran")), "the code has run")
        ctx.check(isinstance(gr.find_node("."), mg.InvalidRelativeImport) and isinstance(gr.find_node("p.nope"), mg.MissingModule), "classes")
        ctx.check(gr.find_node("p.c") is not None and gr.find_node("errno") is not None and gr.find_node("atexit") is not None, "dependencies")
        ctx.check(not [n for n in gr.nodes() if isinstance(n, mg.Script)], "a node for the code")

    def probe_hooks(self, ctx):
        write_files(ctx, {"p/__init__.py": "", "p/a.py": "", "m.py": "import p.a"})
        gr = new_graph()
        post, missing = [], []
        gr.add_post_processing_hook(lambda g, n: post.append(n.identifier))
        gr.add_missing_hook(lambda g, i, n: missing.append((i, n)))
        gr.add_dependencies_for_source("from p import a, b\nimport m\nfrom . import x\nimport zz.y")
        gr.add_dependencies_for_source("from p import a, b\nimport m\nfrom . import x\nimport zz.y")
        ctx.check(sorted(post) == sorted(["p", "p.a", "p.b", "m", ".", "zz", "zz.y"]), "post processing: %s" % post)
        ctx.check(sorted(n for i, n in missing) == ["p.b", "zz", "zz.y"] and {i for i, n in missing} == {None}, "missing: %s" % missing)

    def probe_six(self, ctx):
        from .c35 import SIX
        write_files(ctx, {"six.py": SIX})
        gr = new_graph(excludes=["os", "sys", "functools", "types", "operator", "struct", "__future__", "itertools", "importlib", "urllib"])
        gr.add_dependencies_for_source("from six.moves import reduce, html_entities, range\nimport six.moves.html_parser")
        lost = [n.identifier for n in gr.iter_graph() if isinstance(n, mg.MissingModule) and n.identifier.startswith("six.moves")]
        ctx.check(not lost, "reported missing: %s" % lost)
        ctx.check(gr.find_node("html.entities") is not None, "html.entities")

    def probe_many(self, ctx):
        n = 500
        files = {"p/__init__.py": "G = 1"}
        src = []
        for i in range(n):
            files["a%d.py" % i] = "import b%d" % i
            files["b%d.py" % i] = files["p/s%d.py" % i] = ""
            src.append(["import a%d", "def f():\n    import a%d", "class C:\n    import a%d as b", "if x:\n    from a%d import z"][i % 4] % i)
        src.append("from p import %s" % ", ".join(["s%d, nope%d" % (i, i) for i in range(n)]))
        write_files(ctx, files)
        gr = new_graph()
        gr.add_dependencies_for_source("\n".join(src))
        want = {"p"} | {"a%d" % i for i in range(n)} | {"p.s%d" % i for i in range(n)} | {"p.nope%d" % i for i in range(n)}
        got = {x.identifier for x in gr.roots()}
        ctx.check(got == want, lambda: "%d roots too many, %d lost: %s" % (len(got - want), len(want - got), sorted(got ^ want)[:6]))
        ctx.check({x.identifier for x in gr.iter_graph()} == want | {"b%d" % i for i in range(n)}, "nodes")


CHECK = C37()
