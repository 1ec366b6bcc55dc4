"""Long chains and deep nesting under a small recursion limit."""
import ast
import os
import sys

import modulegraph2 as mg

from ..build import isolated, new_graph, write_files
from ..check import Check
from ..world import make_pyc

LINK = ["import {n}\n", "from {n} import x\n", "import {n} as y\n", "def f():\n    import {n}\n", "try:\n    import {n}\nexcept ImportError:\n    pass\n", "x = 1\nfrom {n} import x, z\n",
        "class K:\n    from {n} import x\n", "from {n} import *\n", "if 1:\n    from {n} import (x as q)\n"]
NEST = {}


def nest(fn):
    NEST[fn.__name__] = fn
    return fn


def indented(head, imp, depth, foot=None):
    out = [" " * i + head(i) for i in range(depth)] + [" " * depth + imp]
    if foot:
        out += [" " * i + foot for i in reversed(range(depth))]
    return "\n".join(out) + "\n"


@nest
def functions(r, imp):
    return indented(lambda i: "def f%d():" % i, imp, r.randint(40, 90))


@nest
def classes(r, imp):
    return indented(lambda i: "class K%d:" % i, imp, r.randint(40, 90))


@nest
def ifs(r, imp):
    return indented(lambda i: "if x%d:" % i, imp, r.randint(60, 98))


@nest
def withs(r, imp):
    return indented(lambda i: "with x%d:" % i if i % 10 else "def f%d():" % i, imp, r.randint(15, 18))


@nest
def mixed(r, imp):
    heads = ["if a:", "class K:", "def f(b=1):", "async def g():"]
    return indented(lambda i: r.choice(heads), imp, r.randint(60, 95))


@nest
def tries(r, imp):
    n = r.randint(10, 19)
    return indented(lambda i: "try:", imp, n, "except E: pass")


@nest
def elifs(r, imp):
    n = r.randint(100, 250)
    return "if a:\n    pass\n" + "".join("elif a%d:\n    pass\n" % i for i in range(n)) + "else:\n    %s\n" % imp


@nest
def operators(r, imp):
    n = r.randint(300, 900)
    return "x = " + " + ".join(["a"] * n) + "\n%s\n" % imp


@nest
def attributes(r, imp):
    return "x = a" + ".b" * r.randint(300, 900) + "\n%s\n" % imp


@nest
def calls(r, imp):
    return "x = a" + "()" * r.randint(200, 400) + "\n%s\n" % imp


@nest
def parentheses(r, imp):
    n = r.randint(60, 90)
    return "x = " + "[" * n + "]" * n + "\n%s\n" % imp


@nest
def lambdas(r, imp):
    return "x = " + "lambda: " * r.randint(50, 80) + "__import__('a')\n%s\n" % imp


@nest
def comprehensions(r, imp):
    n = r.randint(10, 18)
    return "x = " + "[" * n + "1" + " for a in b]" * n + "\n%s\n" % imp


@nest
def unary(r, imp):
    return "x = " + "not " * r.randint(100, 400) + "a\n%s\n" % imp


@nest
def conditional(r, imp):
    return "x = " + "a if b else " * r.randint(60, 150) + "c\n%s\n" % imp


@nest
def comparisons(r, imp):
    return "x = " + " < ".join(["a"] * r.randint(500, 1500)) + "\n%s\n" % imp


def depth():
    f, n = sys._getframe(), 0
    while f:
        f, n = f.f_back, n + 1
    return n


class limited:
    """At most *more* frames on top of the current one."""

    def __init__(self, more):
        self.more = more

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        sys.setrecursionlimit(depth() + self.more)

    def __exit__(self, *args):
        sys.setrecursionlimit(self.old)


class C31(Check):
    technique = "runtime monitor: graphs built under a recursion limit that short inputs just fit into, against the graph known by construction"
    level_note = ("Chains, cycles, trees, fans and ladders of up to 1500 modules (thorough: 6000) in source and bytecode, over all import forms, packages, "
                  "implies and hooks, from modules, scripts, distributions and source strings; 16 kinds of nested source of up to 1500 levels. "
                  "The limit is a fixed number of frames above the caller, less than 1/5 of the length of the chains.")
    cases = {"quick": 90, "thorough": 1500}
    rule = "random shapes and sizes; non-trivial with at least 400 modules or 10 levels; distinct by shape, size and forms"
    minimum = {"modules": 12000, "chains": 10, "cycles": 2, "fans": 2, "trees": 2, "ladders": 2, "nested_sources": 20, "bytecode_modules": 1500, "star_links": 300}
    frames = 100

    def case(self, ctx):
        if ctx.rng.random() < 0.35:
            self.nested(ctx)
        else:
            self.big(ctx)

    def nested(self, ctx):
        r = ctx.rng
        sources, want = {}, {}
        for i in range(r.randint(2, 5)):
            k = r.choice(sorted(NEST))
            imp = r.choice(["import leaf%d" % i, "from leaf%d import x" % i, "import pk.leaf%d" % i])
            sources["m%d" % i] = (k, NEST[k](r, imp))
            want["m%d" % i] = ("pk." if "pk." in imp else "") + "leaf%d" % i
        files = {"pk/__init__.py": ""}
        kinds = {}
        for n, (k, s) in list(sources.items()):
            try:
                compile(s, n, "exec", dont_inherit=True)
                ast.parse(s)
            except (RecursionError, MemoryError, SyntaxError):
                ctx.count("too_deep_for_the_compiler")
                del sources[n]
                continue
            kinds[n] = "bytecode" if r.random() < 0.3 else "source"
            if kinds[n] == "bytecode":
                files[n + ".pyc"] = make_pyc(s, n + ".py")
            else:
                files[n + ".py"] = s
        for i in range(6):
            files["leaf%d.py" % i] = files["pk/leaf%d.py" % i] = "x = 1\n"
        write_files(ctx, files)
        ctx.note(kinds={n: k for n, (k, s) in sources.items()})

        def fn():
            gr = new_graph()
            with limited(self.frames):
                for n in sorted(sources):
                    if kinds[n] == "source" and len(n) % 2 and r.random() < 0.4:
                        gr.add_script(os.path.join(ctx.dir, "d", n + ".py"))
                    gr.add_module(n)
            return {n.identifier: (type(n).__name__, sorted(x.identifier for _, x in gr.outgoing(n))) for n in gr.iter_graph()}
        nodes = isolated(fn)
        ctx.note(nodes=nodes)
        for n in sources:
            cls, out = nodes[n]
            ctx.check(cls == ("SourceModule" if kinds[n] == "source" else "BytecodeModule"), "%s (%s) is %s" % (n, sources[n][0], cls))
            ctx.check(want[n] in out, "%s (%s) has no edge to %s" % (n, sources[n][0], want[n]))
            ctx.count("nested_sources")
        ctx.nontrivial(bool(sources))
        ctx.sig(sorted((k, len(s), kinds[n]) for n, (k, s) in sources.items()))
        ctx.sample({n: (k, len(s), kinds[n]) for n, (k, s) in sources.items()})

    def big(self, ctx):
        r = ctx.rng
        top = 1200 if ctx.tier == "quick" else r.choice([1500, 3000, 6000])
        n = r.randint(450, top)
        shape = r.choice(["chain", "chain", "chain", "cycle", "fan", "tree", "ladder"])
        succ = {i: [] for i in range(n)}
        if shape in ("chain", "cycle"):
            for i in range(n - 1):
                succ[i] = [i + 1]
                if r.random() < 0.05:
                    succ[i].append(r.randrange(n))
            if shape == "cycle":
                succ[n - 1] = [0]
        elif shape == "fan":
            succ[0] = list(range(1, n))
        elif shape == "tree":
            for i in range(1, n):
                succ[(i - 1) // 2 if r.random() < 0.8 else i - 1].append(i)
        else:
            for i in range(n - 1):
                succ[i] = [i + 1] + ([i + 2] if i + 2 < n else [])
        where = r.choice(["flat", "flat", "package", "packages"])
        names = {i: {"flat": "m%d", "package": "pk.m%d", "packages": "p%d"}[where] % i for i in range(n)}
        link = [r.choice(LINK) for _ in range(3)]
        bytecode = r.choice([0, 0, 0.5, 1])
        implied = {}
        files = {}
        star = 0
        if where == "package":
            files["pk/__init__.py"] = ""
        for i in range(n):
            body = []
            if r.random() < 0.02 and where == "flat" and len(succ[i]) == 1:
                implied[names[i]] = ("list", [names[j] for j in succ[i]])
                body = ["x = z = 1\n"]
            else:
                body = ["x = z = 1\n"]
                for j in succ[i]:
                    f = r.choice(link)
                    star += "*" in f
                    body.append(f.format(n=names[j]))
            s = "".join(body)
            rel = names[i].replace(".", "/") + ("/__init__" if where == "packages" else "")
            if r.random() < bytecode:
                files[rel + ".pyc"] = make_pyc(s.encode(), rel + ".py")
                ctx.count("bytecode_modules")
            else:
                files[rel + ".py"] = s
        write_files(ctx, files)
        ctx.note(files=shape, n=n, where=where, link=link, shape=shape)
        how = r.choice(["module", "module", "script", "distribution", "source", "hook", "import_package"])
        with open(os.path.join(ctx.dir, "script"), "w") as fp:
            fp.write("import %s\n" % names[0])

        def fn():
            gr = new_graph(implies=implied)
            calls = []
            gr.add_post_processing_hook(lambda g, node: calls.append(node.identifier))
            if how == "hook":
                def hook(g, node):
                    if node.identifier == "starter":
                        g.import_module(node, names[0])
                gr.add_post_processing_hook(hook)
                open(os.path.join(ctx.dir, "d", "starter.py"), "w").close()
                import importlib
                importlib.invalidate_caches()
            with limited(self.frames):
                if how == "module":
                    gr.add_module(names[0])
                elif how == "script":
                    gr.add_script(os.path.join(ctx.dir, "script"))
                elif how == "distribution":
                    gr.add_distribution(mg.PyPIDistribution("<d>", "d", "1", set(), {names[0], names[1]}, {}))
                elif how == "source":
                    gr.add_dependencies_for_source("import %s\n" % names[0])
                elif how == "hook":
                    gr.add_module("starter")
                else:
                    root = gr.add_module(names[n - 1])
                    with gr.hook_context():
                        gr.import_package(root, names[0])
            nodes = {x.identifier: type(x).__name__ for x in gr.nodes()}
            return nodes, {(a.identifier, b.identifier) for a, b, _ in gr.edges()}, len(calls), len(set(calls))
        nodes, edges, ncalls, different = isolated(fn)
        cls = {"packages": "Package"}.get(where)
        wrong = [names[i] for i in range(n) if nodes.get(names[i]) not in ((cls,) if cls else ("SourceModule", "BytecodeModule"))]
        ctx.check(not wrong, lambda: "%d of %d modules are not there: %s %s" % (len(wrong), n, wrong[0], nodes.get(wrong[0])))
        lost = [(names[i], names[j]) for i in range(n) for j in succ[i] if (names[i], names[j]) not in edges]
        ctx.check(not lost, lambda: "%d edges are not there: %s" % (len(lost), lost[:3]))
        odd = [x for x, c in nodes.items() if c in ("MissingModule", "InvalidModule") and not (x.endswith(".x") or x.endswith(".z"))]
        ctx.check(not odd, "%s" % odd[:5])
        ctx.check(ncalls == different >= n, "post processing hooks ran %d times for %d of %d nodes" % (ncalls, different, n))
        ctx.count("modules", n)
        ctx.count(shape + "s")
        ctx.count("star_links", star)
        ctx.nontrivial(n >= 400)
        ctx.sig(shape, n, where, link, how, bytecode)
        ctx.sample({"shape": shape, "n": n, "where": where, "link": link, "how": how, "edges": len(edges)})

    def probe_short_chains_fit(self, ctx):
        """The limit is not what makes the others fail."""
        write_files(ctx, {"m0.py": "import m1", "m1.py": "from m2 import *", "m2.py": "def f():\n    import m3", "m3.py": "x = 1"})

        def fn():
            gr = new_graph()
            with limited(self.frames):
                gr.add_module("m0")
            return sorted(n.identifier for n in gr.iter_graph())
        ctx.check(isolated(fn) == ["m0", "m1", "m2", "m3"], "short chain")

    def probe_wide_statements(self, ctx):
        n = 1500
        names = ["n%d" % i for i in range(n)]
        files = {"pk/__init__.py": "", "m.py": "from pk import (%s)\n" % ", ".join(names) + "import %s\n" % ", ".join("pk.n%d" % i for i in range(n))}
        for x in names:
            files["pk/%s.py" % x] = ""
        write_files(ctx, files)

        def fn():
            gr = new_graph()
            with limited(self.frames):
                gr.add_module("m")
            return sum(isinstance(x, mg.SourceModule) for x in gr.iter_graph())
        ctx.check(isolated(fn) == n + 1, "names of a long list")


CHECK = C31()
