"""Everything that a real run imports is in the graph."""
import json
import os
import subprocess
import sys

import modulegraph2 as mg

from ..build import activate, new_graph, write_files
from ..check import Check
from ..gen import gen_world
from ..runrec import in_child, run_program

SUBS = ["sub", "s1", "s2", "s11", "util", "utils", "core", "core_", "_impl", "init", "test", "\u00fcber", "data", "v1", "v10", "main",
        "sub_sub", "S1"]
STD_QUICK = ["colorsys", "bisect", "stat", "sched", "quopri", "json", "statistics"]
STD_MORE = ["email", "logging.config", "http.client", "xml.dom.minidom", "concurrent.futures", "asyncio", "unittest", "sqlite3", "urllib.request",
            "importlib.metadata", "multiprocessing.pool", "curses", "ctypes.util", "tarfile", "csv", "configparser", "argparse", "typing",
            "dataclasses", "decimal", "difflib", "doctest", "pdb", "cProfile", "zoneinfo", "wsgiref.simple_server", "xmlrpc.server",
            "html.parser", "ipaddress", "shelve", "smtplib", "ssl", "selectors", "tempfile", "test.support", "tomllib", "turtle", "uuid", "venv",
            "webbrowser", "zipapp", "graphlib", "pydoc", "lib2to3.main", "idlelib.run", "ensurepip", "encodings.idna", "xml.sax.expatreader",
            "dbm", "mailbox", "imaplib", "ftplib", "nntplib", "telnetlib", "optparse", "gettext", "locale", "plistlib", "pickletools", "py_compile",
            "compileall", "filecmp", "fileinput", "fractions", "random", "secrets", "socketserver", "symtable", "tabnanny", "timeit", "trace",
            "tracemalloc", "unittest.mock", "wave", "weakref", "zipfile"]
ABSENT = (mg.MissingModule, mg.InvalidModule, mg.ExcludedModule)


def reach(gr, root):
    out = {}
    for a, b, _ in gr.edges():
        out.setdefault(a.identifier, []).append(b.identifier)
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo.extend(out.get(n, ()))
    return seen, out


class C01(Check):
    technique = "runtime monitor: import statements recorded while programs really run, checked against the graph built for them"
    level_note = ("Random importable worlds (cycles, conditional and nested imports, relative and star imports, zip files, namespace packages, "
                  "bytecode) and standard library modules are executed in a child process with a recorder on __import__ that keeps calls made "
                  "by an IMPORT_NAME instruction; each loaded module must be a sound node, reachable from the root that ran, with an edge from "
                  "its importer. Programs are bounded by the generator; what never executes is not judged.")
    cases = {"quick": 1300, "thorough": 24000}
    rule = "random worlds, one root executed for real; non-trivial when at least 4 import statements ran; distinct by the recorded log"
    minimum = {"statements": 8000, "submodules_from_lists": 250}

    def case(self, ctx):
        r = ctx.rng
        acyclic = r.random() < 0.6
        g = gen_world(r, ntops=(2, 6), acyclic=acyclic, missing=False, invalid=False, ext=False, badrel=False, run=True, zips=r.random() < 0.4,
                      subs=SUBS, sametop=False, weird=r.choice([0.2, 1.0]), maxdepth=3, scripts=(1, 2), nimports=(1, 6), dunder_main=False)
        w = g.world
        w.write(ctx.dir)
        activate(ctx, w)
        # the program and one root of its own
        roots = [("script", s) for s in g.script_order] + [("module", n) for n in r.sample(g.order, min(2, len(g.order)))]
        kind, n = r.choice(roots)
        ctx.note(files=w.dump(), root=n)
        what = w.script_path(n) if kind == "script" else n
        res = in_child(run_program, kind, what, list(sys.path))
        ctx.note(log=res["log"], ended=res["ended"])
        ctx.count("runs_complete", res["ended"] == "ok")
        gr = new_graph()
        if r.random() < 0.3:
            k2, n2 = r.choice(roots)
            if n2 != n:
                gr.add_script(w.script_path(n2)) if k2 == "script" else gr.add_module(n2)
        gr.add_script(what) if kind == "script" else gr.add_module(what)
        own = set(w.mods) | {"__main__"}
        log = [(what if imp == "__main__" else imp, a, subs) for imp, a, subs in res["log"] if imp in own]
        self.judge(ctx, gr, what, log)
        ctx.nontrivial(len(log) >= 4)
        ctx.sig(sorted((a, b, c) for a, b, c in res["log"] if a in own))
        ctx.sample({"root": n, "log": log, "ended": res["ended"], "files": w.dump()})

    def judge(self, ctx, gr, root, log, direct=True):
        seen, out = reach(gr, root)
        for importer, name, subs in log:
            ctx.count("statements")
            ctx.count("submodules_from_lists", len(subs))
            parts = name.split(".")
            for x in [".".join(parts[: i + 1]) for i in range(len(parts))] + subs:
                node = gr.find_node(x)
                ctx.check(node is not None, "%s really loads %s, which is not in the graph" % (importer, x))
                ctx.check(x in seen, "%s really loads %s, which is not reachable from %s" % (importer, x, root))
                ctx.check(not isinstance(node, ABSENT), "%s really loads %s, which is a %s" % (importer, x, type(node).__name__))
            if direct:
                ctx.check(name in out.get(importer, ()), "%s really imports %s, but there is no edge" % (importer, name))

    # --- the standard library

    def real_modules(self, ctx, names):
        script = os.path.join(ctx.dir, "driver.py")
        with open(script, "w") as fp:
            fp.write("import sys, json\nsys.path.insert(0, %r)\nfrom mgv.runrec import Recorder, run_program\ndel sys.path[0]\n"
                     "print(json.dumps(run_program('module', sys.argv[1], %r)))\n" % (
                         os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), ctx.stdlib))
        sys.path[:] = ctx.stdlib
        gr = mg.ModuleGraph()
        for n in names:
            p = subprocess.run([sys.executable, "-S", "-I", "-B", script, n], capture_output=True, text=True, stdin=subprocess.DEVNULL)
            ctx.check(p.returncode == 0, "driver failed for %s: %s" % (n, p.stderr[-500:]))
            res = json.loads(p.stdout.splitlines()[-1])
            node = gr.add_module(n)
            if res["ended"] != "ok":
                ctx.count("stdlib_not_importable")
            else:
                ctx.check(not isinstance(node, ABSENT), "%s can be imported, but is %s" % (n, type(node).__name__))
                ctx.count("stdlib_modules")
            ctx.note(root=n)
            self.judge(ctx, gr, n, res["log"])

    def probe_stdlib(self, ctx):
        self.real_modules(ctx, STD_QUICK)
        if ctx.tier == "thorough":
            self.real_modules(ctx, STD_MORE)

    # --- fixed cases

    def run_files(self, ctx, files, root):
        write_files(ctx, files)
        res = in_child(run_program, "module", root, list(sys.path))
        ctx.check(res["ended"] == "ok", "the program itself fails: %s" % res["ended"])
        gr = new_graph()
        gr.add_module(root)
        ctx.note(log=res["log"])
        self.judge(ctx, gr, root, res["log"])

    def probe_star_of_all_names(self, ctx):
        # finding: __all__ can name submodules, which the interpreter loads
        self.run_files(ctx, {"m.py": "from p import *\n", "p/__init__.py": "__all__ = ['s']\n", "p/s.py": ""}, "m")
        # (the statement loads p.s without naming it)
        gr = new_graph()
        gr.add_module("m")
        ctx.check("p.s" in reach(gr, "m")[0], "the star import of p loads p.s, which is in p.__all__ but not in the graph")

    def probe_conditional_import_with_name_of_submodule(self, ctx):
        # finding: the name is bound by an import that does not happen
        self.run_files(ctx, {"m.py": "from p import s\n", "p/__init__.py": "if len('') == 1:\n    import q as s\n", "p/s.py": "", "q.py": ""}, "m")

    def probe_mangled_name(self, ctx):
        # finding: names in class bodies are mangled before they are imported
        self.run_files(ctx, {"m.py": "class C:\n    import __x\n", "_C__x.py": "", "__x.py": ""}, "m")

    def probe_except_star(self, ctx):
        self.run_files(ctx, {"m.py": "try:\n    import a\nexcept* ValueError:\n    pass\nelse:\n    import b\nfinally:\n    import c\n", "a.py": "", "b.py": "", "c.py": ""}, "m")

    def probe_broken_package_raises_late(self, ctx):
        self.run_files(ctx, {"m.py": "try:\n    import p\nexcept ValueError:\n    from q import t\n    import q.u as v\n", "p/__init__.py": "import p.s\nfrom .r import x\nraise ValueError\n",
                             "p/s.py": "import errno", "p/r.py": "from . import w\nx = 1\n", "p/w.py": "", "q/__init__.py": "t = 1\n", "q/t.py": "", "q/u.py": "from . import z",
                             "q/z.py": ""}, "m")

    def probe_shadowed_names(self, ctx):
        self.run_files(ctx, {"m.py": "from p import b, c\nimport p.b\nfrom p.c import b as d\n", "p/__init__.py": "from . import b as c\nfrom .c import b\n",
                             "p/b.py": "", "p/c/__init__.py": "from .. import b\n", "p/c/b.py": ""}, "m")


CHECK = C01()
