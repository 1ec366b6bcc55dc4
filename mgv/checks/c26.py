"""What an analysis does to the process and to files."""
import contextlib
import hashlib
import importlib
import io
import os
import sys

import modulegraph2 as mg
import modulegraph2.__main__ as cli

from ..build import activate, new_graph, write_files
from ..check import Check
from ..gen import gen_world, prefixes
from ..model import Model
from .c16 import random_implies

WRITE_EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink", "os.utime",
                "shutil.rmtree", "shutil.move", "shutil.copyfile", "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork",
                "os.forkpty", "socket.connect", "socket.bind", "tempfile.mkstemp", "tempfile.mkdtemp", "os.setxattr", "os.kill"}

DECOYS = [b"# __path__ = __import__('pkgutil').extend_path(__path__, __name__)", b"# see pkg_resources.declare_namespace and pkgutil.extend_path",
          b"docs_ = '__import__(\"pkg_resources\").declare_namespace(__name__)'", b"unused_ = ('pkgutil', 'extend_path', 'declare_namespace')",
          b"def extend_path(): 'like pkgutil'", b"declare_namespace = 'pkg_resources'", b"if 0:\n    x_ = __import__('errno')",
          b"class __import__: 'for pkgutil'"]


class Monitor:
    """An audit hook; there is one per process and it is switched on for the analysis only."""

    def __init__(self):
        self.on = False
        self.ran = []
        self.effects = []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == "exec":
            self.ran.append(args[0].co_filename)
        elif event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                return   # os.fdopen
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                self.effects.append(("open", str(path)))
        elif event in WRITE_EVENTS:
            self.effects.append((event,) + tuple(str(a)[:200] for a in args[:2]))


def tree(root):
    res = {}
    for d, dirs, files in os.walk(root):
        for f in dirs + files:
            p = os.path.join(d, f)
            st = os.lstat(p)
            h = ""
            if os.path.isfile(p) and not os.path.islink(p):
                with open(p, "rb") as fp:
                    h = hashlib.sha1(fp.read()).hexdigest()
            # directories get new times when a __pycache__ directory is made
            res[p] = (st.st_mode, st.st_size if os.path.isfile(p) else 0, h, st.st_mtime_ns if os.path.isfile(p) else 0)
    return res


def process_state():
    return {"sys.path": (id(sys.path), list(sys.path)), "cwd": os.getcwd(), "stdin": id(sys.stdin), "stdout": id(sys.stdout), "stderr": id(sys.stderr),
            "meta_path": (id(sys.meta_path), list(sys.meta_path)), "path_hooks": (id(sys.path_hooks), list(sys.path_hooks)),
            "argv": list(sys.argv), "__import__": id(__builtins__["__import__"] if isinstance(__builtins__, dict) else __builtins__.__import__),
            "environ": dict(os.environ), "recursionlimit": sys.getrecursionlimit(), "dont_write_bytecode": sys.dont_write_bytecode,
            "main": id(sys.modules["__main__"])}


class C26(Check):
    technique = "runtime monitor: interpreter audit hook (executed code, file and process operations) plus snapshots of process state and of the file tree"
    level_note = ("Random worlds and random operations of the whole interface (all kinds of roots, hooks, import_package, distributions, reports, "
                  "exports, command line) under an audit hook; executed code must belong to packages that the model allows to run, and "
                  "process state and file tree are compared before and after. Legacy namespace packages, which are run, are outside.")
    cases = {"quick": 1500, "thorough": 24000}
    rule = "random worlds under the audit hook; non-trivial when at least 6 modules were analysed and not run; distinct by nodes and code that ran"
    minimum = {"modules_not_run": 5500, "packages_run": 500, "files_compared": 10000, "caches_written": 200, "scripts_not_run": 300,
               "op_cli": 100, "op_package": 100, "op_distribution": 100, "op_report": 100, "failing_packages": 50, "decoys": 1000}

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, acyclic=False, layered=r.random() < 0.5, ntops=(2, 5), maxsubs=4, nentries=r.choice([1, 2]), weird=0.1, star=False, reexport=False,
                      zips=r.random() < 0.2, nimports=(0, 4), missing=r.random() < 0.5)
        w = g.world
        w.write(ctx.dir)
        fails = 0
        for n, m in w.mods.items():
            if m.pkg and m.kind == "source" and r.random() < 0.2 and not w.entries[m.entry].endswith(".zip"):
                with open(os.path.join(ctx.dir, w.entries[m.entry], m.relpath()), "ab") as fp:
                    fp.write(b"\nraise " + r.choice([b"ValueError", b"SystemExit(3)", b"ImportError", b"AttributeError('x')"]) + b"\n")
                fails += 1
            if m.kind == "source" and r.random() < 0.3 and not w.entries[m.entry].endswith(".zip"):
                # reads like a legacy namespace package, but declares nothing
                with open(os.path.join(ctx.dir, w.entries[m.entry], m.relpath()), "ab") as fp:
                    fp.write(b"\n" + r.choice(DECOYS) + b"\n")
                ctx.count("decoys")
        ctx.count("failing_packages", fails)
        activate(ctx, w)
        imp = random_implies(r, g, 3) if r.random() < 0.3 else None
        exc = [r.choice(g.order + ["errno"]) for _ in range(r.choice([0, 0, 1]))]
        ops = []
        for kind, n in g.roots:
            ops.append((kind, n))
        for k in r.sample(["package", "hooks", "distribution", "report", "cli", "source", "failing", "query"], r.randint(2, 5)):
            ops.append((k, r.choice(g.order)))
        if r.random() < 0.2:
            # relative search path entries
            sys.path[:] = [os.path.relpath(p) if p.startswith(ctx.dir) else p for p in sys.path]
        elif r.random() < 0.15:
            sys.path.insert(1, "")
        if r.random() < 0.15:
            sys.path.insert(0, os.path.join(ctx.dir, "nosuch"))
        sub = os.path.join(ctx.dir, "cwd")
        os.mkdir(sub)
        if not any(not os.path.isabs(p) for p in sys.path):
            os.chdir(sub)
        caching = r.random() < 0.4
        sys.dont_write_bytecode = not caching
        sys.pycache_prefix = r.choice([None, os.path.join(ctx.dir, "caches")])
        ctx.note(files=w.dump(), ops=ops, implies=imp, excludes=exc, path=list(sys.path[:4]))
        mon = Monitor()
        # the imports that the library itself does late
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                cli.main(["--help"])
            except SystemExit:
                pass
        before, files = process_state(), tree(ctx.dir)
        mon.on = True
        try:
            looked = self.operate(ctx, w, ops, imp, exc)
        finally:
            mon.on = False
        after, now = process_state(), tree(ctx.dir)
        for k in before:
            ctx.check(before[k] == after[k], lambda: "%s changed: %s -> %s" % (k, str(before[k])[:400], str(after[k])[:400]))
        self.files(ctx, w, files, now, mon)
        self.ran(ctx, w, mon, looked)

    def operate(self, ctx, w, ops, imp, exc):
        r = ctx.rng
        gr = new_graph(implies=imp, excludes=exc, use_builtin_hooks=r.random() < 0.5)
        asked = []
        if any(k == "hooks" for k, n in ops):
            def post(graph, node):
                if r.random() < 0.1:
                    graph.import_module(node, r.choice(list(w.mods)))
            gr.add_post_processing_hook(post)
            gr.add_missing_hook(lambda graph, i, n: asked.append(n))
        graphs = [gr]
        for kind, n in ops:
            ctx.count("op_" + kind)
            if kind == "script":
                gr.add_script(w.script_path(n))
            elif kind == "module":
                gr.add_module(n)
            elif kind == "package":
                root = next(iter(gr.roots()))
                with gr.hook_context():
                    gr.import_package(root, n)
            elif kind == "source":
                gr.add_dependencies_for_source("import %s\nraise SystemExit\n" % n)
            elif kind == "failing":
                for op in (lambda: gr.add_script("/nosuch/script.py"), lambda: gr.add_distribution("nosuchdist"),
                           lambda: gr.add_dependencies_for_source("import (")):
                    try:
                        op()
                    except (OSError, ValueError, SyntaxError):
                        pass
            elif kind == "distribution":
                gr.add_distribution(mg.PyPIDistribution("<x>", "x", "1", set(), {n, "errno"}, {}))
                list(mg.all_distributions())
            elif kind == "report":
                gr.report(io.StringIO())
                cli.print_graph(io.StringIO(), cli.OutputFormat.HTML, gr)
                cli.print_graph(io.StringIO(), cli.OutputFormat.GRAPHVIZ, gr)
            elif kind == "query":
                list(gr.distributions()), list(gr.iter_graph())
            elif kind == "cli":
                args = cli.parse_arguments(["-p", "/nosuch", "-x", "errno", n])
                g2 = cli.make_graph(args)
                graphs.append(g2)
                if r.random() < 0.5:
                    try:
                        cli.make_graph(cli.parse_arguments(["-p", "/nosuch", "-s", "/nosuch/x.py"]))
                    except OSError:
                        pass
        return {x.identifier for g2 in graphs for x in g2.nodes()} | set(asked)

    def files(self, ctx, w, before, after, mon):
        ctx.count("files_compared", len(before))
        for p in before:
            ctx.check(p in after, "the file %s is gone" % p)
            ctx.check(before[p] == after[p], "the file %s changed" % p)
        for p in set(after) - set(before):
            d = os.path.basename(os.path.dirname(p))
            ok = p.endswith("__pycache__") or (d == "__pycache__" and p.endswith(".pyc")) or "/caches" in p
            ctx.check(ok, "the file %s was created" % p)
            ctx.count("caches_written", p.endswith(".pyc"))
        for e in mon.effects:
            cache = any(x in str(e) for x in ("__pycache__", os.path.join(ctx.dir, "caches"))) or (sys.pycache_prefix and str(sys.pycache_prefix) in str(e))
            ctx.check(e[0] in ("open", "os.mkdir", "os.rename", "os.remove") and cache, "effect outside of the bytecode cache: %s" % (e,))

    def ran(self, ctx, w, mon, looked):
        byfile = {}
        for n, m in w.mods.items():
            if m.kind != "nspkg":
                byfile[os.path.join(ctx.dir, w.entries[m.entry], m.relpath())] = n
                if m.kind == "bytecode":
                    byfile[m.relpath()] = n
        ran = set()
        for fn in mon.ran:
            full = fn if fn in byfile else os.path.normpath(os.path.join(ctx.dir, fn))
            if full in byfile:
                ran.add(byfile[full])
            ctx.check(full not in {w.script_path(s) for s in w.scripts}, "the script %s was run" % fn)
            ctx.check(fn != "-source-code-", "the source text was run")
        # packages below which something is looked up (and modules that an
        # import statement uses as if they were a package)
        allowed = set()
        for n in looked:
            for p in prefixes(n):
                if p in w.mods:
                    allowed.add(p)
        todo = list(allowed)
        mdl = Model(w)
        while todo:
            n = todo.pop()
            for p in prefixes(n):
                if p not in allowed and p in w.mods:
                    allowed.add(p)
                    todo.append(p)
            m = w.mods.get(n)
            if m is None or m.kind not in ("source", "bytecode"):
                continue
            for rec in m.records():
                name = mdl.absolute(_Named(n), m, rec.level, rec.mod) if rec.level else rec.mod
                if not name:
                    continue
                for t in [name] + [name + "." + x for x, a in (rec.names or ())] + prefixes(name):
                    if t in w.mods and t not in allowed:
                        allowed.add(t)
                        todo.append(t)
        bad = ran - allowed
        ctx.check(not bad, lambda: "code of %s was run" % sorted(bad))
        ctx.count("packages_run", len(ran))
        idle = [n for n in looked if n in w.mods and n not in ran]
        ctx.count("modules_not_run", len(idle))
        ctx.count("scripts_not_run", len(w.scripts))
        ctx.nontrivial(len(idle) >= 6)
        ctx.sig(sorted(looked & set(w.mods)), sorted(ran))
        ctx.sample({"analysed": sorted(looked)[:60], "ran": sorted(ran), "allowed": sorted(allowed)[:60]})

    # --- fixed cases

    def watched(self, ctx, files, op, sub="d"):
        write_files(ctx, files, sub=sub)
        mon = Monitor()
        before, snap = process_state(), tree(ctx.dir)
        mon.on = True
        try:
            res = op()
        finally:
            mon.on = False
        after, now = process_state(), tree(ctx.dir)
        ctx.check(before == after, lambda: "process state changed: %s" % {k: (before[k], after[k]) for k in before if before[k] != after[k]})
        ctx.check(snap == now, lambda: "files changed: %s" % sorted(set(snap.items()) ^ set(now.items()))[:4])
        return res, mon

    def probe_only_looked_up_packages(self, ctx):
        files = {"m.py": "import a, p, q.x\nraise SystemExit", "a.py": "raise SystemExit", "p/__init__.py": "raise SystemExit", "q/__init__.py": "", "q/x.py": "raise SystemExit"}
        res, mon = self.watched(ctx, files, lambda: new_graph().add_module("m"))
        ran = sorted(os.path.relpath(f, os.path.join(ctx.dir, "d")) for f in mon.ran if f.startswith(ctx.dir))
        ctx.check(ran == ["q/__init__.py"], "ran %s" % ran)

    def probe_future_like_magic(self, ctx):
        # decorators, annotations, comprehensions and default values must not be evaluated either
        files = {"m.py": "@x.y\ndef f(a: 1 / 0 = open('/nosuch/file', 'w')): pass\nclass C(metaclass=1 / 0): z = [1 / 0 for _ in 'ab']\nassert 0\n"}
        res, mon = self.watched(ctx, files, lambda: new_graph().add_module("m"))
        ctx.check(not any(f.startswith(ctx.dir) for f in mon.ran), "ran %s" % mon.ran)

    def probe_distribution_lookup(self, ctx):
        files = {"p/__init__.py": "raise SystemExit", "X-1.dist-info/METADATA": "Name: X\nVersion: 1\n", "X-1.dist-info/RECORD": "p/__init__.py,,\n",
                 "X-1.dist-info/entry_points.txt": "[console_scripts]\nx = p:main\n"}

        def op():
            gr = new_graph()
            gr.add_distribution("X")
            return list(gr.distributions())
        res, mon = self.watched(ctx, files, op)
        ctx.check([d.name for d in res] == ["X"] and not any(f.startswith(ctx.dir) for f in mon.ran), "ran %s" % mon.ran)

    def probe_cli_main(self, ctx):
        def op():
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                cli.main(["-p", os.path.join(ctx.dir, "e"), "-p", "/nosuch", "m"])
            return out.getvalue()
        os.mkdir(os.path.join(ctx.dir, "e"))
        res, mon = self.watched(ctx, {"m.py": "raise SystemExit"}, op)
        ctx.check("SourceModule m" in res and not any(f.startswith(ctx.dir) for f in mon.ran), "ran %s" % mon.ran)

    def probe_cli_failure(self, ctx):
        def op():
            for argv in (["-p", "/nosuch", "-s", "/nosuch/x"], ["-p", "/nosuch", "-d", "nosuch"], ["-p", "/nosuch", "-o", "/nosuch/out", "m"]):
                try:
                    with contextlib.redirect_stderr(io.StringIO()):
                        cli.main(argv)
                except (OSError, ValueError, SystemExit):
                    pass
        self.watched(ctx, {"m.py": ""}, op)

    def probe_sys_path_of_run_package(self, ctx):
        # analysis with two portions of a namespace package and a broken package
        files = {"ns/x.py": "raise SystemExit", "b/__init__.py": "raise SystemExit", "b/s.py": "raise SystemExit", "m.py": "import ns.x, b.s"}
        res, mon = self.watched(ctx, files, lambda: new_graph().add_module("m"))
        ran = sorted({os.path.relpath(f, os.path.join(ctx.dir, "d")) for f in mon.ran if f.startswith(ctx.dir)})
        ctx.check(ran == ["b/__init__.py"], "ran %s" % ran)


class _Named:
    cls = "SourceModule"

    def __init__(self, name):
        self.name = name


CHECK = C26()
