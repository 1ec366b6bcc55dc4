"""Failing operations and failing hooks."""
import os
import pathlib

import modulegraph2 as mg

from ..build import activate, new_graph, write_files
from ..gen import gen_world, size_sig
from ..model import Model
from ..snap import dep_tuple, diff, node_info, observe, text
from ..stmts import From
from ..world import BAD_SOURCES
from ._world import WorldCheck


class Oops(Exception):
    pass


class OopsBase(BaseException):
    pass


class OopsMissing(ModuleNotFoundError):
    pass


class OopsSyntax(SyntaxError):
    pass


def state(gr):
    return ({n.identifier: (id(n), node_info(n)) for n in gr.nodes()},
            {(a.identifier, b.identifier): {dep_tuple(d) for d in ds} for a, b, ds in gr.edges()},
            sorted(n.identifier for n in gr.roots()))


class Dropping(Model):
    """The model without some imports: (importer, missing name)."""

    drop = ()

    def record(self, node, m, rec):
        name = self.absolute(node, m, rec.level, rec.mod) if rec.level else rec.mod
        if name is not None:
            names = []
            for imp, gone in self.drop:
                if imp != node.name:
                    continue
                if name == gone or name.startswith(gone + "."):
                    return
                if rec.kind == "from" and gone.rpartition(".")[0] == name:
                    names.append(gone.rpartition(".")[2])
            if names:
                rec = rec_without(rec, names)
        super().record(node, m, rec)


def rec_without(rec, names):
    import copy
    rec = copy.copy(rec)
    rec.names = [(n, a) for n, a in rec.names if n not in names]
    return rec


class C25(WorldCheck):
    technique = "runtime monitor: graph states before and after injected failures, and final graphs against reference models without and with the lost import"
    level_note = ("Random worlds and operation sequences with operations that must fail mixed in (the whole graph is compared before and "
                  "after), and with post-processing or missing hooks that raise ordinary, import-like and base exceptions at random calls; the "
                  "final graph must lie between the model without the failing import and the model without failure. import_package is "
                  "only covered by fixed cases.")
    cases = {"quick": 1600, "thorough": 30000}
    rule = "random worlds with injected failures; non-trivial with a failing hook or two failing operations; distinct by nodes and edges"
    minimum = {"failed_operations": 1500, "post_failures": 600, "missing_failures": 400, "fail_script_missing": 100, "fail_script_twice": 50,
               "fail_script_syntax": 150, "fail_script_directory": 50, "fail_distribution": 100, "fail_source": 100, "lost_imports": 300}

    def case(self, ctx):
        r = ctx.rng
        mode = r.choice(["none", "post", "post", "missing", "missing"])
        g = gen_world(r, acyclic=False, layered=r.random() < 0.5, ntops=(2, 4), maxsubs=3, nentries=1, weird=0, star=False, reexport=False,
                      invalid=r.random() < 0.3, pmissing=0.4, mix=(0.65, 0.7, 0.74, 0.97, 0.98), nimports=(0, 6), scripts=(0, 3))
        w = g.world
        w.write(ctx.dir)
        activate(ctx, w)
        bad = []
        for i in range(r.randint(0, 3)):
            fn = os.path.join(ctx.dir, "bad%d.py" % i)
            with open(fn, "wb") as fp:
                fp.write(r.choice(BAD_SOURCES))
            bad.append(fn)
        os.mkdir(os.path.join(ctx.dir, "dir.py"))
        full, less = Dropping(w), Dropping(w)
        gr = new_graph(use_builtin_hooks=r.random() < 0.5)
        ncalls = [0]
        failures = {r.randrange(1, 14) for _ in range(r.randint(1, 3))}
        excs = [Oops, Oops, OopsBase, OopsMissing, OopsSyntax, ValueError, AttributeError, SystemExit, KeyError, AssertionError]
        log = []
        live = [True]

        def fail(what):
            ncalls[0] += 1
            if live[0] and ncalls[0] in failures:
                exc = r.choice(excs)("injected")
                if isinstance(exc, ModuleNotFoundError) and r.random() < 0.5:
                    exc.name = what[-1]
                log.append((exc, what))
                raise exc

        # other hooks around the failing one
        if mode == "post":
            gr.add_post_processing_hook(lambda graph, node: fail((node.identifier,)))
        elif mode == "missing":
            if r.random() < 0.3:
                gr.add_missing_hook(lambda graph, imp, name: None)
            gr.add_missing_hook(lambda graph, imp, name: fail((imp.identifier if imp is not None else None, name)))
            if r.random() < 0.3:
                gr.add_missing_hook(lambda graph, imp, name: None)
        ops = list(g.roots)
        for _ in range(r.randint(0, 2)):
            ops.append(("module", r.choice(g.order + ["nope", "nope.x"])))
        if r.random() < 0.2:
            ops.append(("dist", sorted(r.sample(g.order, min(len(g.order), 2)) + ["nope_d"])))
        for _ in range(r.randint(0 if mode != "none" else 2, 3)):
            ops.insert(r.randint(0, len(ops)), ("bad", r.choice(["script_missing", "script_twice", "script_syntax", "script_directory", "distribution",
                                                                "source", "excludes"])))
        ctx.note(files=w.dump(), ops=ops, mode=mode, failures=sorted(failures), log=log)
        added = []
        done_scripts = []
        for kind, name in ops:
            if kind == "bad":
                self.bad(ctx, gr, name, bad, done_scripts)
                continue
            before = len(log)
            try:
                if kind == "script":
                    done_scripts.append(w.script_path(name))
                    gr.add_script(w.script_path(name))
                elif kind == "module":
                    gr.add_module(name)
                else:
                    gr.add_distribution(mg.PyPIDistribution("<dist>", "dist", "1", set(), set(name), {}))
            except BaseException as exc:
                if not log or exc is not log[-1][0]:
                    raise
                ctx.check(len(log) == before + 1, "the exception of an earlier hook call was lost: %r" % (log[before:],))
            else:
                ctx.check(len(log) == before, lambda: "the exception %r of a hook (called for %s) does not reach the caller of %s" % (
                    log[-1][0], log[-1][1], (kind, name)))
            added.append((kind, name, len(log) > before))
        live[0] = False
        gr.add_module("atexit")
        ctx.count(mode + "_failures", len(log))
        drop = [what for exc, what in log] if mode == "missing" else []
        less.drop = [x for x in drop if x[0] is not None]
        gone = [x[1] for x in drop if x[0] is None]
        ctx.count("lost_imports", len(drop))
        for kind, name, failed in added:
            for m in (full, less):
                if kind == "script":
                    m.add_script(w.script_path(name), w.scripts[name])
                elif kind == "module":
                    if m is less and any(name == x or name.startswith(x + ".") for x in gone):
                        continue
                    m.add_module(name)
                else:
                    d = "<dist>"
                    m.roots.add(d)
                    from ..model import DEFAULT, Node
                    m.nodes[d] = Node(d, "PyPIDistribution")
                    for n in name:
                        if m is less and any(n == x or n.startswith(x + ".") for x in gone):
                            continue
                        m.load(n)
                        m.edge(d, n, DEFAULT, "dist")
        for m in (full, less):
            m.add_module("atexit")
        act = observe(gr)
        ehi, elo = full.snapshot(), less.snapshot()
        d = [x for x in diff(elo, act) if x.kind in ("lost-node", "lost-edge", "class") or (x.kind == "attrs" and not x[2] <= x[3])]
        ctx.check(not d, lambda: "after a failure something else is lost: " + text(d))
        d = [x for x in diff(ehi, act) if x.kind in ("extra-node", "extra-edge", "class") or (x.kind == "attrs" and not x[3] <= x[2])]
        ctx.check(not d, lambda: "after a failure there is more than without it: " + text(d))
        if not drop:
            d = [x for x in diff(ehi, act) if x.kind == "roots"]
            ctx.check(not d, lambda: "after a failure: " + text(d))
        ctx.nontrivial(bool(log) or sum(1 for k, n in ops if k == "bad") > 1)
        ctx.sig(size_sig(ehi), len(log), [k for k, n in ops])
        ctx.sample({"ops": ops, "failures": [(repr(e), w2) for e, w2 in log], "nodes": act["nodes"]})

    def bad(self, ctx, gr, what, bad, scripts):
        r = ctx.rng
        before = state(gr)
        d = ctx.dir
        if what == "script_missing":
            op, want = (lambda: gr.add_script(r.choice([os.path.join(d, "nosuch.py"), pathlib.Path(d) / "no" / "such.py"]))), OSError
        elif what == "script_twice":
            there = [s for s in scripts if gr.find_node(s) is not None]
            if not there:
                return
            s = r.choice(there)
            op, want = (lambda: gr.add_script(r.choice([s, pathlib.Path(s)]))), ValueError
        elif what == "script_syntax":
            if not bad:
                return
            op, want = (lambda: gr.add_script(r.choice(bad))), SyntaxError
        elif what == "script_directory":
            op, want = (lambda: gr.add_script(os.path.join(d, "dir.py"))), OSError
        elif what == "distribution":
            op, want = (lambda: gr.add_distribution(r.choice(["nosuchdist", "", "no such", "-"]))), ValueError
        elif what == "source":
            op, want = (lambda: gr.add_dependencies_for_source(r.choice(["import errno\nimport (", "import nope\n\0", "if 1:\nimport errno", "return 1 2"]))), (SyntaxError, ValueError)
        else:
            op, want = (lambda: gr.add_excludes("errno")), TypeError
        ctx.count("failed_operations")
        ctx.count("fail_" + what)
        try:
            op()
        except want:
            pass
        except Exception as exc:
            ctx.violation("%s: raises %r" % (what, exc))
        else:
            ctx.violation("%s: no exception" % what)
        # unfinished work of an earlier failure may be done by this operation, but nothing may go away
        after = state(gr)
        if gr._work_stack if hasattr(gr, "_work_stack") else False:
            return
        ctx.check(before == after, lambda: "%s: the failing operation changed the graph: nodes %s, edges %s, roots %s" % (
            what, sorted(set(before[0]) ^ set(after[0])), sorted(set(before[1]) ^ set(after[1])), set(before[2]) ^ set(after[2])))

    # --- fixed cases

    def failing(self, ctx, kind, name, exc, **kw):
        gr = new_graph(**kw)
        calls = []

        def post(graph, node):
            calls.append(node.identifier)
            if node.identifier == name and calls.count(name) == 1:
                raise exc

        def missing(graph, imp, nm):
            calls.append(nm)
            if nm == name and calls.count(name) == 1:
                raise exc
        if kind == "post":
            gr.add_post_processing_hook(post)
        else:
            gr.add_missing_hook(missing)
        return gr, calls

    def expect_exc(self, ctx, exc, fn):
        try:
            fn()
        except BaseException as got:
            if got is not exc:
                raise
        else:
            ctx.violation("the exception of the hook is lost")

    def probe_missing_top_level(self, ctx):
        # the name has no package: nothing to fall back to
        write_files(ctx, {"m.py": "import nope\nimport a", "a.py": "import errno, nope"})
        for i, exc in enumerate([Oops(), ValueError("__spec__"), ModuleNotFoundError("x", name="nope"), SyntaxError("x"), ImportError(), SystemExit(1), AttributeError("has no attribute '__path__'")]):
            gr, calls = self.failing(ctx, "missing", "nope", exc)
            self.expect_exc(ctx, exc, lambda: gr.add_module("m"))
            gr.add_module("atexit")
            act = observe(gr)
            ctx.check({("m", "a"), ("a", "errno")} <= set(act["edges"]) and {("m", "nope"), ("a", "nope")} & set(act["edges"]),
                      "%r: edges %s" % (exc, sorted(act["edges"])))
            ctx.check(calls.count("nope") == 2, "%r: calls %s" % (exc, calls))

    def probe_missing_submodule(self, ctx):
        write_files(ctx, {"m.py": "import p.nope\nimport a", "a.py": "from p import nope, errno", "p/__init__.py": "import errno"})
        for i, exc in enumerate([Oops(), ValueError("__spec__"), ModuleNotFoundError("__path__ attribute not found", name="p.nope"), ImportError(), SystemExit(1)]):
            gr, calls = self.failing(ctx, "missing", "p.nope", exc)
            self.expect_exc(ctx, exc, lambda: gr.add_module("m"))
            gr.add_module("atexit")
            act = observe(gr)
            ctx.check({("m", "a"), ("a", "p"), ("p", "errno"), ("a", "errno")} <= set(act["edges"]), "%r: edges %s" % (exc, sorted(act["edges"])))

    def probe_alias_target(self, ctx):
        exc = Oops()
        write_files(ctx, {"m.py": "import al\n", "b.py": "from al import x\nimport errno"})
        gr, calls = self.failing(ctx, "missing", "nope", exc, implies={"al": ("alias", "nope")})
        self.expect_exc(ctx, exc, lambda: gr.add_module("m"))
        gr.add_module("b")
        act = observe(gr)
        ctx.check({("b", "errno"), ("b", "al")} <= set(act["edges"]), "edges %s" % sorted(act["edges"]))

    def probe_star_from_alias(self, ctx):
        exc = Oops()
        write_files(ctx, {"m.py": "import al\n", "b.py": "from al import *\nimport errno"})
        gr, calls = self.failing(ctx, "missing", "nope", exc, implies={"al": ("alias", "nope")})
        self.expect_exc(ctx, exc, lambda: gr.add_module("m"))
        gr.add_module("b")
        act = observe(gr)
        ctx.check({("b", "errno"), ("b", "al")} <= set(act["edges"]), "edges %s" % sorted(act["edges"]))

    def probe_post_hook_everywhere(self, ctx):
        write_files(ctx, {"m.py": "import a\nfrom p import s, t\nimport nope\n", "a.py": "import b\nimport p.s", "b.py": "from . import x",
                          "p/__init__.py": "import errno", "p/s.py": "from . import t", "p/t.py": ""})
        ref = None
        for k in range(0, 20):
            gr = new_graph()
            n = [0]

            def hook(graph, node):
                n[0] += 1
                if n[0] == k:
                    raise Oops
            gr.add_post_processing_hook(hook)
            try:
                gr.add_module("m")
                ctx.check(k == 0 or k > n[0], "no exception")
            except Oops:
                pass
            n[0] = 1000
            gr.add_module("atexit")
            act = observe(gr)
            ref = ref or act
            d = diff(ref, act)
            ctx.check(not d, lambda: "failure of call %d: %s" % (k, text(d)))

    def probe_hook_context(self, ctx):
        write_files(ctx, {"m.py": "", "a.py": "import b, c", "b.py": "import d", "c.py": "import e", "d.py": "", "e.py": "", "f.py": "import errno"})
        exc = Oops()
        gr, calls = self.failing(ctx, "post", "d", exc)
        m = gr.add_module("m")

        def op():
            with gr.hook_context():
                gr.import_module(m, "a")
                gr.import_module(m, "f")
        self.expect_exc(ctx, exc, op)
        gr.add_module("atexit")
        act = observe(gr)
        ctx.check({"a", "b", "c", "d", "e", "f", "errno"} <= set(act["nodes"]), "nodes %s" % act["nodes"])

    def probe_import_package(self, ctx):
        write_files(ctx, {"m.py": "", "p/__init__.py": "import a, b, c", "a.py": "import a1", "a1.py": "", "b.py": "import b1", "b1.py": "", "c.py": "import c1",
                          "c1.py": "", "q.py": "import q1", "q1.py": ""})
        for name in ("a", "a1", "b", "b1", "c", "c1", "p"):
            exc = Oops()
            gr, calls = self.failing(ctx, "post", name, exc)
            m = gr.add_module("m")

            def op():
                with gr.hook_context():
                    gr.import_module(m, "q")
                    gr.import_package(m, "p")
            self.expect_exc(ctx, exc, op)
            gr.add_module("atexit")
            names = {n.identifier for n in gr.nodes()}
            ctx.check({"a", "a1", "b", "b1", "c", "c1", "q", "q1"} <= names, "failure at %s: nodes %s" % (name, sorted(names)))


CHECK = C25()
