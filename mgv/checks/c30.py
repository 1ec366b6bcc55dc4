"""The command line."""
import contextlib
import io
import os
import subprocess
import sys

import modulegraph2 as mg
import modulegraph2.__main__ as cli

from ..build import isolated, new_graph, write_files
from ..check import Check
from ..exports import HOSTILE, SHAPES, Desc, dot_differences, html_differences
from ..gen import gen_world

REPO = os.environ.get("MGV_DEV_REPO", "/repo")


class FakeNode:
    pass


def plain(d):
    """A description of the graph that can be sent to another process."""
    nodes = {}
    for i, n in d.nodes.items():
        dist = getattr(n, "distribution", None)
        nodes[i] = (type(n).__name__, n.name if hasattr(n, "name") else None, dist.name if dist is not None else None, isinstance(n, mg.BaseNode))
    edges = {k: {(x.is_optional,) for x in v} for k, v in d.edges.items()}
    return {"nodes": nodes, "edges": edges, "roots": d.roots, "reach": d.reach, "modules": d.modules}


def revive(p):
    class Dep:
        def __init__(self, o):
            self.is_optional = o
    d = Desc.__new__(Desc)
    d.nodes = {}
    for i, (cls, name, dist, base) in p["nodes"].items():
        n = type(cls, (FakeNode,), {})()
        n.identifier, n.name = i, name
        n.distribution = None
        if dist is not None:
            n.distribution = FakeNode()
            n.distribution.name = dist
        d.nodes[i] = n
    d.edges = {k: {Dep(*x) for x in v} for k, v in p["edges"].items()}
    d.roots, d.reach, d.modules = p["roots"], p["reach"], p["modules"]
    return d


def run_main(argv, cwd, path):
    def fn():
        os.chdir(cwd)
        sys.path[:] = path
        before = list(sys.path)
        out, err = io.StringIO(), io.StringIO()
        code = 0
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main(argv)
            except SystemExit as exc:
                code = exc.code or 0
        return code, out.getvalue(), err.getvalue(), sys.path == before
    return isolated(fn)


def run_process(argv, cwd, path, env):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    e.update(env)
    e["PYTHONPATH"] = os.pathsep.join(path + [REPO])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([sys.executable, "-c", "import sys; del sys.path[0]; import runpy; sys.argv[0] = 'x'; "
                        "runpy.run_module('modulegraph2', run_name='__main__', alter_sys=True)"] + argv,
                       cwd=cwd, env=e, capture_output=True, timeout=120)
    enc = env.get("PYTHONIOENCODING", "utf-8").partition(":")[0]
    return p.returncode, p.stdout.decode(enc, "replace" if p.returncode else "surrogateescape"), p.stderr.decode("utf-8", "replace"), True


ENVS = [{}, {}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C", "PYTHONIOENCODING": "utf-8"}, {"PYTHONUTF8": "1"}]


class C30(Check):
    technique = "runtime monitor: output of the command line, read by parsers of both formats, against the graph the library builds"
    level_note = ("Random worlds with shadowing entries, scripts, distributions and excludes, random option orders and spellings; in this process "
                  "and as real processes in several locales; the output must describe the library's graph exactly and arrive only where it was asked for. "
                  "Unwritable output and wrong usage are injected. How the parser abbreviates options is not checked.")
    cases = {"quick": 700, "thorough": 7000}
    rule = "random worlds and command lines; non-trivial with at least 3 nodes and 2 options; distinct by command line and nodes"
    minimum = {"html": 120, "dot": 120, "files": 100, "stdout": 100, "scripts": 40, "distributions": 30, "modules": 80, "path_options": 200, "path_decides": 10,
               "stdlib_excluded": 40, "unwritable": 25, "usage": 15, "processes": 25}

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, ntops=(2, 4), maxsubs=2, weird=0.2, zips=False, nimports=(0, 4), acyclic=False, star=False, reexport=False, nentries=r.choice([1, 2, 3]))
        w = g.world
        w.write(ctx.dir)
        entries = w.path()
        # other files with the same names: the order of the entries decides
        more = os.path.join(ctx.dir, "more")
        os.makedirs(more)
        shadows = 0
        for n in g.order:
            if "." not in n and r.random() < 0.4:
                with open(os.path.join(more, n + ".py"), "w", encoding="utf-8") as fp:
                    fp.write("import atexit\nimport in_more_%d\n" % shadows)
                shadows += 1
        for e in {more: 1, **{e: 1 for e in entries}}:
            with open(os.path.join(e, "which_one.py"), "w") as fp:
                fp.write("import which_%d\n" % (entries.index(e) if e in entries else 9))
        dists = []
        for i, t in enumerate([n for n in w.mods if "." not in n and w.mods[n].kind == "source"][: r.randrange(3)]):
            m = w.mods[t]
            d = os.path.join(entries[m.entry], "D%d-1.dist-info" % i)
            os.makedirs(d)
            files = [m.relpath()] + [x.relpath() for n, x in w.mods.items() if n.startswith(t + ".") and x.entry == m.entry and x.kind != "nspkg"]
            for f, data in (("METADATA", "Name: D%d\nVersion: 1\n" % i), ("RECORD", "".join("%s,,\n" % x for x in files))):
                with open(os.path.join(d, f), "w", encoding="utf-8") as fp:
                    fp.write(data)
            dists.append("D%d" % i)
        scripts = []
        for i in range(2):
            name = r.choice(HOSTILE + ["s.py"]).replace("/", "_") + r.choice(["", ".py", str(i)])
            p = os.path.join(ctx.dir, name)
            if name.startswith("-") or os.path.exists(p):
                continue
            with open(p, "w", encoding="utf-8") as fp:
                fp.write("import which_one\nimport %s\n" % r.choice(g.order))
            scripts.append(r.choice([name, p, os.path.join(".", name)]))
        allp = entries + [more]
        r.shuffle(allp)
        k = r.randrange(len(allp) + 1)
        opt_path, base = allp[:k], allp[k:] or [more]
        opt_path = [os.path.relpath(p, ctx.dir) if r.random() < 0.2 else p for p in opt_path]
        # the command line
        kind = r.choice(["module", "module", "script", "distribution"])
        names = {"module": [r.choice(g.order + ["which_one", "nothing_here", "which_one.sub"]) for _ in range(r.randint(1, 3))],
                 "script": r.sample(scripts, min(len(scripts), r.randint(1, 2))), "distribution": r.sample(dists, min(len(dists), r.randint(1, 2)))}[kind]
        visible = set(opt_path) | set(base)
        if not names or (kind == "distribution" and not all(e in visible for e in entries)):
            kind, names = "module", r.sample(g.order, 1)
        opts = []
        flags = {"module": ["-m", "--module"], "script": ["-s", "--script"], "distribution": ["-d", "--distribution"]}
        mine = [[r.choice(flags[kind])]] if kind != "module" or r.random() < 0.5 else []
        if mine and r.random() < 0.2:
            mine.insert(0, [r.choice(flags[r.choice(list(flags))])])       # the last one counts
        fmt = r.choice(["html", "dot"])
        if fmt == "dot" or r.random() < 0.5:
            f = r.choice([["-f", fmt], ["--format", fmt], ["--format=" + fmt], ["-f" + fmt]])
            opts.append(f)
        excludes = [r.choice(g.order + ["which_one", "errno", "not.there"]) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        for x in excludes:
            opts.append(r.choice([["-x", x], ["--exclude", x], ["--exclude=" + x], ["-x" + x]]))
        whole = r.random() < 0.25
        if whole:
            opts += [["--exclude-stdlib"]] * r.choice([1, 1, 2])
        for p in opt_path:
            opts.append(["PATH", p])
        output = None
        if r.random() < 0.5:
            output = r.choice(["out.html", "sub dir/x", "-o.txt"[1:], os.path.join(ctx.dir, "full.dot"), "\u00fc.dot", "old"])
            broken = r.random() < 0.2
            if broken:
                output = r.choice(["nodir/out.html", "sub dir", "/dev/full", "which/which.py/x", "\0bad"[1:] * 100])
            opts.append(r.choice([["-o", output], ["--output", output], ["--output=" + output]]))
        else:
            broken = False
        os.makedirs(os.path.join(ctx.dir, "sub dir"))
        with open(os.path.join(ctx.dir, "old"), "w") as fp:
            fp.write("old contents\n" * 20000)
        r.shuffle(opts)
        # entries keep their order
        opts = self.paths(r, opts, opt_path)
        pos = sorted(r.randrange(len(opts) + 1) for _ in mine)
        for i, (p, o) in enumerate(zip(pos, mine)):
            opts.insert(p + i, o)
        if r.random() < 0.3:
            # names first, or between
            p = r.randrange(len(opts) + 1)
            argv = [x for o in opts[:p] for x in o] + names + [x for o in opts[p:] for x in o]
        else:
            argv = [x for o in opts for x in o] + r.choice([[], ["--"]]) + names
        usage = r.random() < 0.08
        if usage:
            bad = r.choice([["-f", "png"], ["--nosuch"], ["-f"], ["-x"], ["-o"], ["--output"], None, ["-f", "HTML"], ["-mz"], ["--script=1"]])
            argv = [x for o in opts for x in o] if bad is None else argv[: argv.index("--")] + bad if "--" in argv else argv + bad
        ctx.note(argv=argv, base=base, files=w.dump())

        def listing():
            return {os.path.join(d, f): os.path.getsize(os.path.join(d, f)) for d, dirs, fs in os.walk(ctx.dir) for f in fs if "__pycache__" not in d}
        before = listing()
        path = base + ctx.stdlib
        if r.random() < 0.1:
            code, out, err, same = run_process(argv, ctx.dir, base, r.choice(ENVS))
            ctx.count("processes")
        else:
            code, out, err, same = run_main(argv, ctx.dir, path)
        ctx.note(code=code, out=out, err=err)
        ctx.check(same, "sys.path changed")
        after = listing()
        target = os.path.join(ctx.dir, output) if output else None
        changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
        if usage:
            ctx.check(code == 2 and err and not out and not changed, "wrong usage: status %r, output %r, files %s" % (code, out[:100], changed))
            ctx.count("usage")
            return
        if broken:
            ctx.check(code == 1, "the output cannot be written and the status is %r: %s" % (code, err[-600:]))
            ctx.check(err.strip() and "Traceback" not in err, "the error is reported as %r" % err[-600:])
            ctx.check(not out and not changed, "output %r, files %s" % (out[:100], changed))
            ctx.count("unwritable")
            return
        ctx.check(code == 0, "status %r: %s" % (code, err[-800:]))
        ctx.check(not err, "on standard error: %r" % err[-600:])

        def expected():
            os.chdir(ctx.dir)
            sys.path[:] = opt_path + path
            gr = new_graph(use_stdlib_implies=True, excludes=excludes + (sorted(mg_stdlib()) if whole else []))
            for n in names:
                {"module": gr.add_module, "script": gr.add_script, "distribution": gr.add_distribution}[kind](n)
            return plain(Desc(gr))
        d = revive(isolated(expected))
        if output is not None:
            ctx.check(not out, "something was printed: %r" % out[:200])
            ctx.check(changed <= {target} and os.path.exists(target), "changed files: %s, requested %s" % (changed, target))
            with open(target, encoding="utf-8", errors="surrogateescape") as fp:
                out = fp.read()
            ctx.count("files")
        else:
            ctx.check(not changed, "changed files: %s" % changed)
            ctx.count("stdout")
        ctx.note(out=out)
        bad = (html_differences if fmt == "html" else dot_differences)(out, d)
        ctx.check(not bad, lambda: "the output differs from the graph: " + "; ".join(bad[:3]), differences=bad)
        ctx.count(fmt)
        ctx.count(kind + "s")
        ctx.count("path_options", len(opt_path))
        ctx.count("stdlib_excluded", whole)
        ctx.count("path_decides", bool({"which_%d" % i for i in range(10)} & d.reach))
        ctx.nontrivial(len(d.reach) >= 3 and len(opts) >= 2)
        ctx.sig(sorted(map(str, opts)), sorted(d.reach))
        ctx.sample({"argv": argv, "path": base, "nodes": sorted(d.reach)[:30], "edges": len(d.edges), "size": len(out)})

    def paths(self, r, opts, opt_path):
        it = iter(opt_path)
        res = []
        for o in opts:
            if o[0] == "PATH":
                p = next(it)
                o = r.choice([["-p", p], ["--path", p], ["--path=" + p], ["-p" + p]])
            res.append(o)
        return res

    def probe_shapes(self, ctx):
        ctx.check(set(SHAPES) == set(cli.NODE_ATTR), "shapes")

    def probe_whole_stdlib(self, ctx):
        write_files(ctx, {"m.py": "".join("import %s\n" % n for n in sorted(mg_stdlib()) if n not in ("antigravity", "this")) + "import os.path, email.mime.text\nfrom json import decoder\n"})
        code, out, err, same = run_main(["--exclude-stdlib", "-f", "dot", "m"], ctx.dir, list(sys.path))
        ctx.check(code == 0 and not err, "%s %s" % (code, err[-300:]))

        def expected():
            gr = new_graph(use_stdlib_implies=True, excludes=sorted(mg_stdlib()))
            gr.add_module("m")
            return plain(Desc(gr)), [n.identifier for n in gr.iter_graph() if not isinstance(n, mg.ExcludedModule)]
        p, rest = isolated(expected)
        bad = dot_differences(out, revive(p))
        ctx.check(not bad and rest == ["m"], "%s, not excluded: %s" % (bad[:3], rest))

    def probe_locales(self, ctx):
        """Names that the locale's encoding does not have."""
        write_files(ctx, {"m\u00fc.py": "import \u65e5\u672c", "s \u20ac.py": "import m\u00fc"})
        d = os.path.join(ctx.dir, "d")
        for env in ({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}, {"PYTHONUTF8": "1", "LC_ALL": "C"}):
            for fmt in ("html", "dot"):
                o = os.path.join(ctx.dir, "out")
                env2 = dict(env)
                code, out, err, _ = run_process(["-f", fmt, "-o", o, "m\u00fc"], ctx.dir, [d], env2)
                ctx.check(code == 0, "%s: status %s: %s" % (env, code, err[-300:]))
                with open(o, encoding="utf-8") as fp:
                    text = fp.read()
                ctx.check("m\u00fc" in text and "\u65e5\u672c" in text, "%s: %r" % (env, text[:300]))
                os.unlink(o)

    def probe_calls_are_independent(self, ctx):
        write_files(ctx, {"a.py": "import b, errno", "b.py": "", "p/c.py": ""})

        def fn():
            res = []
            for argv in (["-x", "b", "--exclude-stdlib", "a"], ["a"], ["--exclude-stdlib", "a"], ["-p", os.path.join(ctx.dir, "d", "p"), "-x", "errno", "a", "c"], ["a", "c"]):
                o = io.StringIO()
                with contextlib.redirect_stdout(o):
                    cli.main(argv + ["-f", "dot"])
                res.append(o.getvalue())
            return res
        res = isolated(fn)
        from ..exports import DotReader
        got = [{n for n, at in DotReader(x).nodes.items()} for x in res]
        ctx.check(all({"a", "b", "errno"} <= g for g in got), str(got))
        shapes = [DotReader(x).nodes for x in res]
        ctx.check("shape" not in shapes[0]["b"] and shapes[1]["b"].get("shape") == "rectangle" and shapes[1]["errno"].get("shape") == "hexagon"
                  and shapes[2]["b"].get("shape") == "rectangle" and "shape" not in shapes[2]["errno"] and shapes[3]["c"].get("color") is None
                  and shapes[4]["c"].get("color") == "red", str(shapes))


def mg_stdlib():
    return sys.stdlib_module_names


CHECK = C30()
