"""Reading installed distributions."""
import os
import subprocess
import sys

import modulegraph2 as mg
from modulegraph2 import _distributions

from ..check import Check
from ..dists import Dist, random_dist

ODD = ["nothere", "file.txt", "empty"]


class C17(Check):
    technique = "runtime monitor: distributions reported by the library against the generated dist-info data, every field compared"
    level_note = ("Random search paths with complete, incomplete and misleading dist-info directories; record files in CSV and unquoted form, with commas, "
                  "quotes, non-ASCII names, files outside the entry, bytecode caches and names that no module can have; lists, names, versions, files and "
                  "importable names must be those generated, and look-ups must honour the path order. Names with line ends are not generated.")
    cases = {"quick": 3000, "thorough": 80000}
    rule = "random search paths; non-trivial with at least 2 complete distributions that record something; distinct by their contents"
    minimum = {"distributions": 5000, "files": 20000, "import_names": 5000, "incomplete": 1500, "lookups": 8000}

    def case(self, ctx):
        r = ctx.rng
        entries = []
        want = []
        for i in range(r.randint(1, 3)):
            e = os.path.join(ctx.dir, r.choice(["site%d", "lib %d", "\u00fc%d", "x.dist-info%d", "d%d.py", "env%d/site-packages", "env%d/site-packages"]) % i)
            os.makedirs(e)
            ds = {}
            for _ in range(r.choice([0, 1, 2, 2, 3, 5])):
                d = random_dist(r)
                ds[d.dirname] = d
            for d in ds.values():
                k = r.random()
                if k < 0.3:
                    ctx.count("incomplete")
                    d.metadata, d.record = r.choice([(False, True), (True, False), (False, False), ("dir", True), (True, "dir")])
                d.write(e, r)
            for f in r.sample(["x.dist-info", "y-1.dist-info.bak", "z-1.egg-info", "w.py", "dist-info"], r.randrange(3)):
                if f == "x.dist-info":
                    open(os.path.join(e, f), "w").write("a file")
                elif f != "w.py":
                    c = random_dist(r)
                    c.dirname = f
                    c.write(e, r)
            entries.append(e)
            want.append([d for d in ds.values() if d.metadata is True and d.record is True])
        for o in ODD:
            if r.random() < 0.3:
                p = os.path.join(ctx.dir, o)
                if o == "file.txt":
                    open(p, "w").write("x")
                elif o == "empty":
                    os.makedirs(p, exist_ok=True)
                k = r.randrange(len(entries) + 1)
                entries.insert(k, p)
                want.insert(k, [])
        if r.random() < 0.2:
            k = r.randrange(len(entries))
            entries.append(entries[k])
            want.append(want[k])
        if r.random() < 0.3:
            k = r.randrange(len(entries))
            e = entries[k]
            b = os.path.relpath(e, ctx.dir)
            entries[k] = r.choice([b, "./" + b, e + "/", e + "/.", os.path.join(e, "..", os.path.basename(e)), e.replace("/", "//", 1) if False else e + "//"])
            if entries[k] == e + "//" and not os.path.isdir(e):
                entries[k] = e
        ctx.note(path=entries, distributions=[[(d.name, d.version, d.rows) for d in w] for w in want])
        use_sys = r.random() < 0.4
        if use_sys:
            sys.path[:] = entries + ctx.stdlib
            got = list(mg.all_distributions())
        else:
            got = list(mg.all_distributions(list(entries) if r.random() < 0.5 else iter(entries)))
        # in order of the entries, each complete directory once per entry
        i = 0
        show = lambda ds: [(d.name, d.version, os.path.basename(d.identifier)) for d in ds]
        n = 0
        for e, ds in zip(entries, want):
            part = got[i:i + len(ds)]
            i += len(ds)
            by = {os.path.basename(d.identifier): d for d in part}
            ctx.check(sorted(by) == sorted(d.dirname for d in ds), lambda: "distributions in %s: %s, expected %s" % (e, show(part), [(d.name, d.version, d.dirname) for d in ds]))
            for d in ds:
                g = by[d.dirname]
                n += bool(d.rows)
                ctx.count("distributions")
                ctx.check(type(g) is mg.PyPIDistribution, "type %s" % type(g))
                ctx.check((g.name, g.version) == (d.name, d.version), "name and version %r, expected %r" % ((g.name, g.version), (d.name, d.version)))
                f = d.files(e)
                ctx.count("files", len(f))
                ctx.check(set(g.files) == f, lambda: "files of %s: %s too many, %s missing" % (d.dirname, sorted(set(g.files) - f), sorted(f - set(g.files))))
                m = d.import_names()
                ctx.count("import_names", len(m))
                ctx.check(set(g.import_names) == m, lambda: "importable names of %s: %s too many, %s missing" % (d.dirname, sorted(set(g.import_names) - m), sorted(m - set(g.import_names))))
                for p in r.sample(d.rows, min(2, len(d.rows))):
                    ctx.check(g.contains_file(os.path.normpath(os.path.join(os.path.abspath(e), p))), "contains_file(%r)" % p)
                ctx.check(not g.contains_file(os.path.join(os.path.abspath(e), "surely", "not.py")), "contains_file of another file")
                ctx.check(os.path.isdir(g.identifier), "identifier %r" % g.identifier)
        ctx.check(i == len(got), lambda: "too many distributions: %s" % show(got[i:]))
        # looking up
        names = {d.name for w in want for d in w} | {"foo", "Foo", "nosuch", "FOO", "foo-bar", "foo_bar", ""}
        for nm in sorted(names):
            ctx.count("lookups")
            g = _distributions.distribution_named(nm) if use_sys else _distributions.distribution_named(nm, entries)
            first = None
            for e, ds in zip(entries, want):
                c = [d for d in ds if d.name == nm]
                if c:
                    first = (os.path.abspath(e), c)
                    break
            if first is None:
                ctx.check(g is None, lambda: "distribution_named(%r) is %s" % (nm, g.identifier))
            else:
                ctx.check(g is not None and g.name == nm, "distribution_named(%r) is %s" % (nm, g and g.name))
                ctx.check(os.path.dirname(os.path.abspath(g.identifier)) == first[0] and os.path.basename(g.identifier) in {d.dirname for d in first[1]},
                          lambda: "distribution_named(%r) is %s, the first one is in %s" % (nm, g.identifier, first[0]))
        again = list(mg.all_distributions(entries))
        ctx.check([d.identifier for d in again] == [d.identifier for d in got] and all(a == b for a, b in zip(again, got)), "a second listing differs")
        ctx.nontrivial(n >= 2)
        ctx.sig([[(d.name, d.version, sorted(d.rows)) for d in w] for w in want])
        ctx.sample({"path": entries, "distributions": [[(d.name, d.version, d.rows) for d in w] for w in want]})

    # --- fixed cases

    def one(self, ctx, rows, record=None, i=[0]):
        i[0] += 1
        d = Dist("D%d" % i[0], "1", rows)
        e = os.path.join(ctx.dir, "e%d" % i[0])
        d.write(e, ctx.rng)
        if record is not None:
            with open(os.path.join(e, d.dirname, "RECORD"), "wb") as fp:
                fp.write(record)
        got = list(mg.all_distributions([e]))
        ctx.check(len(got) == 1, "%d distributions" % len(got))
        rel = {os.path.relpath(f, e) for f in got[0].files}
        return rel, got[0].import_names

    def probe_lines(self, ctx):
        for line, path in [(b"a.py,,", "a.py"), (b"a.py", "a.py"), (b"a.py,sha256=x,1", "a.py"), (b'"a,b.py",,', "a,b.py"), (b"a,b.py,,", "a,b.py"), (b"a,b.py,sha256=x,3", "a,b.py"),
                           (b'"a""b.txt",sha256=x,3', 'a"b.txt'), (b'"q.py",,', "q.py"), (b" a.py,,", " a.py"), ("\u00e9.py,,".encode(), "\u00e9.py"), (b"x/../y.py,,", "y.py"), (b"./z.py,,", "z.py")]:
            for end in (b"", b"\n", b"\r\n", b"\n\n", b"\n\n\n"):
                rel, _ = self.one(ctx, [], line + end)
                ctx.check(rel == {path}, "%r: %r" % (line + end, rel))

    def probe_import_names(self, ctx):
        for row, name in [("a.py", "a"), ("a.pyc", "a"), ("a.so", "a"), ("a.abi3.so", "a"), ("a.cpython-312-x86_64-linux-gnu.so", "a"), ("a.cpython-311-x86_64-linux-gnu.so", None),
                          ("p/__init__.py", "p"), ("p/__init__.pyc", "p"), ("p/__init__.so", "p"), ("p/__init__.abi3.so", "p"), ("p/q/r/s.py", "p.q.r.s"), ("p/q/__init__.abi3.so", "p.q"), ("a.b.py", None),
                          ("p.q/__init__.py", None), ("x-1.dist-info/a.py", None), ("../a.py", None), ("p/../../a.py", None), ("/a.py", None), ("__pycache__/a.py", None), ("p/__pycache__/a.pyc", None),
                          (".py", None), ("p/.py", None), ("a.pyi", None), ("apy", None), ("p/__init__.txt", None), ("__pycache__.py", "__pycache__"), ("p__pycache__/a.py", "p__pycache__.a"),
                          ("a.txt", None), ("p/__init__/x.py", "p.__init__.x"), ("pp__init__.py", "pp__init__")]:
            _, names = self.one(ctx, [row])
            ctx.check(names == ({name} if name else set()), "%s: %s" % (row, names))

    def probe_locale(self, ctx):
        e = os.path.join(ctx.dir, "e")
        Dist("D", "1", ["\u00fc.py", "p/\u65e5.txt"]).write(e, ctx.rng)
        code = ("import sys; sys.path[:0] = %r\nimport modulegraph2 as mg, locale\nd, = mg.all_distributions([%r])\nprint(ascii(sorted(d.files)), ascii(d.import_names))\n"
                % ([os.path.dirname(os.path.dirname(mg.__file__)), ctx.site], e))
        for env in ({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}, {"PYTHONUTF8": "1"}):
            p = subprocess.run([sys.executable, "-B", "-c", code], env=env, capture_output=True, text=True)
            ctx.check(p.returncode == 0, "with %s: %s" % (env, p.stderr[-300:]))
            ctx.check("\\xfc" in p.stdout and "\\u65e5" in p.stdout.replace("\\udce6\\udc97\\udca5", "\\u65e5"), "with %s: %s" % (env, p.stdout))

    def probe_incomplete_first(self, ctx):
        e = os.path.join(ctx.dir, "e")
        for i in range(30):
            d = Dist("D%02d" % i, "1", ["m%d.py" % i])
            d.metadata, d.record = [(True, True), (False, True), (True, False)][i % 3]
            d.write(e, ctx.rng)
        got = {d.name for d in mg.all_distributions([os.path.join(ctx.dir, "no"), e, os.path.join(ctx.dir, "no2")])}
        ctx.check(got == {"D%02d" % i for i in range(0, 30, 3)}, "distributions %s" % sorted(got))
        # an incomplete one that is completed later is found
        Dist("D01", "1", ["m1.py"]).write(e, ctx.rng)
        ctx.check(_distributions.distribution_named("D01", [e]) is not None, "completed distribution")

    def probe_current_directory(self, ctx):
        e = os.path.join(ctx.dir, "e")
        Dist("D", "1", ["m.py"]).write(e, ctx.rng)
        os.chdir(e)
        for p in ("", ".", "../e", "./"):
            got = list(mg.all_distributions([p]))
            ctx.check([d.name for d in got] == ["D"] and got[0].files == {e + "/m.py"}, "entry %r: %s" % (p, [(d.name, d.files) for d in got]))
        # relative entries mean the directory that is current at the time
        e2 = os.path.join(ctx.dir, "f", "e")
        Dist("E", "1", ["m.py"]).write(e2, ctx.rng)
        os.chdir(ctx.dir)
        ctx.check([d.name for d in mg.all_distributions(["e"])] == ["D"], "entry e")
        os.chdir("f")
        ctx.check([d.name for d in mg.all_distributions(["e"])] == ["E"], "entry e in another directory")

    def probe_incomplete_metadata(self, ctx):
        e = os.path.join(ctx.dir, "e")
        for i, t in enumerate([b"", b"\n", b"Name: A\n", b"Version: 1\n", b"garbage", b"\xff\xfe\0", b"\nName: A\nVersion: 1\n"]):
            d = Dist("B%d" % i, "1", ["m.py"])
            d.write(e, ctx.rng)
            with open(os.path.join(e, d.dirname, "METADATA"), "wb") as fp:
                fp.write(t)
        Dist("Good", "1", ["m.py"]).write(e, ctx.rng)
        Dist("G\u00fct", "1", ["m2.py"]).write(e, ctx.rng)
        got = {d.name for d in mg.all_distributions([e])}
        ctx.check(got == {"Good", "G\u00fct"}, "distributions %s" % got)

    def probe_order(self, ctx):
        path = []
        for i in range(8):
            e = os.path.join(ctx.dir, "e%d" % i)
            Dist("D", str(i), ["m.py"]).write(e, ctx.rng)
            Dist("E%d" % i, "1", ["m.py"]).write(e, ctx.rng)
            path.append(e)
        for k in range(8):
            p = path[k:] + path[:k]
            ctx.check(_distributions.distribution_named("D", p).version == str(k), "the first one is not found")
            ctx.check(_distributions.distribution_named("E%d" % k, p).files == {path[k] + "/m.py"}, "E%d" % k)

    def probe_many_rows(self, ctx):
        rows = ["p/m%d.py" % i for i in range(5000)] + ["p/d%d,x.txt" % i for i in range(5000)]
        rel, names = self.one(ctx, rows)
        ctx.check(rel == set(rows) and len(names) == 5000, "large record: %d %d" % (len(rel), len(names)))


CHECK = C17()
