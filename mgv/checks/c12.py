"""Data files of packages."""
import importlib
import importlib.machinery
import os
import sys
import zipfile

import modulegraph2 as mg

from ..build import new_graph, write_files
from ..check import Check
from ..world import EXT, make_pyc

MODULES = ["a.py", "b.pyc", "_c.abi3.so", "d" + EXT[0], "e.so", ".py", "f.g.py", "__main__.py", "\u00fc.py"]
DATA = ["data.txt", "README", "py.typed", "x.pyi", "x.pyo", "x.PY", "x.pyw", "x.py.txt", "py", "x.py~", ".hidden", "a b", "x.so.1", "\u00fc.dat", "Makefile", "x.pyx",
        "__pycache__x", "pycache", "x.dll", "x.c", ".gitignore", "\udce4bytes"]
DIRS = ["sub", "d.py", "e.so", "data", "s.pyc", "tests", "x.git", "__pycache", "\u00fc", "git", "locale"]
IGNORED = ["__pycache__", ".git", ".hg", ".svn"]


def is_module(name):
    return name.endswith((".py", ".pyc", ".so"))


class C12(Check):
    technique = "runtime monitor: the data-file flag of observed packages against an own walk over the directory or zip file"
    level_note = ("Random package trees on disk and in zip files (nested, with sub-packages, ignored and misleadingly named directories, empty directories, "
                  "packages whose names are prefixes of each other), listed in shuffled orders; the flag of every package in the graph is compared with an "
                  "independent computation over the list of files that was written. Symbolic links to directories are not generated.")
    cases = {"quick": 2400, "thorough": 60000}
    rule = "random file trees; non-trivial with at least two packages, one of them with and one without data files or an ignored directory; distinct by tree"
    minimum = {"packages": 6000, "with_data": 1500, "without_data": 1500, "zip": 700, "ignored_dirs": 700}

    def tree(self, r, files, base, depth, zipped, p):
        for n in r.sample(MODULES, r.choice([0, 1, 2])):
            files[base + n] = b"" if not n.endswith(".pyc") else make_pyc("", "x")
        if r.random() < p:
            n = r.choice(DATA)
            if not (zipped and "\udce4" in n):
                files[base + n] = b"data"
        if depth < 4:
            for n in r.sample(DIRS + IGNORED, r.choice([0, 1, 1, 2, 3])):
                if base + n in files:
                    continue
                if n in IGNORED:
                    for k in r.sample(DATA[:10] + MODULES[:3] + ["x/y/data", "config", "x/__init__.py"], 2):
                        files[base + n + "/" + k] = b"data"
                elif r.random() < 0.15:
                    files[base + n + "/"] = None
                else:
                    if r.random() < 0.4:
                        files[base + n + "/__init__.py"] = b""
                    self.tree(r, files, base + n + "/", depth + 1, zipped, p)

    def oracle(self, files, pkgdir):
        for f, d in files.items():
            if d is None or not f.startswith(pkgdir + "/"):
                continue
            parts = f[len(pkgdir) + 1:].split("/")
            if any(x in IGNORED for x in parts[:-1]):
                continue
            if not is_module(parts[-1]):
                return True
        return False

    def case(self, ctx):
        r = ctx.rng
        zipped = r.random() < 0.45
        files = {}
        tops = r.sample(["pkg", "pkg2", "pk", "pkg_", "other", "p\u00e4k"], r.choice([1, 2, 3]))
        p = r.choice([0, 0.15, 0.4])
        for t in tops:
            files[t + "/__init__" + r.choice([".py"] * 4 + [".pyc"] + ([] if zipped else [EXT[0]]))] = make_pyc("", "x")
            self.tree(r, files, t + "/", 0, zipped, r.choice([0, p, 1]) if r.random() < 0.5 else p)
        for t in tops:
            if t + "/__init__.py" in files:
                files[t + "/__init__.py"] = b""
        if r.random() < 0.5:
            files["toplevel.txt"] = b"not in a package"
        for f in list(files):
            # a name is a file or a directory
            if any(g.startswith(f.rstrip("/") + "/") and g != f for g in files):
                files.pop(f)
        for f in list(files):
            if files[f] is None and f.rstrip("/") in files:
                files.pop(f)
        order = list(files)
        r.shuffle(order)
        if zipped:
            ctx.count("zip")
            sub = r.choice(["", "", "lib/", "pkg/", "__pycache__/", ".git/"])
            z = os.path.join(ctx.dir, r.choice(["z.zip", "z.egg", "zip"]))
            explicit = r.random() < 0.6
            with zipfile.ZipFile(z, "w") as zf:
                seen = set()
                for f in order:
                    if explicit:
                        parts = (sub + f).rstrip("/").split("/")
                        for k in range(1, len(parts) + (1 if files[f] is None else 0)):
                            d = "/".join(parts[:k]) + "/"
                            if d not in seen:
                                seen.add(d)
                                zf.writestr(d, b"")
                    if files[f] is not None:
                        zf.writestr(sub + f, files[f])
            entry = os.path.join(z, sub.rstrip("/")) if sub else z
        else:
            entry = write_files(ctx, {f.rstrip("/"): files[f] for f in order}, activate=False)
        ctx.note(files=sorted(ascii(f) for f in files), entry=entry)
        sys.path[:] = [entry] + ctx.stdlib
        importlib.invalidate_caches()
        real = os.listdir

        def listdir(*a):
            res = list(real(*a))
            r.shuffle(res)
            return res

        os.listdir = listdir
        try:
            gr = new_graph()
            names = set()
            for f in files:
                if f.rpartition("/")[2].startswith("__init__.") and not any("." in x for x in f.split("/")[:-1]) and not any(x in IGNORED for x in f.split("/")):
                    names.add(f.rpartition("/")[0].replace("/", "."))
            for n in r.sample(sorted(names), len(names)):
                gr.add_module(n)
        finally:
            os.listdir = real
        n_with = n_without = 0
        for n in sorted(names):
            node = gr.find_node(n)
            want = self.oracle(files, n.replace(".", "/"))
            if type(node) is not mg.Package:
                # a namespace package does not carry the flag
                ctx.check(node is not None, "no node for %s" % n)
                continue
            ctx.count("packages")
            ctx.count("with_data" if want else "without_data")
            n_with += want
            n_without += not want
            ctx.check(bool(node.has_data_files) == want, "has_data_files of %s is %s, expected %s" % (n, node.has_data_files, want))
        ign = any(x in IGNORED for f in files for x in f.split("/"))
        ctx.count("ignored_dirs", ign)
        ctx.nontrivial((n_with and n_without) or (ign and n_with + n_without > 1))
        ctx.sig(sorted(ascii(f) for f in files), zipped)
        ctx.sample({"entry": entry, "files": sorted(ascii(f) for f in files), "flags": {n: bool(getattr(gr.find_node(n), "has_data_files", False)) for n in names}})

    # --- fixed cases

    def flag(self, ctx, files, i=[0]):
        i[0] += 1
        files = {f.replace("p/", "p%d/" % i[0], 1): d for f, d in files.items()}
        name = "p%d" % i[0]
        if i[0] % 2:
            root = write_files(ctx, files)
        else:
            root = write_files(ctx, files)
        gr = new_graph()
        a = gr.add_module(name).has_data_files
        # the same in a zip file
        z = os.path.join(ctx.dir, "z%d.zip" % i[0])
        with zipfile.ZipFile(z, "w") as zf:
            for f, d in files.items():
                zf.writestr(f + ("/" if d is None else ""), d or b"")
        sys.path[:] = [z] + ctx.stdlib
        importlib.invalidate_caches()
        b = new_graph().add_module(name).has_data_files
        ctx.check(a == b, "on disk %s, in a zip file %s: %s" % (a, b, files))
        return a

    def probe_single_files(self, ctx):
        for f, want in [(f, True) for f in DATA if "\udce4" not in f] + [(f, False) for f in MODULES]:
            for pre in ("", "a/", "a/b/", "d.py/"):
                got = self.flag(ctx, {"p/__init__.py": b"", "p/" + pre + f: b"x"})
                ctx.check(bool(got) == want, "%s: %s" % (pre + f, got))

    def probe_ignored(self, ctx):
        for d in IGNORED:
            for pre in ("", "a/", "a/b/"):
                ctx.check(not self.flag(ctx, {"p/__init__.py": b"", "p/" + pre + d + "/data": b"x"}), "%s%s" % (pre, d))
                ctx.check(not self.flag(ctx, {"p/__init__.py": b"", "p/" + pre + d + "/x/y/data": b"x"}), "below %s%s" % (pre, d))
                ctx.check(self.flag(ctx, {"p/__init__.py": b"", "p/" + pre + d + "/x": b"x", "p/" + pre + "z": b""}), "besides %s%s" % (pre, d))
                ctx.check(self.flag(ctx, {"p/__init__.py": b"", "p/" + pre + d + "/x": b"x", "p/" + pre + "A": b""}), "before %s%s" % (pre, d))

    def probe_empty_directories(self, ctx):
        ctx.check(not self.flag(ctx, {"p/__init__.py": b"", "p/a": None, "p/b/c/d": None, "p/x.txt": None}), "empty directories")
        ctx.check(self.flag(ctx, {"p/__init__.py": b"", "p/a": None, "p/b/c/d": None, "p/b/c/e/x": b""}), "a file below directories")

    def probe_prefix_names(self, ctx):
        z = os.path.join(ctx.dir, "z.zip")
        with zipfile.ZipFile(z, "w") as zf:
            for f in ("pkg/__init__.py", "pkg2/__init__.py", "pkg2/data", "pk/__init__.py", "pkg/sub/__init__.py", "pkg/subx/data", "x/pkg/sub/y", "data"):
                zf.writestr(f, b"")
        sys.path[:] = [z] + ctx.stdlib
        importlib.invalidate_caches()
        gr = new_graph()
        got = {n: bool(gr.add_module(n).has_data_files) for n in ("pkg", "pkg2", "pk", "pkg.sub")}
        ctx.check(got == {"pkg": True, "pkg2": True, "pk": False, "pkg.sub": False}, "flags %s" % got)

    def probe_large_directory(self, ctx):
        files = {"p/__init__.py": b""}
        for i in range(1500):
            files["p/m%d.py" % i] = b""
        ctx.check(not self.flag(ctx, files), "1500 modules")
        files["p/q"] = b""
        ctx.check(self.flag(ctx, files), "1500 modules and one file")

    def probe_links(self, ctx):
        d = write_files(ctx, {"p/__init__.py": b"", "q/__init__.py": b"", "real.txt": b"", "real.py": b""})
        os.symlink(d + "/real.txt", d + "/p/l.txt")
        os.symlink(d + "/real.py", d + "/q/l.py")
        gr = new_graph()
        ctx.check(gr.add_module("p").has_data_files and not gr.add_module("q").has_data_files, "linked files")

    def probe_deep_directories(self, ctx):
        files = {"p/__init__.py": b"", "p/" + "d/" * 80 + "__init__.py": b""}
        ctx.check(not self.flag(ctx, files), "80 nested directories")
        files["p/" + "d/" * 80 + "x.dat"] = b""
        ctx.check(self.flag(ctx, files), "a file in 80 nested directories")


CHECK = C12()
