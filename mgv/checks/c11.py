"""Kinds, files and search paths of nodes."""
import importlib
import importlib.machinery
import importlib.util
import marshal
import os
import sys
import types
import zipfile

import modulegraph2 as mg

from ..build import new_graph, write_files
from ..check import Check
from ..snap import observe
from ..world import BAD_SOURCES, EXT, make_pyc

TOPS = ["mod", "pkg", "alpha", "n-1", "\u00fcber", "this", "tabnanny", "nturl2path", "errno", "itertools", "__hello__", "__phello__", "_x", "mo"]
SUBS = ["mod", "pkg", "sub", "s2", "errno", "__main__", "a b", "spam"]
M = importlib.machinery


def expected(name, cache):
    """(spec, class, init class, code) as the import system has it; no code of the world is run"""
    if name in cache:
        return cache[name]
    parent = name.rpartition(".")[0]
    res = None
    if parent:
        p = expected(parent, cache)
        if p is None or p[0].submodule_search_locations is None:
            cache[name] = None
            return None
        path = list(p[0].submodule_search_locations)
        dummy = types.ModuleType(parent)
        dummy.__path__ = path
        had = sys.modules.get(parent)
        sys.modules[parent] = dummy
    else:
        path = None
    try:
        spec = None
        for finder in (M.BuiltinImporter, M.FrozenImporter, M.PathFinder):
            spec = finder.find_spec(name, path)
            if spec is not None:
                break
        if spec is not None and spec.submodule_search_locations is not None:
            spec.submodule_search_locations = list(spec.submodule_search_locations)
    finally:
        if parent:
            if had is None:
                del sys.modules[parent]
            else:
                sys.modules[parent] = had
    if spec is not None:
        cls, code = kind(name, spec)
        res = (spec, cls, code)
    cache[name] = res
    return res


def kind(name, spec):
    ld = spec.loader
    if ld is None or type(ld).__name__ in ("NamespaceLoader", "_NamespaceLoader"):
        return "NamespacePackage", None
    if ld is M.BuiltinImporter:
        return "BuiltinModule", None
    if isinstance(ld, M.ExtensionFileLoader):
        return "ExtensionModule", None
    if ld is M.FrozenImporter:
        return "FrozenModule", ld.get_code(name)
    try:
        code = ld.get_code(name)
        if code is None:
            return "InvalidModule", None
    except (SyntaxError, ImportError, EOFError, ValueError, TypeError):
        return "InvalidModule", None
    fn = spec.origin
    return ("BytecodeModule" if fn.endswith(".pyc") else "SourceModule"), code


class C11(Check):
    technique = "runtime monitor: class, file, search path and code of observed nodes against the specs of the interpreter's own finders"
    level_note = ("Random search paths (directories, zip files, paths inside zip files, relative, duplicate, missing and non-directory entries) with the same "
                  "names as package, module, extension, bytecode, directory, broken file and built-in at every level; every name is asked from "
                  "importlib's finders without running code, and every node must agree in kind, file, search path, __init__ node and code. "
                  "Files of zip entries are always valid.")
    cases = {"quick": 1200, "thorough": 30000}
    rule = "random search paths with competing files; non-trivial if at least 3 found modules had a competitor; distinct by the found kinds and files"
    minimum = {"nodes": 9000, "shadowed": 2500, "Package": 1500, "NamespacePackage": 300, "ExtensionModule": 800, "BytecodeModule": 400, "InvalidModule": 150,
               "zip": 500, "missing": 2000}

    def contents(self, r, rel, zipped):
        if rel.endswith(".py"):
            if not zipped and r.random() < 0.12:
                return r.choice(BAD_SOURCES)
            return ("X = %r\ndef f(): return %r\n" % (rel, rel)).encode()
        if rel.endswith(".pyc"):
            good = make_pyc("X = %r\n" % rel, rel)
            if not zipped and r.random() < 0.3:
                return r.choice([b"", good[:8], good[:16], good[:-3], b"\0\0\0\0" + good[4:], good[:16] + marshal.dumps(42), good[:4] + b"\x04" + good[5:],
                                 good[:16] + b"\xff" * 20])
            return good
        return b"\x7fELF" + rel.encode()

    def fill(self, r, files, base, level, zipped, names):
        """one directory"""
        for nm in names:
            if r.random() < 0.45:
                continue
            for variant in r.sample(["py", "pyc", "ext", "pkg", "pkg", "dir", "odd"], r.choice([1, 1, 2, 3])):
                b = base + nm
                if variant in ("py", "pyc"):
                    files[b + "." + variant] = None
                elif variant == "ext":
                    if not zipped:
                        for s in r.sample(EXT, r.randint(1, len(EXT))):
                            files[b + s] = None
                elif variant == "pkg":
                    for s in r.sample([".py", ".py", ".pyc"] + ([] if zipped else EXT), r.choice([1, 1, 2, 3])):
                        files[b + "/__init__" + s] = None
                    if level < 2:
                        self.fill(r, files, b + "/", level + 1, zipped, r.sample(SUBS, 3))
                elif variant == "dir":
                    files.setdefault(b + "/readme.txt", None)
                    if level < 2:
                        self.fill(r, files, b + "/", level + 1, zipped, r.sample(SUBS, 3))
                elif not zipped:
                    # directories and files with misleading names
                    files[r.choice([b + ".py/x.txt", b + EXT[0] + "/y", b + "/__init__.py/z", b + ".pyw", b + ".PY", b + ".cpython-311-x86_64-linux-gnu.so", b + ".pyo"])] = None

    def case(self, ctx):
        r = ctx.rng
        tops = r.sample(TOPS, 5)
        entries = []
        all_names = set()
        for i in range(r.randint(1, 4)):
            zipped = r.random() < 0.25
            files = {}
            pre = r.choice(["", "", "lib/", "a/b/"]) if zipped else ""
            self.fill(r, files, "", 0, zipped, tops)
            paths = sorted(files)
            # a path can not be file and directory
            keep = [p for p in paths if not any(q.startswith(p + "/") for q in paths)]
            data = {p: self.contents(r, p, zipped) for p in keep}
            if zipped:
                e = os.path.join(ctx.dir, "z%d.zip" % i)
                with zipfile.ZipFile(e, "w") as zf:
                    dirs = set()
                    for p in keep:
                        parts = (pre + p).split("/")[:-1]
                        for k in range(len(parts)):
                            dirs.add("/".join(parts[:k + 1]) + "/")
                    for d in sorted(dirs):
                        zf.writestr(d, b"")
                    for p in keep:
                        zf.writestr(pre + p, data[p])
                entries.append(os.path.join(e, pre.rstrip("/")) if pre else e)
            else:
                e = os.path.join(ctx.dir, "d%d" % i)
                write_files(ctx, data, sub="d%d" % i, activate=False)
                os.makedirs(e, exist_ok=True)
                entries.append(e)
            for p in keep:
                parts = [x.split(".")[0] for x in p.split("/")]
                for k in range(len(parts)):
                    if parts[k] != "readme":
                        all_names.add(".".join(parts[:k + 1]))
            ctx.note(**{"entry%d" % i: {"path": entries[-1], "files": {p: repr(d)[:200] for p, d in data.items()}}})
        odd = []
        if r.random() < 0.3:
            open(os.path.join(ctx.dir, "plain.txt"), "w").write("no zip")
            odd += [os.path.join(ctx.dir, "nothere"), os.path.join(ctx.dir, "plain.txt"), os.path.join(ctx.dir, "nothere.zip")]
        if r.random() < 0.2:
            odd.append(r.choice(entries) + r.choice(["", "/"]))
        if r.random() < 0.3:
            k = r.randrange(len(entries))
            entries[k] = os.path.relpath(entries[k], ctx.dir)
        if r.random() < 0.1:
            odd.append("")
        path = entries + odd if r.random() < 0.5 else odd + entries
        if r.random() < 0.5:
            r.shuffle(path)
        sys.path[:] = path + ctx.stdlib
        importlib.invalidate_caches()
        sys.path_importer_cache.clear()
        names = sorted(all_names | set(tops))
        names = [n for n in names if ".__init__." not in n and not n.startswith(".") and ".." not in n and not n.endswith(".")]
        names += [n + "." + r.choice(SUBS) for n in r.sample(names, min(3, len(names))) if not n.endswith(".__init__")]
        if len(names) > 14:
            names = r.sample(names, 14)
        ctx.note(sys_path=path, names=names)
        cache = {}
        exp = {}
        for n in names:
            while n:
                exp[n] = expected(n, cache)
                n = n.rpartition(".")[0]
        # (the standard library's own modules lead far)
        far = {n for n, e in exp.items() if e and e[0].origin and any(e[0].origin.startswith(p + "/") for p in ctx.stdlib) and n != "this"}
        names = [n for n in names if n.partition(".")[0] not in far]
        exp = {n: e for n, e in exp.items() if n.partition(".")[0] not in far}
        for n in [n for n in sys.modules if n in exp and n not in sys.builtin_module_names]:
            del sys.modules[n]
        gr = new_graph()
        r.shuffle(names)
        for n in names:
            gr.add_module(n)
        comp = 0
        sig = []
        for n, e in sorted(exp.items()):
            node = gr.find_node(n)
            ctx.check(node is not None, "no node for %s" % n)
            cls = self.compare(ctx, n, node, e)
            ctx.count(cls)
            ctx.count("nodes")
            sig.append((n, cls, e[0].origin and os.path.basename(e[0].origin) if e else None))
            if e is not None and e[0].origin and ".zip" in e[0].origin:
                ctx.count("zip")
            if e is not None:
                k = sum(os.path.exists(os.path.join(p, n.replace(".", "/")) + s) for p in path for s in ("", ".py", ".pyc", *EXT))
                if k > 1:
                    comp += 1
        ctx.count("shadowed", comp)
        ctx.nontrivial(comp >= 3)
        ctx.sig(sig)
        ctx.sample({"sys.path": path, "nodes": sig})

    def compare(self, ctx, n, node, e):
        got = type(node).__name__
        if e is None:
            ctx.check(got == "MissingModule", "%s does not exist, the node is a %s" % (n, got))
            ctx.count("missing")
            return got
        spec, cls, code = e
        pkg = spec.submodule_search_locations is not None and cls != "NamespacePackage"
        want = cls if not pkg else "FrozenPackage" if cls == "FrozenModule" else "Package"
        ctx.check(got == want, "%s is a %s, the import system has a %s at %s" % (n, got, want, spec.origin))
        ctx.check(node.name == n, "the node of %s is called %s" % (n, node.name))
        frozen = cls in ("FrozenModule", "BuiltinModule", "NamespacePackage")
        fn = None if frozen else spec.origin
        if pkg:
            init = node.init_module
            ctx.check(type(init).__name__ == cls, "the __init__ of %s is a %s, the import system has a %s at %s" % (n, type(init).__name__, cls, fn))
            ctx.check(str(init.filename) == str(fn), "file of the __init__ of %s: %s, expected %s" % (n, init.filename, fn))
            fn = fn and os.path.dirname(fn)
            got_code = init.code
        elif cls != "NamespacePackage":
            got_code = node.code
        ctx.check(str(node.filename) == str(fn), "file of %s: %s, expected %s" % (n, node.filename, fn))
        if spec.submodule_search_locations is not None:
            sp = [str(p) for p in node.search_path]
            ctx.check(sp == [os.path.normpath(p) if p else "." for p in spec.submodule_search_locations] or sp == list(spec.submodule_search_locations),
                      "search path of %s: %s, expected %s" % (n, sp, spec.submodule_search_locations))
        if cls != "NamespacePackage":
            ctx.check(got_code == code, "code of %s: %s, expected %s" % (n, got_code and (got_code.co_filename, got_code.co_consts), code and (code.co_filename, code.co_consts)))
            if cls == "SourceModule" and os.path.isfile(spec.origin):
                with open(spec.origin, "rb") as fp:
                    ctx.check(got_code == compile(fp.read(), spec.origin, "exec", dont_inherit=True), "the code of %s is not that of its file" % n)
        return want

    # --- fixed cases

    def fixed(self, ctx, names):
        cache = {}
        exp = {n: expected(n, cache) for n in names}
        gr = new_graph()
        for n in names:
            gr.add_module(n)
        for n in names:
            self.compare(ctx, n, gr.find_node(n), exp[n])
        return gr

    def probe_frozen_and_builtin(self, ctx):
        # these win over files
        write_files(ctx, {n + ".py": "import nope" for n in ("sys", "errno", "__hello__", "zipimport", "_imp", "builtins")} | {"__phello__/__init__.py": "", "__phello__/spam.py": "", "__phello__/other.py": ""})
        gr = self.fixed(ctx, ["sys", "errno", "__hello__", "__phello__", "__phello__.spam", "__phello__.other", "__phello__.ham", "builtins", "zipimport", "_imp"])
        ctx.check(type(gr.find_node("__phello__")) is mg.FrozenPackage and gr.find_node("__phello__").filename is None, "__phello__")
        ctx.check(type(gr.find_node("sys")) is mg.BuiltinModule, "sys")
        ctx.check(gr.find_node("nope") is None, "a shadowed file was read")

    def probe_precedence(self, ctx):
        pyc = make_pyc("X = 1", "x")
        every = {"%s.py": b"", "%s.pyc": pyc, "%s/__init__.py": b"", "%s/__init__.pyc": pyc, "%s/readme": b""}
        for s in EXT:
            every["%s" + s] = b"elf"
            every["%s/__init__" + s] = b"elf"
        order = ["%s/__init__" + s for s in EXT + [".py", ".pyc"]] + ["%s" + s for s in EXT + [".py", ".pyc"]] + ["%s/readme"]
        for i in range(len(order)):
            nm = "m%d" % i
            write_files(ctx, {k % nm: every[k] for k in order[i:]}, activate=i == len(order) - 1)
        gr = self.fixed(ctx, ["m%d" % i for i in range(len(order))])
        for i, k in enumerate(order):
            node = gr.find_node("m%d" % i)
            fn = node.init_module.filename if isinstance(node, mg.Package) else node.filename
            ctx.check(str(fn).endswith(k % ("m%d" % i)) or i == len(order) - 1, "m%d: %s wins, expected %s" % (i, fn, k))
        ctx.check(type(node) is mg.NamespacePackage, "a directory")

    def probe_entries_in_order(self, ctx):
        a = write_files(ctx, {"m.pyc": make_pyc("", "m"), "p/x.txt": "", "q.py": "", "n/a/x.py": "", "n/b.py": ""}, sub="a", activate=False)
        b = write_files(ctx, {"m.py": "", "m/__init__.py": "", "p/__init__.py": "", "q/__init__.py": "", "n/a/y.py": "", "n/c/__init__.py": ""}, sub="b", activate=False)
        c = write_files(ctx, {"m.py": "", "p.py": "", "n/a/z.py": "", "n/d.py": ""}, sub="c", activate=False)
        sys.path[:] = [a, b, c] + ctx.stdlib
        gr = self.fixed(ctx, ["m", "p", "q", "n", "n.a", "n.a.x", "n.a.y", "n.a.z", "n.b", "n.c", "n.d"])
        ctx.check([type(gr.find_node(n)).__name__ for n in "mpqn"] == ["BytecodeModule", "Package", "SourceModule", "NamespacePackage"], "kinds")
        ctx.check([str(p) for p in gr.find_node("n.a").search_path] == [a + "/n/a", b + "/n/a", c + "/n/a"], "search path of n.a")

    def probe_invalid(self, ctx):
        files = {}
        for i, b in enumerate(BAD_SOURCES):
            files["b%d.py" % i] = b
            files["p%d/__init__.py" % i] = b
            files["p%d/s.py" % i] = "import errno"
        good = make_pyc("X = 1", "x")
        for i, b in enumerate([b"", good[:8], good[:-3], b"abcd" + good[4:], good[:16] + marshal.dumps((1, 2)), good[:4] + b"\x04\0\0\0" + good[8:]]):
            files["c%d.pyc" % i] = b
        write_files(ctx, files)
        n = len(BAD_SOURCES)
        gr = self.fixed(ctx, ["b%d" % i for i in range(n)] + ["p%d" % i for i in range(n)] + ["c%d" % i for i in range(6)])
        for i in range(n):
            ctx.check(type(gr.find_node("b%d" % i)) is mg.InvalidModule, "b%d" % i)
            ctx.check(type(gr.find_node("p%d" % i)) is mg.Package and type(gr.find_node("p%d" % i).init_module) is mg.InvalidModule, "p%d" % i)

    def probe_valid_encodings(self, ctx):
        texts = {"e1": "# -*- coding: latin-1 -*-\nx = '\u00e9'\n".encode("latin-1"), "e2": b"\xef\xbb\xbfx = 1\n", "e3": "# vim: set fileencoding=cp1251 :\nx = '\u0416'".encode("cp1251"),
                 "e4": b"x = 1\r\ny = 2\r\n", "e5": b"x = 1\ry = 2\r", "e6": b"x = 1\n\x0c\ny = 2", "e7": b"", "e8": b"#", "e9": b"#!/usr/bin/x\n# coding=utf-16-not\n"[:14],
                 "e10": "x = 'ä'\n".encode(), "e11": b"x = 1\\\n + 2", "e12": b"\xef\xbb\xbf# coding: utf-8\nx = 1"}
        write_files(ctx, {k + ".py": v for k, v in texts.items()})
        gr = self.fixed(ctx, sorted(texts))
        for n in texts:
            ctx.check(type(gr.find_node(n)) is mg.SourceModule, "%s is a %s" % (n, type(gr.find_node(n))))

    def probe_zip(self, ctx):
        z = os.path.join(ctx.dir, "lib.zip")
        with zipfile.ZipFile(z, "w") as zf:
            for n, d in {"m.py": "x = 1", "m.pyc": make_pyc("x = 2", "m"), "p/__init__.py": "", "p/s.py": "", "p/q/__init__.pyc": make_pyc("", "p"), "in/side/k.py": "y = 1", "in/side/pk/__init__.py": "", "ns/a.py": ""}.items():
                zf.writestr(n, d)
        sys.path[:] = [z + "/in/side", z] + ctx.stdlib
        importlib.invalidate_caches()
        gr = self.fixed(ctx, ["m", "p", "p.s", "p.q", "k", "pk"])
        ctx.check(str(gr.find_node("p.s").filename) == z + "/p/s.py", "file in a zip file")
        ctx.check(type(gr.find_node("p.q").init_module) is mg.BytecodeModule, "bytecode in a zip file")

    def probe_script(self, ctx):
        d = write_files(ctx, {"my script": "# coding: latin-1\nX = 1\nimport errno\n".encode("latin-1")})
        gr = new_graph()
        fn = d + "/my script"
        s = gr.add_script(fn)
        ctx.check(type(s) is mg.Script and str(s.filename) == fn and s.name == fn, "script node: %r %s" % (s, s.filename))
        ctx.check(s.code == compile(open(fn, "rb").read(), fn, "exec", dont_inherit=True), "code of the script")

    def probe_init_by_name(self, ctx):
        # 'import p.__init__' is a module besides the package
        write_files(ctx, {"p%d/__init__%s" % (i, s): b"" if s != ".pyc" else make_pyc("", "x") for i, s in enumerate(EXT + [".py", ".pyc"])})
        gr = self.fixed(ctx, ["p%d.__init__" % i for i in range(5)] + ["p%d" % i for i in range(5)])
        ctx.check(type(gr.find_node("p0.__init__")) is mg.ExtensionModule, "p0.__init__")

    def probe_missing_stays_missing(self, ctx):
        write_files(ctx, {"m.py": "", "p/__init__.py": "", "p/m.py": "", "a/x.txt": "", "MOD.py": "", "n.Py": ""})
        gr = self.fixed(ctx, ["mod", "M", "P", "p.M", "m.x", "p.m.x", "p.n", "a.x", "a.y.z", "n"])
        for n in ("mod", "M", "P", "p.M", "m.x", "p.m.x", "p.n", "a.x", "a.y.z", "n"):
            ctx.check(type(gr.find_node(n)) is mg.MissingModule, "%s is a %s" % (n, type(gr.find_node(n))))


CHECK = C11()
