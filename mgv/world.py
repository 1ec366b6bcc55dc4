"""
Worlds: a set of modules described as data, and their files on disk.
"""
import importlib.util
import marshal
import os
import struct
import sys
import zipfile

from .stmts import Style, bound_names, imports_of

EXT = [".cpython-312-x86_64-linux-gnu.so", ".abi3.so", ".so"]
import importlib.machinery as _m

if EXT[0] not in _m.EXTENSION_SUFFIXES:
    EXT = list(_m.EXTENSION_SUFFIXES)

# Small modules outside the world that have no dependencies of their own
EXTERNAL = {
    "errno": "BuiltinModule", "itertools": "BuiltinModule", "atexit": "BuiltinModule",
    "keyword": "SourceModule", "__future__": "SourceModule", "resource": "ExtensionModule",
}
EXTERNAL_GLOBALS = {"keyword": {"iskeyword", "kwlist"}, "__future__": {"annotations"}}
BAD_SOURCES = [
    b"def f(:\n", b"import \n", b"x = 'abc\n", b"if 1:\nimport errno\n", b"\0", b"# -*- coding: nosuchcoding -*-\nimport errno\n",
    b"import errno\nx = '\xff\xfe'\n", b"print 'hello'\n", b"return 1\n", b"    import errno\nimport atexit\n",
    b"\xef\xbb\xbf# -*- coding: latin-1 -*-\nimport errno\n", b"import errno\n\0\n", b"async def f():\n  yield from x\n", b"nonlocal x\n",
    b"\xff\xfei\0m\0p\0", b"from . import (a, b\n",
]


def make_pyc(source, filename):
    code = compile(source, filename, "exec", dont_inherit=True)
    return importlib.util.MAGIC_NUMBER + struct.pack("<III", 0, 0, len(source)) + marshal.dumps(code)


class Mod:
    """
    kind: source, bytecode, ext, invalid (for packages: of the __init__), nspkg
    """

    def __init__(self, name, kind="source", pkg=False, tree=None, entry=0, data=None):
        self.name, self.kind, self.pkg, self.tree, self.entry = name, kind, pkg, tree or [], entry
        self.data = data      # literal file contents
        self.style = None
        self.tail = []        # statements that do not count (e.g. raise)
        self.header = []
        self.extsuffix = EXT[0]
        self.text = None
        self.suffix = None    # another file name suffix than the usual one for the kind

    @property
    def is_pkg(self):
        return self.pkg or self.kind == "nspkg"

    def records(self):
        if self.kind in ("source", "bytecode"):
            return list(imports_of(self.tree))
        return []

    def static_globals(self):
        if self.kind in ("source", "bytecode"):
            return bound_names(self.tree)
        return set()

    def relpath(self):
        base = self.name.replace(".", "/")
        suffix = self.suffix or {"source": ".py", "invalid": ".py", "bytecode": ".pyc", "ext": self.extsuffix}[self.kind]
        return base + ("/__init__" if self.pkg else "") + suffix


class World:
    def __init__(self, rng, nentries=1, zips=()):
        self.rng = rng
        self.mods = {}
        self.scripts = {}     # relative file name -> Mod
        self.entries = ["d%d" % i if i not in zips else "z%d.zip" % i for i in range(nentries)]
        self.extra = []       # (entry index, relpath, data)
        self.weird = 1.0
        self.root = None

    def add(self, mod):
        assert mod.name not in self.mods, mod.name
        self.mods[mod.name] = mod
        return mod

    def add_script(self, fname, tree):
        m = Mod(fname, "source", False, tree)
        self.scripts[fname] = m
        return m

    def children(self, name):
        return [m for m in self.mods if m.rpartition(".")[0] == name]

    def files(self):
        """[(entry, relpath, data)]; data None: a directory"""
        out = []
        for m in self.mods.values():
            if m.kind == "nspkg":
                out.append((m.entry, m.name.replace(".", "/"), None))
                continue
            rel = m.relpath()
            if m.data is not None:
                data = m.data
            elif m.kind == "ext":
                data = b"\x7fELF not really"
            elif m.kind == "invalid":
                data = BAD_SOURCES[sum(map(ord, m.name)) % len(BAD_SOURCES)]
            else:
                data = self.source(m)
                if m.kind == "bytecode":
                    data = make_pyc(data, rel)
            out.append((m.entry, rel, data))
        out.extend(self.extra)
        return out

    def source(self, m):
        if m.text is None:
            if m.style is None:
                m.style = Style(self.rng, self.weird)
            m.text = m.style.render(m.tree + m.tail, m.header)
        return m.text

    def write(self, root):
        self.root = root
        zips = {}
        for e in self.entries:
            p = os.path.join(root, e)
            if e.endswith(".zip"):
                zips[e] = {}
            else:
                os.makedirs(p, exist_ok=True)
        for entry, rel, data in self.files():
            e = self.entries[entry]
            if e in zips:
                zips[e][rel] = data
                continue
            p = os.path.join(root, e, rel)
            if data is None:
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fp:
                    fp.write(data)
        for e, content in zips.items():
            with zipfile.ZipFile(os.path.join(root, e), "w") as zf:
                dirs = set()
                for rel, data in content.items():
                    d = os.path.dirname(rel)
                    if data is None:
                        d = rel
                    while d:
                        if d not in dirs:
                            dirs.add(d)
                        d = os.path.dirname(d)
                for d in sorted(dirs):
                    zf.writestr(d + "/", b"")
                for rel, data in content.items():
                    if data is not None:
                        zf.writestr(rel, data)
        for fname, m in self.scripts.items():
            p = os.path.join(root, fname)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fp:
                fp.write(self.source(m))

    def path(self):
        return [os.path.join(self.root, e) for e in self.entries]

    def script_path(self, fname):
        return os.path.join(self.root, fname)

    def dump(self):
        """All files as text, for replays and samples."""
        res = {}
        for entry, rel, data in self.files():
            res[self.entries[entry] + "/" + rel] = (
                "<dir>" if data is None else data[:3000].decode("utf-8", "backslashreplace"))
        for f, m in self.scripts.items():
            res[f] = self.source(m)[:3000].decode("utf-8", "backslashreplace")
        return res
