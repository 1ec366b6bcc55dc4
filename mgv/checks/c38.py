"""Names that the import hooks of setuptools redirect."""
import importlib
import os
import sys

from ..build import isolated, new_graph, write_files
from ..check import Check
from ..snap import observe

EXCLUDED = sorted(sys.stdlib_module_names)
# What setuptools (before 71) and pkg_resources had in their extern/__init__.py
VENDOR = '''
import importlib.util
import sys


class VendorImporter:
    """
    A PEP 302 meta path importer for finding optionally-vendored
    or otherwise naturally-installed packages from root_name.
    """

    def __init__(self, root_name, vendored_names=(), vendor_pkg=None):
        self.root_name = root_name
        self.vendored_names = set(vendored_names)
        self.vendor_pkg = vendor_pkg or root_name.replace('extern', '_vendor')

    @property
    def search_path(self):
        """
        Search first the vendor package then as a natural package.
        """
        yield self.vendor_pkg + '.'
        yield ''

    def _module_matches_namespace(self, fullname):
        """Figure out if the target module is vendored."""
        root, base, target = fullname.partition(self.root_name + '.')
        return not root and any(map(target.startswith, self.vendored_names))

    def load_module(self, fullname):
        """
        Iterate over the search path to locate and load fullname.
        """
        root, base, target = fullname.partition(self.root_name + '.')
        for prefix in self.search_path:
            try:
                extant = prefix + target
                __import__(extant)
                mod = sys.modules[extant]
                sys.modules[fullname] = mod
                return mod
            except ImportError:
                pass
        else:
            raise ImportError(
                "The '{target}' package is required; "
                "normally this is bundled with this package so if you get "
                "this warning, consult the packager of your "
                "distribution.".format(**locals())
            )

    def create_module(self, spec):
        return self.load_module(spec.name)

    def exec_module(self, module):
        pass

    def find_spec(self, fullname, path=None, target=None):
        """Return a module spec for vendored names."""
        return (
            importlib.util.spec_from_loader(fullname, self)
            if self._module_matches_namespace(fullname)
            else None
        )

    def install(self):
        """
        Install this importer into sys.meta_path if not already present.
        """
        if self not in sys.meta_path:
            sys.meta_path.append(self)


names = %s
VendorImporter(__name__, names%s).install()
'''
HACK = '''
import sys


class DistutilsMetaFinder:
    def find_spec(self, fullname, path, target=None):
        if path is not None and not fullname.startswith('test.'):
            return None

        method_name = 'spec_for_{fullname}'.format(**locals())
        method = getattr(self, method_name, lambda: None)
        return method()

    def spec_for_distutils(self):
        import importlib
        import importlib.abc
        import importlib.util

        try:
            mod = importlib.import_module('setuptools._distutils')
        except Exception:
            return None

        class DistutilsLoader(importlib.abc.Loader):
            def create_module(self, spec):
                mod.__name__ = 'distutils'
                return mod

            def exec_module(self, module):
                pass

        return importlib.util.spec_from_loader(
            'distutils', DistutilsLoader(), origin=mod.__file__
        )


DISTUTILS_FINDER = DistutilsMetaFinder()
'''
NAMES = ["packaging", "ordered_set", "jaraco", "zeta", "a", "typing_ext", "more_it"]


def loaded(names, markers):
    """In a child: import names one by one, what is behind them?"""
    res = {}
    for n in names:
        try:
            importlib.import_module(n)
        except ImportError:
            res[n] = None
        else:
            m = sys.modules[n]
            res[n] = os.path.normpath(getattr(m, "__file__", None) or "<ns>")
    return res, sorted(n for n in sys.modules if n in markers)


class C38(Check):
    technique = "runtime monitor: observed graphs of names redirected by import hooks against what the interpreter loads through the same hooks"
    level_note = ("Random worlds with the extern packages of setuptools and pkg_resources (a copy of the importer they have), names that are vendored, "
                  "installed, both or neither, as modules, packages or zip members with submodules, and the distutils replacement of setuptools; all import forms, "
                  "orders, and some names imported before; the files behind every name and the modules reachable from it must be those of a real run "
                  "in another process. The standard library is excluded.")
    cases = {"quick": 700, "thorough": 20000}
    rule = "random worlds; non-trivial when at least two redirected names are used; distinct by layout and import lists"
    minimum = {"redirected": 900, "vendored": 300, "fallback": 200, "neither": 100, "submodules": 200, "distutils": 40, "preloaded": 40, "direct": 100}

    def layout(self, r):
        """files, names per root, markers; every module imports a marker of its own"""
        files, markers, roots = {}, {}, {}

        def mod(name, subs=(), pkg=False):
            k = "mark_%d" % len(markers)
            markers[k] = name
            files[k + ".py"] = ""
            p = name.replace(".", "/")
            text = r.choice(["import %s\n", "try:\n    import %s\nexcept ImportError:\n    pass\n", "from %s import *\n"]) % k
            if pkg:
                files[p + "/__init__.py"] = text
                for s in subs:
                    mod(name + "." + s, r.choice([(), ("deep",)]) if s != "deep" and r.random() < 0.3 else (), pkg=s == "inner")
            else:
                files[p + ".py"] = text

        owners = [r.choice(["setuptools", "pkg_resources"])]
        if r.random() < 0.3:
            owners = ["setuptools", "pkg_resources"]
        names = r.sample(NAMES, r.randint(2, 5))
        where = {}
        shared = r.random() < 0.3
        for o in owners:
            vend = "setuptools._vendor" if shared and len(owners) == 2 else o + "._vendor"
            roots[o + ".extern"] = vend
            arg = "" if vend == o + "._vendor" and r.random() < 0.5 else ", %r" % vend
            files[o + "/__init__.py"] = r.choice(["", "x = 1\n"])
            files[o + "/extern/__init__.py"] = VENDOR % (tuple(sorted(names)), arg)
        for n in names:
            kind = r.choice(["vendored", "vendored", "both", "top", "top", "neither"])
            where[n] = kind
            pkg = r.random() < 0.6
            subs = r.sample(["sub", "util", "inner"], r.randint(0, 2))
            if kind in ("vendored", "both"):
                for v in sorted(set(roots.values())):
                    mod(v + "." + n, subs, pkg)
            if kind in ("top", "both"):
                mod(n, r.sample(["sub", "util", "inner"], r.randint(0, 2)) if kind == "both" else subs, pkg)
        for v in sorted(set(roots.values())):
            vf = v.replace(".", "/") + "/__init__.py"
            if r.random() < 0.75 or any(f.startswith(v.replace(".", "/") + "/") for f in files):
                files[vf] = ""
        return files, markers, roots, where

    def case(self, ctx):
        if ctx.rng.random() < 0.12:
            return self.distutils(ctx)
        r = ctx.rng
        files, markers, roots, where = self.layout(r)
        used = []
        mods = {}
        for o in sorted(roots):
            for n in sorted(where):
                if r.random() < 0.25:
                    continue
                full = o + "." + n
                base = roots[o].replace(".", "/") + "/" + n
                if where[n] == "top":
                    base = n
                subs = sorted({f[len(base) + 1:].replace("/__init__.py", "").replace(".py", "").replace("/", ".") for f in files
                               if f.startswith(base + "/") and f != base + "/__init__.py"})
                m = "zz_%d" % len(mods)
                todo = [full]
                forms = ["import %s\n" % full, "from %s import %s\n" % (o, n), "from %s import %s as q\n" % (o, n), "from %s import attr\n" % full,
                         "def f():\n    import %s as x\n" % full, "try:\n    from %s import %s\nexcept ImportError:\n    pass\n" % (o, n)]
                if subs and r.random() < 0.6:
                    s = r.choice(subs)
                    forms = ["import %s.%s\n" % (full, s), "from %s.%s import attr\n" % (full, s)]
                    if "." not in s:
                        forms.append("from %s import %s\n" % (full, s))
                    todo += [full + "." + s.rpartition(".")[0]] if "." in s else []
                    todo.append(full + "." + s)
                    ctx.count("submodules")
                mods[m] = r.choice(forms)
                used.append((m, n, o, todo))
        if not used:
            return
        allfiles = dict(files)
        allfiles.update({m + ".py": s for m, s in mods.items()})
        write_files(ctx, allfiles)
        wanted = [x for _, _, _, t in used for x in t]
        real, _ = isolated(loaded, wanted, ())
        per = {m: isolated(loaded, t, sorted(markers))[1] for m, n, o, t in used}
        pre = [t[0] for _, _, _, t in used if r.random() < 0.15]
        if pre:
            isolated_pre = sorted(pre)
            for n in isolated_pre:
                try:
                    importlib.import_module(n)
                except ImportError:
                    pass
            ctx.count("preloaded", len(pre))
            importlib.invalidate_caches()
        ctx.note(where=where, roots=roots, modules=mods, preloaded=pre, real=real)
        direct_real = isolated(loaded, sorted(where) + sorted(v + "." + n for n in where for v in set(roots.values())), ())[0]
        gr = new_graph(excludes=EXCLUDED)
        order = sorted(mods)
        r.shuffle(order)
        direct = []
        if r.random() < 0.4:
            # the same modules by their own names
            direct = r.sample(sorted(where), r.randint(1, 2)) + r.sample(sorted(v + "." + n for n in where for v in set(roots.values())), r.randint(0, 1))
            for n in direct:
                order.insert(r.randint(0, len(order)), n)
            ctx.count("direct", len(direct))
        for m in order:
            gr.add_module(m)
        ob = observe(gr, info=True)
        out = {}
        for a, b in ob["edges"]:
            out.setdefault(a, set()).add(b)
        ctx.note(nodes={n: i["cls"] if isinstance(i, dict) else i for n, i in ob["nodes"].items()}, edges=sorted(ob["edges"])[:200])
        ctx.note(order=order)
        for n in direct:
            self.compare(ctx, gr, n, n, n, direct_real[n], out)
        for m, n, o, todo in used:
            ctx.count("redirected")
            for full in todo:
                self.compare(ctx, gr, m, todo[0], full, real[full], out)
            kind = where[n]
            ctx.count({"vendored": "vendored", "both": "vendored", "top": "fallback", "neither": "neither"}[kind])
            # what is behind the import, by the markers of the modules
            if real[todo[-1]] is not None:
                got = sorted(x for x in self.reach(out, m) if x in markers)
                ctx.check(got == per[m], "%s reaches the modules %s, a run of it loads %s" % (
                    mods[m].strip(), [markers[x] for x in got], [markers[x] for x in per[m]]))
        ctx.nontrivial(len(used) >= 2)
        ctx.sig(sorted(files), sorted(mods.values()), sorted(pre))
        ctx.sample({"where": where, "modules": mods, "real": {k: v and os.path.relpath(v, ctx.dir) for k, v in real.items()}})

    @staticmethod
    def reach(out, start):
        seen, todo = {start}, [start]
        while todo:
            for b in out.get(todo.pop(), ()):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return seen

    def compare(self, ctx, gr, m, first, full, real, out):
        node = gr.find_node(full)
        if node is None and full != first:
            # names imported from an alias are submodules of the module behind it
            for t in out.get(m, ()):
                if t.rpartition(".")[2] == full.rpartition(".")[2]:
                    node = gr.find_node(t)
        ctx.check(node is not None, "%s is not in the graph" % full)
        seen = []
        n = node
        while type(n).__name__ == "AliasNode" and len(seen) < 9:
            seen.append(n.identifier)
            t = n.actual_module
            ctx.check(t in out.get(n.identifier, ()), "no edge from alias %s to %s" % (n.identifier, t))
            n = gr.find_node(t)
        cls = type(n).__name__
        ctx.note(name=full)
        if real is None:
            ctx.check(cls == "MissingModule", "%s cannot be imported but leads to %s %s" % (full, cls, n and n.identifier))
            return
        ctx.check(cls != "MissingModule", "%s is %s %s, a run loads %s" % (full, cls, n and n.identifier, real))
        fn = n.init_module.filename if cls == "Package" else n.filename
        ctx.check(fn is not None and os.path.normpath(str(fn)) == real, "%s leads to %s (%s), a run loads %s" % (full, n.identifier, fn, real))

    # --- distutils

    def distutils(self, ctx):
        r = ctx.rng
        subs = r.sample(["core", "log", "util", "command"], r.randint(1, 4))
        files = {"_distutils_hack/__init__.py": HACK, "mark_0.py": "", "mark_1.py": ""}
        have = r.random() < 0.85
        std = r.random() < 0.4
        for base, ok, mark in (("setuptools/_distutils", have, "mark_0"), ("distutils", std, "mark_1")):
            if ok:
                if base.startswith("setuptools"):
                    files["setuptools/__init__.py"] = ""
                files[base + "/__init__.py"] = r.choice(["import %s\n", "from %s import *\n"]) % mark
                for s in subs:
                    if s == "command":
                        files[base + "/command/__init__.py"] = ""
                        files[base + "/command/build.py"] = "import %s\n" % mark
                    else:
                        files["%s/%s.py" % (base, s)] = "import %s\n" % mark
        names, mods = [], {}
        for s in subs:
            full = "distutils." + (s if s != "command" else r.choice(["command", "command.build"]))
            forms = ["import distutils\n", "import distutils as d\n"]
            t = ["distutils"]
            if r.random() < 0.7:
                p, _, last = full.rpartition(".")
                forms = ["import %s\n" % full, "from %s import %s\n" % (p, last), "from %s import attr\n" % full, "def f():\n    import %s\n" % full]
                t = [".".join(full.split(".")[: i + 1]) for i in range(full.count(".") + 1)]
            mods["zz_%d" % len(mods)] = r.choice(forms)
            names.append(t)
        files.update({m + ".py": s for m, s in mods.items()})
        write_files(ctx, files)
        ctx.note(modules=mods)
        ns = {}
        exec(HACK, {"__name__": "_distutils_hack"}, ns)
        # (the class of the loader has to say that it is from _distutils_hack)
        hack = importlib.import_module("_distutils_hack")
        sys.meta_path.insert(0, hack.DISTUTILS_FINDER)
        real, _ = isolated(loaded, [x for t in names for x in t], ())
        gr = new_graph(excludes=[x for x in EXCLUDED if x != "distutils"])
        order = sorted(mods)
        r.shuffle(order)
        for m in order:
            gr.add_module(m)
        ob = observe(gr)
        out = {}
        for a, b in ob["edges"]:
            out.setdefault(a, set()).add(b)
        ctx.note(nodes=ob["nodes"], edges=sorted(ob["edges"]), real=real)
        for m, t in zip(sorted(mods), names):
            for full in t:
                self.compare(ctx, gr, m, t[0], full, real[full], out)
        got = sorted(x for x in ob["nodes"] if x.startswith("mark_"))
        want = ["mark_0"] if have else ["mark_1"] if std else []
        ctx.check(got == want, "markers %s, expected %s" % (got, want))
        ctx.count("distutils")
        ctx.nontrivial(True)
        ctx.sig("distutils", sorted(files), sorted(mods.values()))


CHECK = C38()
