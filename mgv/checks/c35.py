"""Legacy namespace packages and six.moves."""
import importlib
import importlib.machinery
import os
import sys

import modulegraph2 as mg

from ..build import isolated, new_graph, write_files
from ..check import Check
from ..snap import observe

DEFAULT = (False, True, False, None)
STDLIB_TOPS = sorted(sys.stdlib_module_names)
with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "data", "six.py.txt"), encoding="utf-8") as _fp:
    SIX = _fp.read()

DECLARE = {
    "pkgutil": ["__path__ = __import__('pkgutil').extend_path(__path__, __name__)\n",
                "# namespace\n__path__ = __import__(\n    'pkgutil'\n).extend_path(__path__, __name__)\n",
                "'''doc'''\n\n__path__ = __import__('pkgutil').extend_path(__path__, __name__)  # noqa\nx = 1\n",
                "import errno\n__path__ = __import__('pkgutil').extend_path(__path__, __name__)\n"],
    "pkg_resources": ["__import__('pkg_resources').declare_namespace(__name__)\n",
                      "try:\n    __import__('pkg_resources').declare_namespace(__name__)\nexcept ImportError:\n    pass\n",
                      "try:\n    __import__('pkg_resources').declare_namespace(__name__)\nexcept ImportError:\n"
                      "    __path__ = __import__('pkgutil').extend_path(__path__, __name__)\n"],
    None: ["", "x = 1\n", "import errno\n", "# __import__('pkgutil')\n", "y = '__import__'\nz = 'pkgutil'\n"],
}
FAKE = """import pkgutil, sys
def declare_namespace(name):
    m = sys.modules[name]
    m.__path__ = pkgutil.extend_path(m.__path__, name)
"""


def exists(name):
    """Without importing the parents."""
    path, parts = None, name.split(".")
    if name in sys.builtin_module_names:
        return True
    for i in range(len(parts)):
        spec = importlib.machinery.PathFinder.find_spec(".".join(parts[: i + 1]), path)
        if spec is None:
            return False
        path = spec.submodule_search_locations
    return True


def others(tops, targets):
    """Modules in the packages that none of the targets needs (to save time)."""
    res = []
    for t in tops:
        spec = importlib.machinery.PathFinder.find_spec(t)
        for d in (spec.submodule_search_locations or ()) if spec is not None else ():
            for f in os.listdir(d):
                n = t + "." + f.partition(".")[0]
                if "__" not in f and not any(x == n or x.startswith(n + ".") for x in targets):
                    res.append(n)
    return sorted(set(res))


class C35(Check):
    technique = "runtime monitor: observed graphs against the portions on disk and against the table of names inside the real six module"
    level_note = ("Random splits of namespace packages declared with pkgutil or pkg_resources (a stand-in that does what the original does) over up to "
                  "4 search path entries, with nesting, shadowing, undeclared packages and failing declarations; every name of six 1.17 "
                  "in every import form, also vendored, with the expected target read from six itself. Other standard library modules "
                  "are excluded to bound the time, so only the lookup of the names is checked, not what lies behind them.")
    cases = {"quick": 640, "thorough": 16000}
    rule = "random layouts and import lists; non-trivial when at least two portions or two moved names are used; distinct by layout, names and forms"
    minimum = {"portions": 400, "declared": 180, "undeclared": 30, "six_names": 900, "six_attributes": 100, "vendored": 60, "shadowed": 30}

    def case(self, ctx):
        if ctx.rng.random() < 0.5:
            self.namespace(ctx)
        else:
            self.six(ctx)

    # --- namespace packages

    def namespace(self, ctx):
        r = ctx.rng
        n = r.randint(1, 4)
        kind = r.choice(["pkgutil", "pkgutil", "pkg_resources", "pkg_resources", None])
        top = r.choice(["ns", "zope_", "n\u00e4", "backports_x"])
        depth = r.choice([1, 1, 1, 2])
        pkgs = [top] if depth == 1 else [top, top + "." + r.choice(["sub", "ext", top])]
        files = {}
        kinds = {}
        portions = {p: [] for p in pkgs}
        mods = {}
        shadowed = 0
        for i in range(n):
            e = "e%d" % i
            deep = r.random() < 0.7
            for p in pkgs[: 2 if deep else 1]:
                d = e + "/" + p.replace(".", "/")
                portions[p].append(i)
                k = kind
                if not any(x == p for x in kinds):
                    if p != top and r.random() < 0.2:
                        k = r.choice(list(DECLARE))
                    kinds[p] = k
                files[d + "/__init__.py"] = r.choice(DECLARE[kinds[p]])
                for _ in range(r.randint(0, 3)):
                    m = r.choice(["a", "b", "c", "mod%d" % i, "util"])
                    sub = r.random() < 0.3
                    if any(x.startswith(d + "/" + m + "/") or x == d + "/" + m + ".py" for x in files):
                        continue
                    files[d + "/" + m + ("/__init__.py" if sub else ".py")] = "import errno\n"
                    name = p + "." + m
                    if name in mods:
                        shadowed += 1
                    mods.setdefault(name, []).append((i, d + "/" + m + ("" if sub else ".py"), sub))
        with_resources = kind != "pkg_resources" or r.random() < 0.9
        if with_resources:
            files["e%d/pkg_resources.py" % r.randrange(n)] = FAKE
        body = []
        names = sorted(mods)
        absent = [p + ".nothere" for p in pkgs if kinds.get(p) is not None or portions[p]]
        for m in names + absent:
            p, _, t = m.rpartition(".")
            body.append(r.choice(["import %s\n" % m, "from %s import %s\n" % (p, t), "import %s as x%d\n" % (m, len(body)), "def f%d():\n    import %s\n" % (len(body), m)]))
        r.shuffle(body)
        files["e0/zz_main.py"] = "".join(body) or "import %s\n" % top
        write_files(ctx, files, activate=False)
        entries = [os.path.join(ctx.dir, "d", "e%d" % i) for i in range(n)]
        sys.path[:] = entries + ctx.stdlib
        importlib.invalidate_caches()
        sys.path_importer_cache.clear()
        ctx.note(kind=kind, kinds=kinds)
        before = list(sys.path)
        gr = new_graph(excludes=[x for x in STDLIB_TOPS if x not in ("pkgutil", "errno")])
        gr.add_module("zz_main")
        ctx.check(sys.path == before, "sys.path changed")
        ob = observe(gr, ctx.dir, True)
        nodes = ob["nodes"]
        ctx.note(nodes={k: v["cls"] for k, v in nodes.items()})
        visible = {}
        for p in pkgs:
            if not portions[p]:
                continue
            parent = p.rpartition(".")[0]
            if parent and kinds[parent] is None:
                here = [i for i in portions[p] if i == portions[parent][0]]
            elif parent and kinds[parent] == "pkg_resources" and not with_resources:
                return     # which portions are found depends on the form of the declaration
            else:
                here = portions[p]
            if not here:
                continue
            decl = kinds[p]
            first = here[0]
            src = files["e%d/%s/__init__.py" % (first, p.replace(".", "/"))]
            ctx.check(p in nodes and nodes[p]["cls"] == "Package", "%s is %s" % (p, nodes.get(p)))
            ctx.check(nodes[p]["ns"] == decl, "%s has the namespace type %r, expected %r: %r" % (p, nodes[p]["ns"], decl, src))
            for mod in ("pkgutil", "pkg_resources"):
                got = ob["edges"].get((p, mod))
                ctx.check((got == {DEFAULT}) if mod == decl else got is None, "edge %s -> %s: %s" % (p, mod, got))
            if decl == "pkg_resources" and not with_resources:
                ctx.check(nodes["pkg_resources"]["cls"] == "MissingModule", "pkg_resources is not missing")
                return
            visible[p] = here if decl else here[:1]
            dirs = ["<R>/d/e%d/%s" % (i, p.replace(".", "/")) for i in visible[p]]
            ctx.check(nodes[p]["search"] == dirs, "%s has the search path %s, expected %s" % (p, nodes[p]["search"], dirs))
            ctx.count("declared" if decl else "undeclared")
            ctx.count("portions", len(dirs))
        for m in names + absent:
            p = m.rpartition(".")[0]
            if p not in visible:
                continue
            files_of = [x for x in mods.get(m, []) if x[0] in visible[p]]
            got = nodes.get(m)
            ctx.check(got is not None, "%s is not in the graph" % m)
            if not files_of:
                ctx.check(got["cls"] == "MissingModule", "%s is %s" % (m, got))
                continue
            i, fn, sub = files_of[0]
            ctx.check(got["cls"] == ("Package" if sub else "SourceModule"), "%s is %s" % (m, got["cls"]))
            ctx.check(got["file"] == "<R>/d/" + fn, "%s is in the file %s, expected %s" % (m, got["file"], fn))
            ctx.check((m, "errno") in ob["edges"] and (m, p) in ob["edges"], "edges of %s" % m)
            ctx.check(("zz_main", m) in ob["edges"], "no edge to %s" % m)
        ctx.count("shadowed", shadowed)
        ctx.nontrivial(any(len(v) > 1 for v in visible.values()))
        ctx.sig(kind, sorted(files), sorted((k, v["cls"]) for k, v in nodes.items()))
        ctx.sample({"kinds": kinds, "files": sorted(files), "nodes": {k: v["cls"] for k, v in nodes.items()}})

    # --- six

    def table(self):
        import six
        res = {}
        for a in six._moved_attributes:
            res[a.name] = ("module" if isinstance(a, six.MovedModule) else "attribute", a.mod)
        for k, v in six._importer.known_modules.items():
            k = k.partition(".moves.")[2]
            if k and isinstance(v, six.MovedModule):
                res[k] = ("module", v.mod)
        res["urllib"] = ("module", "urllib")
        for n in ("parse", "error", "request", "response", "robotparser"):
            res["urllib." + n] = res["urllib_" + n] = ("module", "urllib." + n)
        if sys.platform != "win32":
            res.pop("winreg", None)
        return res

    def six(self, ctx):
        r = ctx.rng
        base = r.choice(["six", "six", "six", "vend.six", "a.b.six"])
        files = {base.replace(".", "/") + ".py": SIX}
        for p in [base.rpartition(".")[0], base.partition(".")[0]]:
            if p and p != base:
                files[p.replace(".", "/") + "/__init__.py"] = ""
        if base != "six":
            ctx.count("vendored")
        write_files(ctx, files)

        def read():
            if base != "six":
                sys.path.insert(0, os.path.join(ctx.dir, "d", *base.split(".")[:-1]))
            t = self.table()
            for n, (k, m) in list(t.items()):
                t[n] = (k, m, exists(m))
            return t
        table = isolated(read)
        names = r.sample(sorted(table), r.randint(1, 7))
        mods, used = {}, []
        for n in names:
            kind, target, ok = table[n]
            n2 = None
            forms = ["from {b}.moves import {n}\n", "from {b}.moves import {n} as {u}\n", "def f():\n    from {b}.moves import {n}\n",
                     "try:\n    from {b}.moves import {n}\nexcept ImportError:\n    {u} = None\n"]
            if "." in n:
                p, _, t = n.rpartition(".")
                forms = ["from {b}.moves.%s import %s\n" % (p, t), "from {b}.moves.%s import %s as {u}\n" % (p, t)]
            elif r.random() < 0.2:
                n2 = r.choice(sorted(x for x in table if "." not in x))
                forms = ["from {b}.moves import {n}, %s as q\n" % n2, "from {b}.moves import (%s as q, {n})\n" % n2]
            if kind == "module":
                forms += ["import {b}.moves.{n}\n", "import {b}.moves.{n} as {u}\n", "from {b}.moves.{n} import something\n", "from {b}.moves.{n} import *\n",
                          "import {b}.moves.{n}\nfrom {b}.moves.{n} import one, two\n"]
            m = "zz_%d" % len(mods)
            f = r.choice(forms)
            if n2 and n2 + " as q" in f:
                used.append((m, n2))
            mods[m] = f.format(b=base, n=n, u="u_%d" % len(mods))
            used.append((m, n))
        files = {m + ".py": s for m, s in mods.items()}
        pre = [n for n in names if table[n][0] == "module" and table[n][2] and r.random() < 0.15]
        write_files(ctx, files)
        ctx.note(base=base, names=names, preloaded=pre, modules=mods)
        if pre:
            # others in this process imported through six before
            importlib.import_module(base)
            for n in pre:
                try:
                    importlib.import_module("%s.moves.%s" % (base, n))
                except ImportError:
                    pass
            importlib.invalidate_caches()
        keep = {table[n][1].partition(".")[0] for _, n in used} | {"builtins"}
        before = list(sys.path)
        targets = {table[n][1] for _, n in used}
        gr = new_graph(excludes=[x for x in STDLIB_TOPS if x not in keep] + others(keep, targets))
        k = r.random()
        if k < 0.2:
            gr.add_module(r.choice([base, base + ".moves"]))
        order = sorted(mods)
        r.shuffle(order)
        for m in order:
            gr.add_module(m)
        ctx.check(sys.path == before, "sys.path changed")
        ob = observe(gr)
        out = {}
        for a, b in ob["edges"]:
            out.setdefault(a, set()).add(b)
        ctx.note(nodes=ob["nodes"], edges=sorted(e for e in ob["edges"] if e[0] in mods or e[0].startswith(base + ".moves")))
        pseudo = base + ".moves"
        ctx.check(ob["nodes"].get(pseudo) == "Package", "%s is %s" % (pseudo, ob["nodes"].get(pseudo)))
        lost = [n for n, c in ob["nodes"].items() if n.startswith(pseudo + ".") and c == "MissingModule"]
        ctx.check(not lost, "reported missing: %s" % lost)
        for m, n in used:
            kind, target, ok = table[n]
            if "from %s import" % pseudo in mods[m]:
                ctx.check(pseudo in out.get(m, ()), "no edge from %s to %s" % (m, pseudo))
            if target == "builtins" and kind == "attribute":
                ctx.count("six_builtin_functions")
                continue
            # through the aliases of six.moves only
            seen, todo = set(), [m]
            while todo:
                for b in out.get(todo.pop(), ()):
                    if b not in seen:
                        seen.add(b)
                        if b.startswith(pseudo + ".") and ob["nodes"][b] == "AliasNode":
                            todo.append(b)
            # a parent of the import counts for parents: urllib.parse leads to urllib
            ctx.check(target in seen, "%s (%s) does not lead to %s but to %s" % (n, mods[m].strip(), target, sorted(seen)))
            cls = ob["nodes"][target]
            ctx.check((cls == "MissingModule") == (not ok), "%s is %s, it %s" % (target, cls, "exists" if ok else "does not exist"))
            ctx.count("six_names")
            ctx.count("six_attributes", kind == "attribute")
        ctx.nontrivial(len(names) >= 2)
        ctx.sig(base, sorted(mods.values()), sorted(pre))
        ctx.sample({"base": base, "modules": mods, "nodes": {n: c for n, c in ob["nodes"].items() if c != "ExcludedModule"}})

    # --- fixed cases

    def probe_all_names(self, ctx):
        write_files(ctx, {"six.py": SIX})
        table = isolated(self.table)
        ctx.check(len(table) > 60, "table of six")
        files = {}
        for i, (n, (kind, target)) in enumerate(sorted(table.items())):
            p, _, t = n.rpartition(".")
            files["zz_%d.py" % i] = "from six.moves%s import %s\n" % ("." + p if p else "", t)
        write_files(ctx, files)
        tops = {m.partition(".")[0] for k, m in table.values()}
        gr = new_graph(excludes=[x for x in STDLIB_TOPS if x not in tops] + ["subprocess", "importlib", "tkinter", "multiprocessing", "ctypes"])
        for i in range(len(table)):
            gr.add_module("zz_%d" % i)
        lost = [n.identifier for n in gr.iter_graph() if isinstance(n, mg.MissingModule) and n.identifier.startswith("six.moves")]
        ctx.check(not lost, "reported missing: %s" % lost)

    def probe_unknown_name(self, ctx):
        write_files(ctx, {"six.py": SIX, "m.py": "from six.moves import nosuch\nimport six.moves.other.deeper"})
        gr = new_graph(excludes=[x for x in STDLIB_TOPS])
        gr.add_module("m")
        for n in ("six.moves.nosuch", "six.moves.other"):
            ctx.check(isinstance(gr.find_node(n), mg.MissingModule), "%s is %s" % (n, gr.find_node(n)))

    def probe_namespace_in_zip(self, ctx):
        import zipfile
        decl = DECLARE["pkgutil"][0]
        write_files(ctx, {"e0/ns/__init__.py": decl, "e0/ns/a.py": "", "e0/m.py": "import ns.a, ns.b"})
        z = os.path.join(ctx.dir, "z.zip")
        with zipfile.ZipFile(z, "w") as zf:
            zf.writestr("ns/", "")
            zf.writestr("ns/__init__.py", decl)
            zf.writestr("ns/b.py", "")
        sys.path[:] = [os.path.join(ctx.dir, "d", "e0"), z] + ctx.stdlib
        importlib.invalidate_caches()
        gr = new_graph(excludes=[x for x in STDLIB_TOPS if x != "pkgutil"])
        gr.add_module("m")
        for n in ("ns.a", "ns.b"):
            ctx.check(isinstance(gr.find_node(n), mg.SourceModule), "%s is %s" % (n, gr.find_node(n)))

    def probe_failing_declaration(self, ctx):
        for i, tail in enumerate(("raise ValueError\n", "raise SystemExit\n", "import nope_nope\n")):
            def fn():
                write_files(ctx, {"ns%d/__init__.py" % i: DECLARE["pkgutil"][0] + tail, "ns%d/a.py" % i: ""}, sub="s%d" % i)
                gr = new_graph(excludes=[x for x in STDLIB_TOPS if x != "pkgutil"])
                gr.add_module("ns%d.a" % i)
                return observe(gr)["nodes"], gr.find_node("ns%d" % i).namespace_type
            nodes, t = isolated(fn)
            ctx.check(nodes.get("ns%d.a" % i) == "SourceModule" and t == "pkgutil", "%r: %s %s" % (tail, nodes, t))


CHECK = C35()
