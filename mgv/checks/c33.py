"""SWIG helper extensions."""
import os
import sys

import modulegraph2 as mg

from ..build import new_graph, write_files
from ..check import Check
from ..snap import observe
from ..world import EXT

HELPER = "def swig_import_helper():\n    pass\n"
HELPERS = {
    "function": HELPER,
    "nested_use": "if True:\n    def swig_import_helper():\n        import errno\n        return 1\n",
    "assigned": "swig_import_helper = None\n",
    "absent": "",
    "other_name": "def swig_import_helper_():\n    pass\n",
    "in_function": "def f():\n    def swig_import_helper():\n        pass\n",
    "in_comment": "# swig_import_helper, see SWIG\n'swig_import_helper'\n",
    "read": "try:\n    swig_import_helper()\nexcept NameError:\n    pass\n",
    "deleted_later": HELPER + "del swig_import_helper\n",
}
BOUND = {"function", "nested_use", "assigned", "deleted_later"}

FORMS = {
    "plain": "import {x}\n",
    "helper": "def g():\n    import {x}\n    return {x}\n",
    "try": "try:\n    import {x}\nexcept ImportError:\n    {x} = None\n",
    "from": "from {x} import one, two as three\n",
    "star": "from {x} import *\n",
    "as": "import {x} as _mod\n",
    "twice": "import {x}\nfrom {x} import one\n",
}

FAILS = ["", "", "", "raise ImportError('x')\n", "raise ValueError\n", "raise SystemExit(2)\n", "import nosuch_module_anywhere\n", "1 / 0\n",
         "from . import nosuch_name\n", "raise KeyboardInterrupt\n"[:0], "class E(Exception): pass\nraise E\n"]

TARGETS = ["ext", "ext", "ext", "ext", "absent", "py", "pyc", "package", "dir", "ext_package", "wrong_place", "other_suffix"]


class C33(Check):
    technique = "runtime monitor: node kinds and edges of observed graphs against an independent statement of the rule, with process state compared before and after"
    level_note = ("Random package layouts (top-level modules, packages, modules in packages, namespace parents, depth up to 3), variations of the "
                  "helper, the imported name, the kind of file with that name and failing package imports; SWIG extensions are empty files with "
                  "the suffix of an extension module, which the library does not load. Only one module imports the bare name.")
    cases = {"quick": 1400, "thorough": 40000}
    rule = "random layouts of the pattern and its variations; non-trivial when the importer is in a package; distinct by layout and result"
    minimum = {"found": 120, "missing": 600, "failing_import": 500, "global_module": 100, "no_hooks": 70}

    def case(self, ctx):
        r = ctx.rng
        depth = r.choice([0, 1, 1, 1, 2, 2, 3])
        parts = [r.choice(["alpha", "be", "g_a", "Delta", "\u00e9ps"]) + str(i) for i in range(depth)]
        files = {}
        fails = False
        ns = set()
        for i in range(1, depth + 1):
            p = "/".join(parts[:i])
            if i < depth and r.random() < 0.2:
                ns.add(p)
                files[p + "/data.txt"] = "x"
                continue
            f = r.choice(FAILS)
            fails = fails or bool(f)
            files[p + "/__init__.py"] = r.choice(["", "'doc'\n"]) + f
        is_pkg = depth > 0 and r.random() < 0.5 and "/".join(parts) not in ns
        if is_pkg:
            importer, base, tail = ".".join(parts), "/".join(parts), parts[-1]
            path = base + "/__init__.py"
        else:
            tail = r.choice(["example", "ex_1", "E", "_priv", "\u00fcx"])
            importer, base = ".".join(parts + [tail]), "/".join(parts)
            path = "/".join(parts + [tail + ".py"])
        pkg = ".".join(parts)
        right = "_" + tail
        x = right if r.random() < 0.8 else r.choice(["_other", tail + "_", "__" + tail, "_" + tail + "x", "_" + "".join(parts[:1] or ["zz"])])
        helper = "function" if r.random() < 0.55 else r.choice(sorted(HELPERS))
        form = r.choice(sorted(FORMS))
        body = [HELPERS[helper], FORMS[form].format(x=x)]
        r.shuffle(body)
        init_fail = files.get(path, "") if is_pkg else ""
        files[path] = "# This file was automatically generated by SWIG\n" + "".join(body) + (init_fail if is_pkg else r.choice(["", "raise ValueError\n"]))
        if helper in ("function", "nested_use", "assigned", "deleted_later") and r.random() < 0.1:
            files[path] = "import errno\n" + files[path]
        target = r.choice(TARGETS)
        where = base + "/" if base else ""
        ext = EXT[r.randrange(len(EXT))]
        if target == "ext":
            files[where + x + ext] = b""
        elif target == "py":
            files[where + x + ".py"] = ""
        elif target == "pyc":
            files[where + x + ".pyc"] = b"garbage"
        elif target == "package":
            files[where + x + "/__init__.py"] = ""
        elif target == "dir":
            files[where + x + "/data.txt"] = ""
        elif target == "ext_package":
            files[where + x + "/__init__" + ext] = b""
        elif target == "wrong_place":
            if depth:
                files["zz_elsewhere/" + x + ext] = b""
            else:
                target = "absent"
        elif target == "other_suffix":
            files[where + x + r.choice([".pyd", ".cpython-311-x86_64-linux-gnu.so", ".dylib", ".so.1", ".pyi", ".i"])] = b""
        if depth == 0 and target == "ext":
            glob = True    # simply a module on the search path
        else:
            glob = r.random() < 0.08
            if glob:
                files[x + r.choice([".py", EXT[0]])] = b"" if depth else files.get(x + ".py", b"")
        if depth == 0 and target in ("py", "pyc", "package", "dir", "ext_package"):
            glob = True
        hooks = r.random() < 0.9
        user = "import %s\n" % importer if r.random() < 0.7 else "from %s import nosuch_thing\n" % importer
        direct = r.random() < 0.4
        files["zz_main.py"] = user
        write_files(ctx, files)
        ctx.note(importer=importer, name=x, helper=helper, form=form, target=target, hooks=hooks)
        gr = new_graph(use_builtin_hooks=hooks)
        before = (list(sys.path), list(sys.meta_path), list(sys.path_hooks))
        gr.add_module(importer if direct else "zz_main")
        ctx.check((list(sys.path), list(sys.meta_path), list(sys.path_hooks)) == before, "the import state of the process changed")
        ob = observe(gr, None, True)
        ctx.note(nodes={k: v["cls"] for k, v in ob["nodes"].items()}, edges=sorted(ob["edges"]))
        ctx.check(importer in ob["nodes"], "%s is not in the graph" % importer)
        swig = hooks and not glob and depth > 0 and x == right and helper in BOUND and target == "ext"
        got = ob["nodes"].get(x)
        ctx.check(got is not None, "no node for %s" % x)
        ctx.check((importer, x) in ob["edges"], "no edge from %s to %s" % (importer, x))
        if swig:
            ctx.check(got["cls"] == "ExtensionModule" and got["name"] == x, "%s is %s" % (x, got))
            ctx.check(got["file"] == os.path.join(ctx.dir, "d", where + x + ext), "%s is in the file %s" % (x, got["file"]))
            ctx.check(not any(a == x for a, b in ob["edges"]), "%s has dependencies" % x)
        elif glob:
            ctx.check(got["cls"] != "MissingModule", "%s is missing" % x)
        else:
            ctx.check(got["cls"] == "MissingModule", "%s is %s" % (x, got["cls"]))
        if pkg:
            ctx.check(pkg + "." + x not in ob["nodes"], "%s.%s is in the graph" % (pkg, x))
        deps = ob["edges"][importer, x]
        exp = {"plain": (False, True, False, None), "try": (True, True, False, None), "from": (False, True, False, None), "star": (False, True, False, None),
               "helper": (True, False, False, None), "as": (False, True, False, "_mod"), "twice": (False, True, False, None)}[form]
        ctx.check(deps == {exp}, "edge attributes %s" % sorted(deps, key=str))
        # Other graphs in this process must see the same modules
        bad = [n for n, m in list(sys.modules.items()) if type(m).__name__ == "FakePackage" and not m.__path__]
        ctx.check(not bad, "left %s in sys.modules" % bad)
        gr2 = new_graph(use_builtin_hooks=hooks)
        gr2.add_module(importer if direct else "zz_main")
        ob2 = observe(gr2, None, True)
        ctx.check(ob2 == ob, "a second graph differs")
        if pkg and target == "ext":
            gr3 = new_graph()
            gr3.add_module(pkg + "." + x)
            n = gr3.find_node(pkg + "." + x)
            ctx.check(type(n).__name__ == "ExtensionModule" and n.name == pkg + "." + x, "the extension cannot be added by its own name afterwards")
        ctx.count("found" if swig else "global_module" if glob else "missing")
        ctx.count("failing_import", fails)
        ctx.count("no_hooks", not hooks)
        ctx.nontrivial(depth > 0)
        ctx.sig(sorted(files), helper, form, target, hooks, sorted(ob["nodes"]), got["cls"])
        ctx.sample({"importer": importer, "name": x, "helper": helper, "form": form, "target": target, "class": got["cls"], "files": sorted(files)})

    def probe_toplevel_without_extension(self, ctx):
        write_files(ctx, {"example.py": HELPER + "import _example\n"})
        gr = new_graph()
        gr.add_module("example")
        ctx.check(type(gr.find_node("_example")).__name__ == "MissingModule", "not missing")

    def probe_script(self, ctx):
        d = write_files(ctx, {"p/__init__.py": "", "example.py": HELPER + "import _example\n"})
        gr = new_graph()
        gr.add_script(os.path.join(d, "example.py"))
        ctx.check(type(gr.find_node("_example")).__name__ == "MissingModule", "not missing")

    def probe_source_string(self, ctx):
        write_files(ctx, {"p/__init__.py": ""})
        gr = new_graph()
        gr.add_dependencies_for_source(HELPER + "import _example\n")
        ctx.check(type(gr.find_node("_example")).__name__ == "MissingModule", "not missing")

    def probe_two_packages(self, ctx):
        files = {}
        for p in ("aa", "bb"):
            files[p + "/__init__.py"] = HELPER + "import _%s\n" % p
            files[p + "/_%s" % p + EXT[0]] = b""
        files["m.py"] = "import aa, bb"
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("m")
        for p in ("_aa", "_bb"):
            n = gr.find_node(p)
            ctx.check(isinstance(n, mg.ExtensionModule), "%s is %s" % (p, n))

    def probe_bytecode(self, ctx):
        import py_compile
        d = write_files(ctx, {"p/__init__.py": HELPER + "import _p\n", "p/_p" + EXT[0]: b""})
        py_compile.compile(os.path.join(d, "p/__init__.py"), os.path.join(d, "p/__init__.pyc"), doraise=True)
        os.unlink(os.path.join(d, "p/__init__.py"))
        gr = new_graph()
        gr.add_module("p")
        ctx.check(isinstance(gr.find_node("_p"), mg.ExtensionModule), "not found")

    def probe_hooks_of_the_node(self, ctx):
        write_files(ctx, {"p/__init__.py": HELPER + "import _p\n", "p/_p" + EXT[0]: b""})
        gr = new_graph()
        calls = []
        gr.add_post_processing_hook(lambda g, n: calls.append(n.identifier))
        gr.add_module("p")
        ctx.check(calls.count("p") == 1 and calls.count("_p") <= 1, "hook calls %s" % calls)

    def probe_excluded(self, ctx):
        write_files(ctx, {"p/__init__.py": HELPER + "import _p\n", "p/_p" + EXT[0]: b""})
        gr = new_graph(excludes=["_p"])
        gr.add_module("p")
        ctx.check(isinstance(gr.find_node("_p"), mg.ExcludedModule), "not excluded")


CHECK = C33()
