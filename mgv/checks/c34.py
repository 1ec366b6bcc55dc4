"""Modules compiled with mypyc."""
import importlib
import os
import shutil
import sys

from ..build import add_roots, isolated, new_graph, write_files
from ..check import Check
from ..gen import gen_world
from ..snap import observe
from ..world import BAD_SOURCES, EXT

VARIANTS = ["compiled"] * 5 + ["no_helper", "no_source", "no_distribution", "no_hooks", "bad_source", "other_distribution", "similar_names"]
DEFAULT = (False, True, False, None)


def activate(ctx, root, w):
    sys.path[:] = [os.path.join(root, e) for e in w.entries] + ctx.stdlib
    importlib.invalidate_caches()
    sys.path_importer_cache.clear()


class C34(Check):
    technique = "runtime monitor: metamorphic comparison of a compiled world with the same world as plain source"
    level_note = ("Random worlds where 1-3 modules or packages also exist as an extension module (an empty file; the library does not load it) "
                  "recorded by a distribution with or without helper; the out-edges of the compiled modules are compared with those of "
                  "the same modules in the uncompiled world. Without star imports and re-exported names, which extension modules do not have.")
    cases = {"quick": 700, "thorough": 20000}
    rule = "random worlds, variants of the distribution; non-trivial when a compiled module has at least 2 imports; distinct by variant and edges"
    minimum = {"compiled_modules": 250, "compiled_packages": 60, "compared_edges": 800, "bare_modules": 350}

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, acyclic=False, star=False, reexport=False, nentries=1, zips=False, ntops=(2, 4), maxsubs=3, weird=r.choice([0.1, 0.6]),
                      nimports=(1, 5), scripts=(0, 1), bytecode=r.random() < 0.3)
        w = g.world
        cand = [n for n in g.order if w.mods[n].kind == "source"]
        if not cand:
            return
        chosen = sorted(r.sample(cand, min(len(cand), r.choice([1, 1, 2, 3]))))
        variant = r.choice(VARIANTS)
        plain, comp = os.path.join(ctx.dir, "plain"), os.path.join(ctx.dir, "comp")
        w.write(plain)
        shutil.copytree(plain, comp)
        entry = os.path.join(comp, w.entries[0])
        rows = []
        for n in chosen:
            m = w.mods[n]
            base = m.relpath()[:-3]
            suffix = r.choice(EXT)
            with open(os.path.join(entry, base + suffix), "wb"):
                pass
            rows.append(base + suffix)
            src = os.path.join(entry, base + ".py")
            if variant == "no_source":
                os.unlink(src)
                if r.random() < 0.5:
                    with open(os.path.join(entry, base + r.choice([".pyx", ".pyi", "_.py", ".PY"])), "w") as fp:
                        fp.write("import errno\n")
            elif variant == "bad_source":
                with open(src, "wb") as fp:
                    fp.write(r.choice(BAD_SOURCES[:3]))
            else:
                rows.append(base + ".py")
        tops = [n for n in g.order if w.mods[n].pkg and w.mods[n].kind == "source"]
        helper = "%x__mypyc" % r.getrandbits(80)
        hfile = helper + r.choice(EXT)
        if tops and r.random() < 0.3:
            p = r.choice(tops)
            hfile = p.replace(".", "/") + "/" + hfile
            helper = p + "." + helper
        if variant == "similar_names":
            rows += ["abc__mypyc_.py", "__mypyc/x.py", "x__mypyc.txt", "y__mypyc/data/z.txt", "mypyc.py", "x__mypyc.dist-info/METADATA"]
        elif variant != "no_helper":
            rows.append(hfile)
        else:
            rows.append("other" + EXT[0])
        on_disk = r.random() < 0.8 or "." in helper
        if on_disk and variant not in ("similar_names", "no_helper"):
            with open(os.path.join(entry, hfile), "wb"):
                pass
        others = [m.relpath() for n, m in w.mods.items() if n not in chosen and m.kind != "nspkg"]
        rows += r.sample(others, r.randint(0, len(others)))
        r.shuffle(rows)
        if variant == "no_distribution":
            rows = []
        elif variant == "other_distribution":
            # the files belong to a distribution without the helper
            self.dist(entry, "Other", [x for x in rows if x != hfile])
            rows = [hfile]
        if rows:
            self.dist(entry, "Compiled", rows)
        if r.random() < 0.3:
            self.dist(entry, "Unrelated", ["unrelated.py", "ff__mypyc.so"])
        hooks = variant != "no_hooks"
        roots = list(g.roots) + [("module", n) for n in chosen]
        r.shuffle(roots)
        roots = [x for i, x in enumerate(roots) if x not in roots[:i]]
        ctx.note(files=w.dump(), chosen=chosen, variant=variant, rows=rows, helper=helper, roots=roots)

        def build(root, hooks):
            activate(ctx, root, w)
            w.root = root
            gr = new_graph(use_builtin_hooks=hooks)
            add_roots(gr, w, roots)
            return observe(gr, root, True)
        a, b = isolated(build, plain, True), isolated(build, comp, hooks)
        for n in chosen:
            m = w.mods[n]
            info = b["nodes"].get(n)
            cls = info["init"]["cls"] if m.pkg else info["cls"]
            ctx.check(cls == "ExtensionModule" and (not m.pkg or info["cls"] == "Package"), "%s is %s" % (n, info))
            got = {k[1]: v for k, v in b["edges"].items() if k[0] == n}
            parent = n.rpartition(".")[0]
            if variant == "compiled":
                want = {k[1]: v for k, v in a["edges"].items() if k[0] == n}
                ctx.check(got.pop(helper, None) is not None, "%s has no edge to the helper module %s" % (n, helper))
                # names of globals of a compiled package are not known
                got = {t: v for t, v in got.items() if t in w.mods or not any(t.rpartition(".")[0] == c for c in chosen)}
                want = {t: v for t, v in want.items() if t in w.mods or not any(t.rpartition(".")[0] == c for c in chosen)}
                ctx.check(got == want, lambda: "%s: edges of the compiled module: extra %s, lost %s, changed %s" % (
                    n, sorted(set(got) - set(want)), sorted(set(want) - set(got)),
                    [(t, got[t], want[t]) for t in got if t in want and got[t] != want[t]][:4]))
                ctx.count("compared_edges", len(want))
                ctx.count("compiled_packages" if m.pkg else "compiled_modules")
                ctx.nontrivial(len(want) >= 2)
                ctx.sig(variant, sorted((t, sorted(map(str, v))) for t, v in want.items()))
            else:
                if variant == "bad_source":
                    got.pop(helper, None)
                ctx.check(got == ({parent: {DEFAULT}} if parent else {}), "%s (%s) has the dependencies %s" % (n, variant, got))
                ctx.count("bare_modules")
                ctx.nontrivial(len(m.records()) >= 2)
                ctx.sig(variant, sorted(b["nodes"]))
        if variant == "compiled":
            ctx.check(helper in b["nodes"] and b["nodes"][helper]["cls"] == ("ExtensionModule" if on_disk else "MissingModule"),
                      "the helper module is %s" % b["nodes"].get(helper))
        ctx.sample({"variant": variant, "chosen": chosen, "helper": helper, "edges": [list(k) for k in b["edges"] if k[0] in chosen][:40]})

    def dist(self, entry, name, rows):
        d = os.path.join(entry, "%s-1.0.dist-info" % name)
        os.makedirs(d)
        with open(os.path.join(d, "METADATA"), "w") as fp:
            fp.write("Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n" % name)
        with open(os.path.join(d, "RECORD"), "w", encoding="utf-8") as fp:
            fp.write("".join("%s,,\n" % x for x in rows))

    # --- fixed cases

    def small(self, ctx, source, more=None, rows=(), name="m", hooks=True, excludes=()):
        files = {"m.py": source, "m" + EXT[0]: b"", "ab__mypyc" + EXT[0]: b"", "x.py": "", "p/__init__.py": "", "p/y.py": "",
                 "D-1.dist-info/METADATA": "Name: D\nVersion: 1\n",
                 "D-1.dist-info/RECORD": "m%s,,\nab__mypyc%s,,\n" % (EXT[0], EXT[0]) + "".join("%s,,\n" % x for x in rows)}
        files.update(more or {})
        write_files(ctx, files)
        gr = new_graph(use_builtin_hooks=hooks, excludes=excludes)
        gr.add_module(name)
        return gr, observe(gr)

    def probe_attributes(self, ctx):
        src = "import x\ntry:\n  from p import y as z\nexcept ImportError:\n  pass\ndef f():\n  import nope\n  from . import bad\n"
        gr, ob = self.small(ctx, src)
        exp = {"x": {(False, True, False, None)}, "p": {(True, True, False, None)}, "p.y": {(True, True, True, "z")}, "nope": {(True, False, False, None)},
               "ab__mypyc": {DEFAULT}}
        got = {b: v for (a, b), v in ob["edges"].items() if a == "m" and ob["nodes"][b] != "InvalidRelativeImport"}
        ctx.check(got == exp, "edges %s" % got)
        ctx.check("InvalidRelativeImport" in ob["nodes"].values(), "relative import is lost")

    def probe_encodings(self, ctx):
        for src in ("# -*- coding: latin-1 -*-\nimport x\ns = '\u00e9'\n".encode("latin-1"), b"\xef\xbb\xbfimport x\n", b"import x\r\ny = 1\r\n", b"import x", b"'doc'\rimport x\r"):
            gr, ob = isolated_small(self, ctx, src)
            ctx.check(("m", "x") in ob["edges"], "source %r: edges %s" % (src, sorted(ob["edges"])))

    def probe_excluded_helper(self, ctx):
        gr, ob = self.small(ctx, "import x", excludes=["ab__mypyc"])
        ctx.check(ob["nodes"].get("ab__mypyc") == "ExcludedModule" and ("m", "x") in ob["edges"], "edges %s" % sorted(ob["edges"]))

    def probe_excluded_module(self, ctx):
        gr, ob = self.small(ctx, "import x", excludes=["m"])
        ctx.check(ob["nodes"] == {"m": "ExcludedModule"}, "nodes %s" % ob["nodes"])

    def probe_cycle(self, ctx):
        more = {"n.py": "import m, p", "n" + EXT[0]: b""}
        gr, ob = self.small(ctx, "import n, m", more, rows=["n" + EXT[0]])
        want = {("m", "n"), ("m", "m"), ("n", "m"), ("n", "p"), ("m", "ab__mypyc"), ("n", "ab__mypyc")}
        ctx.check({e for e in ob["edges"]} == want, "edges %s" % sorted(ob["edges"]))

    def probe_dependencies_are_analysed(self, ctx):
        gr, ob = self.small(ctx, "import q", {"q.py": "import p.y\nimport nope.sub"})
        ctx.check(("p.y", "p") in ob["edges"] and "nope" in ob["nodes"], "nodes %s" % ob["nodes"])

    def probe_user_hooks(self, ctx):
        files = {"m.py": "import x, p.y", "m" + EXT[0]: b"", "ab__mypyc" + EXT[0]: b"", "x.py": "", "p/__init__.py": "", "p/y.py": "",
                 "D-1.dist-info/METADATA": "Name: D\nVersion: 1\n", "D-1.dist-info/RECORD": "m%s,,\nab__mypyc%s,,\n" % (EXT[0], EXT[0])}
        write_files(ctx, files)
        gr = new_graph()
        calls = []
        gr.add_post_processing_hook(lambda g, n: calls.append(n.identifier))
        gr.add_module("m")
        ctx.check(sorted(calls) == ["ab__mypyc", "m", "p", "p.y", "x"], "hook calls %s" % calls)

    def probe_second_request(self, ctx):
        gr, ob = self.small(ctx, "import x")
        gr.add_module("m")
        gr.add_module("x")
        again = observe(gr)
        ctx.check(again["edges"] == ob["edges"], "edges changed")


def isolated_small(check, ctx, src):
    def fn():
        for n in ("m", "x", "p"):
            sys.modules.pop(n, None)
        gr, ob = check.small(ctx, src)
        return ob
    return None, isolated(fn)


CHECK = C34()
