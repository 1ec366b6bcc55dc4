"""Imports requested by hooks."""
import modulegraph2 as mg

from ..build import activate, new_graph, write_files
from ..gen import gen_world, size_sig
from ..model import DEFAULT, Model
from ..snap import diff, observe, text
from ._world import WorldCheck
from .c16 import random_implies


class Oops(Exception):
    pass


def run_table(mdl, table, done, extras):
    more = True
    while more:
        more = False
        for name in list(mdl.nodes):
            if name not in done:
                done.add(name)
                more = True
                for kind, t in table.get(name, ()):
                    if kind == "package":
                        mdl.import_package(name, t, extras)
                    else:
                        mdl.hook_import(name, t)


class C22(WorldCheck):
    technique = "runtime monitor: graphs with hook-requested imports against a reference model that performs the same requests"
    level_note = ("Random worlds with import_module and import_package requested by post-processing hooks, by hook contexts that end "
                  "normally or by an exception, and between operations; nodes and edges are compared with the model. Namespace packages "
                  "and X.__init__ nodes below an imported package are allowed but not required. Trusts the model.")
    cases = {"quick": 1600, "thorough": 30000}
    rule = "random worlds with requests; non-trivial when a request added a node; distinct by nodes and edges"
    minimum = {"import_module": 1500, "import_package": 1500, "contexts": 500, "context_exceptions": 150, "hook_requests": 300, "package_children": 1000,
               "bare_requests": 100}

    def case(self, ctx):
        r = ctx.rng
        g = gen_world(r, acyclic=False, layered=r.random() < 0.5, ntops=(2, 4), maxsubs=4, depth=4, nentries=r.choice([1, 1, 2]), weird=0, star=False,
                      reexport=False, invalid=r.random() < 0.5, zips=r.random() < 0.2, nimports=(0, 3))
        w = g.world
        junk = ["data.txt", "not-ident.py", "1st.py", "a b.py", "__pycache__/cached.py", "__pycache__/x.cpython-312.pyc", "has.dot.py", "my-dir/inner.py",
                "datadir_/x.txt", "datadir_/y/z.txt", "datadir_.d/m.py"]
        for n, m in w.mods.items():
            if m.pkg and not w.entries[m.entry].endswith(".zip"):
                for j in junk:
                    if r.random() < 0.25:
                        w.extra.append((m.entry, n.replace(".", "/") + "/" + j, b"import junk_is_analysed\n"))
        w.write(ctx.dir)
        activate(ctx, w)
        imp = random_implies(r, g, 3) if r.random() < 0.3 else None
        exc = [r.choice(g.order + ["errno", "nope"]) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        targets = g.order + [n for n in g.order if w.mods[n].pkg] * 3 + ["errno", "nope", "nope.sub", "keyword", "alpha.nope"]
        table = {}
        if r.random() < 0.5:
            for _ in range(r.randint(1, 4)):
                table.setdefault(r.choice(g.order + ["errno", "nope", "keyword"]), []).append((r.choice(["module", "package"]), r.choice(targets)))
        gr = new_graph(implies=imp, excludes=exc, use_builtin_hooks=r.random() < 0.5)
        lo, hi = Model(w, imp, exc), Model(w, imp, exc)

        def request(node, kind, t):
            ctx.count("import_" + kind)
            res = getattr(gr, "import_" + kind)(node, t)
            ctx.check(gr.find_node(t) is res, "import_%s(%r) gives %r, the graph has %r" % (kind, t, res, gr.find_node(t)))
            ctx.check(any((d.is_optional, d.is_global, d.in_fromlist, d.imported_as) == DEFAULT for d in gr.edge_data(node, res)),
                      "no plain edge from %s to %s" % (node.identifier, t))
            if not r.randrange(4):
                getattr(gr, "import_" + kind)(node, t)

        if table:
            def hook(graph, node):
                for kind, t in table.get(node.identifier, ()):
                    ctx.count("hook_requests")
                    request(node, kind, t)
            gr.add_post_processing_hook(hook)
        done = [set(), set()]
        ops = list(g.roots)
        for _ in range(r.randint(1, 4)):
            ops.insert(r.randint(1, len(ops)), (r.choice(["context", "context", "context", "bare"]), None))
        ops.append(("module", "atexit"))
        desc = []
        ctx.note(files=w.dump(), implies=imp, excludes=exc, table=table, ops=desc)
        base = 0
        for kind, name in ops:
            if kind == "script":
                gr.add_script(w.script_path(name))
                for m in (lo, hi):
                    m.add_script(w.script_path(name), w.scripts[name])
            elif kind == "module":
                gr.add_module(name)
                for m in (lo, hi):
                    m.add_module(name)
            else:
                known = sorted(n for n in lo.reachable() if gr.find_node(n) is not None)
                if not known:
                    continue
                base = base or len(lo.reachable())
                reqs = [(r.choice(known), r.choice(["module", "package", "package"]), r.choice(targets)) for _ in range(r.randint(1, 3))]
                desc.append((kind, reqs))
                if kind == "bare":
                    # completed by the next operation
                    ctx.count("bare_requests")
                    for s, k, t in reqs:
                        request(gr.find_node(s), k, t)
                else:
                    ctx.count("contexts")
                    fail = r.random() < 0.3
                    nested = r.random() < 0.2
                    try:
                        with gr.hook_context():
                            for i, (s, k, t) in enumerate(reqs):
                                if nested and i == 1:
                                    with gr.hook_context():
                                        request(gr.find_node(s), k, t)
                                else:
                                    request(gr.find_node(s), k, t)
                            if fail:
                                ctx.count("context_exceptions")
                                raise Oops
                    except Oops:
                        ctx.check(fail, "exception out of nowhere")
                    else:
                        ctx.check(not fail, "the exception in the hook context is gone")
                for s, k, t in reqs:
                    if k == "package":
                        lo.import_package(s, t, False)
                        hi.import_package(s, t, True)
                    else:
                        lo.hook_import(s, t)
                        hi.hook_import(s, t)
            for m, d, x in ((lo, done[0], False), (hi, done[1], True)):
                run_table(m, table, d, x)
            if kind != "bare":
                self.compare(ctx, gr, lo, hi, "after %s %s" % (kind, name or reqs))
        ctx.nontrivial(len(lo.reachable()) > base)
        ctx.count("package_children", sum(1 for k, v in lo.why.items() if any(x == "hook" for d, x in v)))
        ctx.sig(size_sig(lo.snapshot()))
        ctx.sample({"ops": desc, "table": table, "nodes": lo.snapshot()["nodes"]})

    def compare(self, ctx, gr, lo, hi, when):
        elo, ehi = lo.snapshot(), hi.snapshot()
        act = observe(gr)
        # data directories below imported packages are namespace packages for the import system
        drop = {n for n in act["nodes"] if n.endswith(".datadir_") or ".datadir_." in n}
        act["nodes"] = {n: c for n, c in act["nodes"].items() if n not in drop}
        act["edges"] = {k: v for k, v in act["edges"].items() if not drop & set(k)}
        d = [x for x in diff(elo, act) if x.kind in ("lost-node", "lost-edge")
             or x.kind == "class" or (x.kind == "attrs" and self.hooked(lo, x[1]) and not x[2] <= x[3])]
        d += [x for x in diff(ehi, act) if x.kind in ("extra-node", "extra-edge") or (x.kind == "attrs" and self.hooked(hi, x[1]) and not x[3] <= x[2])]
        ctx.check(not d, lambda: "%s the graph differs: %s" % (when, text(d)))

    def hooked(self, mdl, key):
        return any(why == "hook" for dep, why in mdl.why.get(key, ()))

    # --- fixed cases

    def probe_deep_package(self, ctx):
        files = {"m.py": ""}
        name = "p"
        for i in range(12):
            files[name.replace(".", "/") + "/__init__.py"] = ""
            files[name.replace(".", "/") + "/leaf%d.py" % i] = "import dep%d" % i
            files["dep%d.py" % i] = ""
            name += ".q%d" % i
        write_files(ctx, files)
        gr = new_graph()
        m = gr.add_module("m")
        with gr.hook_context():
            gr.import_package(m, "p")
        names = {n.identifier for n in gr.iter_graph()}
        ctx.check(all("dep%d" % i in names for i in range(12)), "nodes %s" % sorted(names))

    def probe_exception_in_package_hook(self, ctx):
        # a post-processing hook fails while import_package runs: nothing else is lost
        write_files(ctx, {"m.py": "", "p/__init__.py": "import a, bad, b", "a.py": "import a2", "a2.py": "", "bad.py": "import c", "b.py": "import b2",
                          "b2.py": "", "c.py": "", "q.py": "import q2", "q2.py": ""})
        gr = new_graph()
        m = gr.add_module("m")
        state = []

        def hook(graph, node):
            if node.identifier == "bad" and not state:
                state.append(1)
                raise Oops
        gr.add_post_processing_hook(hook)
        try:
            with gr.hook_context():
                gr.import_module(m, "q")
                gr.import_package(m, "p")
            ctx.violation("the exception of the hook is lost")
        except Oops:
            pass
        gr.add_module("m")
        names = {n.identifier for n in gr.nodes()}
        ctx.check({"a", "a2", "bad", "b", "b2", "c", "q", "q2", "p"} <= names, "nodes %s" % sorted(names))

    def probe_module_and_package_of_one_name(self, ctx):
        write_files(ctx, {"m.py": "", "p/__init__.py": "", "p/q.py": "import shadowed", "p/q/__init__.py": "import errno", "p/q/r.py": "import atexit"})
        gr = new_graph()
        m = gr.add_module("m")
        with gr.hook_context():
            gr.import_package(m, "p")
        act = observe(gr)
        ctx.check(act["nodes"].get("p.q") == "Package" and "p.q.r" in act["nodes"] and "atexit" in act["nodes"] and "shadowed" not in act["nodes"],
                  "nodes %s" % act["nodes"])

    def probe_unprocessed_package(self, ctx):
        # the package is already in the graph, but not yet processed
        write_files(ctx, {"m.py": "import x, p", "x.py": "", "p/__init__.py": "import errno", "p/q.py": "import atexit"})
        gr = new_graph()

        def hook(graph, node):
            if node.identifier == "x":
                graph.import_package(node, "p")
        gr.add_post_processing_hook(hook)
        gr.add_module("m")
        act = observe(gr)
        ctx.check({"m", "x", "p", "p.q", "errno", "atexit"} <= set(act["nodes"]) and {("x", "p"), ("m", "p"), ("p", "p.q")} <= set(act["edges"]), "nodes %s" % act["nodes"])

    def probe_aliases(self, ctx):
        write_files(ctx, {"m.py": "", "p/__init__.py": "import errno", "p/q.py": "import atexit"})
        gr = new_graph(implies={"al": ("alias", "p"), "vi": ("virtual", "p")})
        m = gr.add_module("m")
        with gr.hook_context():
            gr.import_package(m, "al")
            gr.import_package(m, "vi")
            gr.import_package(m, "nope.x")
        act = observe(gr)
        ctx.check(("m", "al") in act["edges"] and ("m", "vi") in act["edges"] and ("m", "nope.x") in act["edges"] and "p" in act["nodes"], "edges %s" % act["edges"])

    def probe_linked_directory(self, ctx):
        import os
        root = write_files(ctx, {"m.py": "", "p/__init__.py": "", "elsewhere/sub/__init__.py": "import errno", "elsewhere/sub/x.py": "import atexit"})
        os.symlink(os.path.join(root, "elsewhere/sub"), os.path.join(root, "p/sub"))
        gr = new_graph()
        m = gr.add_module("m")
        with gr.hook_context():
            gr.import_package(m, "p")
        act = observe(gr)
        ctx.check({"p.sub", "p.sub.x", "atexit", "errno"} <= set(act["nodes"]), "nodes %s" % act["nodes"])

    def probe_many(self, ctx):
        n = 400
        files = {"m.py": "", "p/__init__.py": "", "p/sub/__init__.py": ""}
        for i in range(n):
            files["p/%smod%d.py" % ("_" * (i % 3), i)] = "import d%d" % i
            files["p/sub/k%d.py" % i] = "import e%d" % i
            files["d%d.py" % i] = files["e%d.py" % i] = ""
        for i in range(40):
            files["p/q%d/__init__.py" % i] = files["p/q%d/z.py" % i] = ""
        write_files(ctx, files)
        gr = new_graph()
        m = gr.add_module("m")
        with gr.hook_context():
            gr.import_package(m, "p")
        act = observe(gr)
        want = {"m", "p", "p.sub"} | {"p.sub.k%d" % i for i in range(n)} | {"d%d" % i for i in range(n)} | {"e%d" % i for i in range(n)}
        want |= {"p.%smod%d" % ("_" * (i % 3), i) for i in range(n)} | {"p.q%d" % i for i in range(40)} | {"p.q%d.z" % i for i in range(40)}
        got = {x for x in act["nodes"] if not x.endswith(".__init__")}
        ctx.check(got == want, lambda: "%d nodes too many, %d lost: %s" % (len(got - want), len(want - got), sorted(got ^ want)[:6]))

    def probe_many_requests(self, ctx):
        n = 500
        write_files(ctx, {"m.py": "", **{"a%d.py" % i: "import b%d" % i for i in range(n)}, **{"b%d.py" % i: "" for i in range(n)}})
        gr = new_graph()
        m = gr.add_module("m")
        with gr.hook_context():
            for i in range(n):
                gr.import_module(m, "a%d" % i)
        act = observe(gr)
        want = {("m", "a%d" % i) for i in range(n)} | {("a%d" % i, "b%d" % i) for i in range(n)}
        ctx.check(set(act["edges"]) == want, "edges are lost")


CHECK = C22()
