"""
Builds graphs in a fresh interpreter: procbuild.py JOBS RESULT
The jobs say how directories are listed; every job runs in a forked child.
"""
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MGV_DEV_REPO", "/repo")


def shuffle_listings(mode):
    import posix
    real, scan = posix.listdir, os.scandir
    rng = random.Random(mode)

    def arrange(names, key):
        names = sorted(names, key=key)
        if mode == "reversed":
            names.reverse()
        elif mode != "sorted":
            rng.shuffle(names)
        return names

    def listdir(path="."):
        return arrange(real(path), str)

    class Scan:
        def __init__(self, items):
            self.items = items

        def __iter__(self):
            return iter(self.items)

        def __next__(self):
            raise NotImplementedError

        def __enter__(self):
            return self

        def __exit__(self, *args):
            pass

        def close(self):
            pass

    def scandir(path="."):
        with scan(path) as it:
            return Scan(arrange(list(it), lambda e: str(e.name)))
    posix.listdir = os.listdir = listdir
    posix.scandir = os.scandir = scandir


def one(job, stdlib):
    import importlib
    import modulegraph2 as mg
    from mgv.build import to_implies
    from mgv.snap import edge_key, observe
    sys.path[:] = job["path"] + stdlib
    importlib.invalidate_caches()
    os.chdir(job["cwd"])
    gr = mg.ModuleGraph(use_stdlib_implies=job["stdlib_implies"])
    calls = []
    if job.get("log"):
        gr.add_post_processing_hook(lambda g, n: calls.append(n.identifier))
    imp = {k: tuple(v) for k, v in job["implies"]}
    if imp:
        gr.add_implies(to_implies(imp))
    gr.add_excludes(job["excludes"])
    for op in job["ops"]:
        kind, n = op[:2]
        if kind == "script":
            gr.add_script(n)
        elif kind == "module":
            gr.add_module(n)
        elif kind == "dist":
            gr.add_distribution(n)
        elif kind == "source":
            gr.add_dependencies_for_source(n)
        elif kind == "package":
            with gr.hook_context():
                gr.import_package(gr.find_node(n), op[2])
    o = observe(gr, None, True, everything=True)
    return {"roots": o["roots"], "nodes": o["nodes"],
            "edges": sorted([a, b, sorted(map(list, v), key=edge_key)] for (a, b), v in o["edges"].items()),
            "reachable": sorted(n.identifier for n in gr.iter_graph())}


def main():
    jobs = json.load(open(sys.argv[1]))
    sys.path[0] = os.path.dirname(HERE)
    stdlib = [p for p in sys.path[1:] if p and p != REPO]
    sys.path[:] = [os.path.dirname(HERE), REPO] + stdlib + [jobs["site"]]
    import modulegraph2
    assert modulegraph2.__file__.startswith(REPO + "/"), modulegraph2.__file__
    import mgv.build  # noqa
    shuffle_listings(jobs["listing"])
    out = []
    for i, job in enumerate(jobs["jobs"]):
        fn = "%s.%d" % (sys.argv[2], i)
        pid = os.fork()
        if pid == 0:
            try:
                res = one(job, stdlib)
            except BaseException as exc:
                import traceback
                res = {"error": "%s\n%s" % (exc, traceback.format_exc()[-2000:])}
            with open(fn, "w") as fp:
                json.dump(res, fp)
            os._exit(0)
        os.waitpid(pid, 0)
        out.append(json.load(open(fn)) if os.path.exists(fn) else {"error": "no result"})
    with open(sys.argv[2], "w") as fp:
        json.dump(out, fp)


main()
