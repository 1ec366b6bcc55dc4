"""Run the library on a world."""
import importlib
import os
import sys

import modulegraph2 as mg

from .model import Model


def activate(ctx, world):
    sys.path[:] = world.path() + ctx.stdlib
    importlib.invalidate_caches()
    sys.path_importer_cache.clear()


def to_implies(implies):
    res = {}
    for k, (kind, v) in (implies or {}).items():
        res[k] = {"list": list, "alias": mg.Alias, "virtual": mg.Virtual}[kind](v)
    return res


def new_graph(cls=None, implies=None, excludes=(), **kw):
    kw.setdefault("use_stdlib_implies", False)
    g = (cls or mg.ModuleGraph)(**kw)
    if implies:
        g.add_implies(to_implies(implies))
    if excludes:
        g.add_excludes(list(excludes))
    return g


def add_roots(graph, world, roots):
    for kind, n in roots:
        if kind == "script":
            graph.add_script(world.script_path(n))
        else:
            graph.add_module(n)


def model_for(world, roots, implies=None, excludes=()):
    m = Model(world, implies, excludes)
    for kind, n in roots:
        if kind == "script":
            m.add_script(world.script_path(n), world.scripts[n])
        else:
            m.add_module(n)
    return m


def write_files(ctx, files, sub="d", activate=True):
    """Write {relative name: text or bytes} below the case directory and put it on sys.path."""
    root = os.path.join(ctx.dir, sub)
    os.makedirs(root, exist_ok=True)
    for name, data in files.items():
        p = os.path.join(root, name)
        if data is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fp:
            fp.write(data.encode() if isinstance(data, str) else data)
    if activate:
        sys.path[:] = [root] + ctx.stdlib
        importlib.invalidate_caches()
        sys.path_importer_cache.clear()
    ctx.note(files={k: repr(v)[:2000] for k, v in files.items()})
    return root


def isolated(fn, *args):
    """Run fn in a forked process and return its (plain) result."""
    import pickle
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = (True, fn(*args))
            except Exception as exc:
                res = (False, "%s\n%s" % (exc, traceback.format_exc()[-2500:]))
            with os.fdopen(w, "wb") as fp:
                pickle.dump(res, fp)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(1)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the child process ended")
    ok, res = pickle.loads(data)
    if not ok:
        raise ChildError(res)
    return res


class ChildError(Exception):
    """An exception in an isolated call."""
