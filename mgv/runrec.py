"""
Runs programs for real and records what their import statements load.

Everything here happens in a forked child, so that the analysis that follows
starts from a clean process.
"""
import builtins
import importlib
import importlib.util
import json
import opcode
import os
import sys
import types

IMPORT_NAME = opcode.opmap["IMPORT_NAME"]


class Recorder:
    """Wraps builtins.__import__ and notes every call made by an import statement."""

    def __init__(self):
        self.log = []        # [importer, absolute name, [from-list names loaded as submodules]]
        self.other = 0
        self.real = builtins.__import__

    def __call__(self, name, globals=None, locals=None, fromlist=(), level=0):
        f = sys._getframe(1)
        stmt = f.f_lasti >= 0 and f.f_code.co_code[f.f_lasti] == IMPORT_NAME and globals is f.f_globals
        before = set(sys.modules) if stmt else ()
        res = self.real(name, globals, locals, fromlist, level)
        if not stmt:
            self.other += 1
            return res
        absname = name
        if level:
            pkg = globals.get("__package__")
            if pkg is None:
                pkg = globals["__spec__"].parent
            absname = importlib.util.resolve_name("." * level + name, pkg)
        subs = []
        for n in fromlist or ():
            full = absname + "." + n
            if full in sys.modules and full not in before:
                subs.append(full)
        self.log.append([globals.get("__name__"), absname, subs])
        return res


def run_program(kind, what, path):
    """Run a script (or import a module); returns the log and how it ended."""
    rec = Recorder()
    sys.path[:] = path
    importlib.invalidate_caches()
    sys.path_importer_cache.clear()
    ended = "ok"
    builtins.__import__ = rec
    try:
        if kind == "script":
            with open(what, "rb") as fp:
                code = compile(fp.read(), what, "exec", dont_inherit=True)
            main = types.ModuleType("__main__")
            main.__file__ = what
            sys.modules["__main__"] = main
            exec(code, main.__dict__)
        else:
            importlib.import_module(what)
    except BaseException as exc:  # noqa
        ended = "%s: %s" % (type(exc).__name__, exc)
    finally:
        builtins.__import__ = rec.real
    return {"log": rec.log, "ended": ended[:500], "other": rec.other}


def in_child(func, *args):
    """Call func in a forked child and return its (JSON) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(func(*args)).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        data = os.read(r, 1 << 16)
        if not data:
            break
        buf += data
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError("child ended with status %s" % status)
    return json.loads(buf)
