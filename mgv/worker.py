"""
Worker process: runs its share of the cases of one check, each in a forked child.
"""
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0] = os.path.dirname(HERE)
STDLIB = [p for p in sys.path[1:] if p]

REPO = os.environ.get("MGV_DEV_REPO", "/repo")   # (another copy during development only)
SITE = "/opt/venv/lib/python3.12/site-packages"
if not os.path.isdir(SITE):
    import glob

    SITE = glob.glob("/opt/venv/lib/python3*/site-packages")[0]


def setup_imports():
    """Import the code under test from /repo's working tree."""
    sys.path[:] = [os.path.dirname(HERE), REPO] + STDLIB + [SITE]
    import modulegraph2
    import modulegraph2.__main__  # noqa

    fn = os.path.realpath(modulegraph2.__file__)
    assert fn.startswith(os.path.realpath(REPO) + "/"), fn


class Ctx:
    """What a case sees."""

    CASE_TIMEOUT = 150

    def __init__(self, rng, dir, idx, tier):
        self.rng, self.dir, self.idx, self.tier = rng, dir, idx, tier
        self.counters = {}
        self.sigparts = []
        self.is_nontrivial = False
        self.sample_obj = None
        self.detail = {}
        self.stdlib = list(STDLIB)
        self.site = SITE

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sig(self, *parts):
        self.sigparts.append(repr(parts))

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def sample(self, obj):
        self.sample_obj = obj

    def note(self, **kw):
        self.detail.update(kw)

    def violation(self, msg, **detail):
        self.detail.update(detail)
        raise Violation(msg)

    def check(self, cond, msg, **detail):
        if not cond:
            self.violation(msg() if callable(msg) else msg, **detail)


class Violation(Exception):
    pass


class CpuLimit(BaseException):
    pass


CPU_LIMIT = 100   # seconds of processor time; a case needs a fraction of a second
MEMORY_LIMIT = 6 << 30


def on_cpu_limit(signum, frame):
    signal.setitimer(signal.ITIMER_PROF, 5)   # again, if something swallows it
    raise CpuLimit()


def clip(obj, n=60000):
    s = json.dumps(obj, default=str)
    if len(s) > n:
        return {"clipped": s[:n]}
    return json.loads(s)


def in_library(exc):
    """Did this exception pass through code of the library under test?"""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/modulegraph2/"):
            return True
        tb = tb.tb_next
    if exc.__context__ is not None and exc.__context__ is not exc:
        return in_library(exc.__context__)
    return False


def run_child(check, kind, idx, rng_seed, casedir, tier, wfd):
    os.makedirs(casedir)
    os.chdir(casedir)
    ctx = Ctx(random.Random(rng_seed), casedir, idx, tier)
    signal.signal(signal.SIGPROF, on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, check.cpu_limit)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    out = {"t": "case", "case": idx}
    sys.path[:] = list(STDLIB)
    try:
        try:
            if kind == "probe":
                getattr(check, "probe_" + idx)(ctx)
            else:
                check.case(ctx)
            out["verdict"] = "held"
        except Violation as exc:
            out["verdict"] = "violation"
            out["msg"] = str(exc)
        except (CpuLimit, MemoryError) as exc:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if in_library(exc):
                # logical limit: thousands of times what this input needs
                out["verdict"] = "violation"
                out["msg"] = "the library does not end: %r" % (exc,)
                out["stuck"] = True
                ctx.detail["traceback"] = "".join(traceback.format_exception(exc))[-3000:]
            else:
                out["verdict"] = "timeout"
        except BaseException as exc:  # noqa
            tb = "".join(traceback.format_exception(exc))
            if in_library(exc) and not isinstance(exc, KeyboardInterrupt):
                out["verdict"] = "violation"
                out["msg"] = "unexpected exception from the library: %r" % (exc,)
                ctx.detail["traceback"] = tb[-4000:]
            else:
                out["verdict"] = "error"
                out["msg"] = tb[-4000:]
        if out["verdict"] == "violation":
            out["detail"] = clip(ctx.detail)
            if check.single_line_msg:
                out["msg"] = out["msg"].replace("\n", " | ")
        signal.setitimer(signal.ITIMER_PROF, 0)
        out["counters"] = ctx.counters
        out["nontrivial"] = ctx.is_nontrivial
        if ctx.sigparts:
            out["sig"] = hashlib.sha1("".join(ctx.sigparts).encode("utf-8", "replace")).hexdigest()[:16]
        if ctx.sample_obj is not None and out["verdict"] == "held":
            out["sample"] = clip(ctx.sample_obj, 6000)
    except BaseException as exc:  # noqa
        out = {"t": "case", "case": idx, "verdict": "error",
               "msg": "".join(traceback.format_exception(exc))[-3000:]}
    data = (json.dumps(out, default=str) + "\n").encode("utf-8", "backslashreplace")
    while data:
        n = os.write(wfd, data)
        data = data[n:]


def run_case(check, kind, idx, rng_seed, scratch, tier):
    casedir = os.path.join(scratch, "c%s" % idx)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            run_child(check, kind, idx, rng_seed, casedir, tier, w)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.time() + check.case_timeout
    timed_out = False
    while True:
        left = deadline - time.time()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        buf += data
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(casedir, ignore_errors=True)
    if timed_out:
        return {"t": "case", "case": idx, "verdict": "timeout"}
    try:
        return json.loads(buf)
    except ValueError:
        return {"t": "case", "case": idx, "verdict": "error",
                "msg": "child ended with status %s, no result" % status}


def main():
    pid, tier, seed, widx, nw, ncases, scratch = sys.argv[1:8]
    only = sys.argv[8] if len(sys.argv) > 8 else None
    seed, widx, nw, ncases = int(seed), int(widx), int(nw), int(ncases)
    out = os.fdopen(os.dup(1), "w")
    setup_imports()
    mod = importlib.import_module("mgv.checks." + pid.lower())
    check = mod.CHECK
    if ncases < 0:
        ncases = int(check.cases["thorough" if tier == "thorough" else "quick"]
                     * float(os.environ.get("MGV_SCALE", "1")))
    mn = {k: v for k, v in check.minimum.items()}
    print(json.dumps({"t": "meta", "rule": check.rule, "assumptions": check.assumptions,
                      "min": mn if float(os.environ.get("MGV_SCALE", "1")) >= 1 else {}}),
          file=out, flush=True)
    check.setup(scratch, seed, tier)
    todo = []
    if only is not None:
        if only.lstrip("-").isdigit():
            todo.append(("case", int(only)))
        else:
            todo.append(("probe", only))
    else:
        probes = sorted(n[6:] for n in dir(check) if n.startswith("probe_"))
        if "MGV_NOPROBES" in os.environ:
            probes = []   # (mutation testing only)
        for i, n in enumerate(probes):
            if i % nw == widx:
                todo.append(("probe", n))
        for i in range(widx, ncases, nw):
            todo.append(("case", i))
    stuck = 0
    known = ()
    if "MGV_FIRST" in os.environ:
        from mgv.core import load_known

        known = load_known()
    for kind, idx in todo:
        res = run_case(check, kind, idx, "%s/%s/%s" % (pid, seed, idx), scratch, tier)
        print(json.dumps(res), file=out, flush=True)
        stuck += bool(res.get("stuck")) + (res["verdict"] == "timeout")
        if stuck > 1:
            break
        if res["verdict"] == "violation" and "MGV_FIRST" in os.environ and (
            kind == "case" or not any((pid, idx) == k for k in known)
        ):
            break   # (mutation testing only)
    print(json.dumps({"t": "done"}), file=out, flush=True)


if __name__ == "__main__":
    # make this module importable under its package name, so that there is one Violation class
    sys.modules["mgv.worker"] = sys.modules["__main__"]
    main()
