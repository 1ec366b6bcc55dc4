"""Modules that the standard library loads without import statements."""
import os
import subprocess
import sys

import modulegraph2 as mg

from ..build import write_files
from ..check import Check
from ..snap import observe

RUN = r'''
import sys
b = set(sys.modules)
src, name = open(sys.argv[1], "rb").read(), sys.argv[1]
sys.argv[:] = [name]
out = sys.stdout
ns = {"__name__": "__main__", "__builtins__": __builtins__}
try:
    exec(compile(src, name, "exec"), ns)
    state = "ok"
except BaseException as exc:
    state = repr(exc)
out.write("\n@@" + repr((state, sorted(set(sys.modules) - b))) + "\n")
out.flush()
'''
# Statements that use a feature, directly on the C modules where that is possible.
# {t} is a temporary directory.
FEATURES = {
    "_datetime": ["import _datetime\n_datetime.datetime.strptime('2020', '%Y')\n"],
    "datetime": ["import datetime\ndatetime.datetime.strptime('2020', '%Y')\n", "from datetime import date\ndate(2020, 1, 1).strftime('%j')\n",
                 "import datetime as d\nd.datetime.now().timetuple()\n"],
    "time": ["import time\ntime.strptime('2020', '%Y')\n", "from time import strptime\nstrptime('1', '%d')\n"],
    "_operator": ["import _operator\n_operator.methodcaller('a', b=1).__reduce__()\n"],
    "operator": ["from operator import methodcaller\nmethodcaller('a', b=1).__reduce__()\n"],
    "_pickle": ["import _pickle\n_pickle.dumps(len, 0)\n", "from _pickle import dumps, loads\nloads(dumps([int, len], 2))\n"],
    "pickle": ["import pickle\npickle.loads(pickle.dumps([int, len], 0))\n"],
    "_json": ["import _json\ntry:\n    _json.scanstring('\"a', 1)\nexcept ValueError:\n    pass\n"],
    "json": ["import json\ntry:\n    json.loads('{')\nexcept ValueError:\n    pass\n"],
    "_elementtree": ["import _elementtree\n", "from _elementtree import fromstring\n" if False else "import _elementtree as e\ne.Element('a').findall('.//b')\n"],
    "elementtree": ["import xml.etree.ElementTree as E\nE.fromstring('<a><b/></a>').find('b')\n"],
    "_asyncio": ["import _asyncio\n"],
    "asyncio": ["import asyncio\nasync def main():\n    await asyncio.sleep(0)\nasyncio.run(main())\n"],
    "posix": ["import posix\np = posix.fork()\nif not p:\n    posix._exit(0)\nposix.wait4(p, 0)\n", "import os\np = os.fork()\nif not p:\n    os._exit(0)\nos.wait3(0)\n"],
    "_ssl": ["import _ssl\n", "import ssl\n"],
    "sysconfig": ["import sysconfig\nsysconfig.get_config_vars()\n", "from sysconfig import get_config_var\nget_config_var('CC')\n"],
    "dbm": ["import dbm\nwith dbm.open({t!r} + '/x', 'c') as f:\n    f[b'a'] = b'b'\n", "from dbm import whichdb, open as o\no({t!r} + '/y', 'n').close()\nwhichdb({t!r} + '/y')\n"],
    "sqlite3": ["import sqlite3\nc = sqlite3.connect(':memory:')\nlist(c.iterdump())\nc.close()\n", "import _sqlite3\nc = _sqlite3.connect(':memory:')\nlist(c.iterdump())\n"],
    "os.path": ["import os.path\nos.path.exists('/')\n", "from os.path import join\n", "from os import path\n"],
    "expat": ["import xml.parsers.expat.model\n", "import xml.parsers.expat.errors as e\n", "from xml.parsers.expat import errors\n", "import pyexpat\n"],
    "subprocess": ["import subprocess\nsubprocess.run([{x!r}, '-S', '-c', ''])\n"],
    "decimal": ["import decimal\ndecimal.Decimal(1).as_tuple()\n"],
    "collections": ["import collections\ncollections.OrderedDict(a=1).__reduce__()\ncollections.deque([1]).__reduce__()\n"],
    "functools": ["import functools\nfunctools.partial(int, 1).__reduce__()\n"],
    "csv": ["import csv\nlist(csv.reader(['a,b']))\n"],
    "threading": ["import threading\nt = threading.Thread(target=int)\nt.start()\nt.join()\n"],
    "hashlib": ["import hashlib\nhashlib.sha256(b'').hexdigest()\n"],
    "profile": ["import cProfile\ncProfile.Profile().runcall(int)\n"],
    "io": ["import io\nio.TextIOWrapper(io.BytesIO(b'a')).read()\n"],
    "uuid": ["import uuid\nuuid.uuid4()\n"],
}
NO_IMPORT_STATEMENT = ["_datetime", "time", "_operator", "_pickle", "_json", "_elementtree", "_asyncio", "posix", "_ssl", "sysconfig", "dbm", "sqlite3", "os.path", "expat"]


def ignored(name):
    # codecs are looked up by name; the others are objects of C modules and of typing
    # that are in sys.modules but that nothing can need a file for
    return name.partition(".")[0] in ("encodings", "__mp_main__") or name in ("pyexpat.errors", "pyexpat.model", "xml.parsers.expat.errors", "xml.parsers.expat.model", "typing.io", "typing.re")


class C39(Check):
    technique = "runtime monitor: modules in sys.modules after real runs of programs in a fresh interpreter, checked against the default graph of the program"
    level_note = ("Random scripts and modules that use 1-4 of 30 features of the standard library that load modules from C code or with __import__ "
                  "(pickling, strptime, sysconfig data, dbm, sqlite3 dumps, ...), directly on the C modules or through their Python front ends; "
                  "everything that the run added to sys.modules must be sound and reachable from the program. Codecs and pseudo modules of "
                  "pyexpat and typing are left out; only the platform the check runs on is judged.")
    cases = {"quick": 80, "thorough": 2500}
    rule = "random programs; non-trivial when at least one module was loaded without an import statement of the program; distinct by program text"
    minimum = {"runs": 50, "loaded": 800, "hidden_features": 30, "switched_off": 3}
    case_timeout = 600

    def program(self, r, names, ctx):
        lines = []
        for n in names:
            t = r.choice(FEATURES[n])
            t = t.replace("{t!r}", repr(ctx.dir)).replace("{x!r}", repr(sys.executable))
            k = r.random()
            ind = "".join("    " + ln + "\n" for ln in t.splitlines())
            if k < 0.2:
                t = "def f_%d():\n%sf_%d()\n" % (len(lines), ind, len(lines))
            elif k < 0.35:
                t = "try:\n%sexcept KeyError:\n    raise\n" % ind
            elif k < 0.45:
                t = "if len('a'):\n%s" % ind
            lines.append(t)
        return "".join(lines)

    def run_it(self, ctx, path):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        p = subprocess.run([sys.executable, "-S", "-c", RUN, path], capture_output=True, text=True, cwd=ctx.dir, env=env, timeout=300)
        if "\n@@" not in p.stdout:
            raise RuntimeError("run: %s %s" % (p.stdout[-500:], p.stderr[-800:]))
        state, mods = eval(p.stdout.rpartition("\n@@")[2])
        if state != "ok":
            raise RuntimeError("the program fails: %s" % state)
        return [m for m in mods if not ignored(m)]

    def judge(self, ctx, names):
        r = ctx.rng
        text = self.program(r, names, ctx)
        d = write_files(ctx, {"prog.py": text})
        path = os.path.join(d, "prog.py")
        real = self.run_it(ctx, path)
        ctx.note(text=text, real=real)
        script = r.random() < 0.5
        self.compare(ctx, text, path, path if script else "prog", script, real)
        ctx.count("runs")
        ctx.count("loaded", len(real))
        ctx.count("hidden_features", len(set(names) & set(NO_IMPORT_STATEMENT)))
        ctx.nontrivial(len(real) > 1)
        ctx.sig(text)
        ctx.sample({"program": text, "loaded": real})

    def compare(self, ctx, text, path, root, script, real):
        """All modules of *real* must be in the default graph of the program.

        For speed the first graph leaves out whatever the run did not load; a
        module that is not in there is looked for in the complete graph."""
        loaded = {m.partition(".")[0] for m in real}
        for leave_out in (True, False):
            gr = mg.ModuleGraph()
            if leave_out:
                gr.add_excludes(sorted(m for m in sys.stdlib_module_names if m not in loaded and m not in sys.builtin_module_names))
            if script:
                gr.add_script(path)
            else:
                gr.add_module(root)
            ob = observe(gr, from_roots=[root])
            bad = [(m, ob["nodes"].get(m)) for m in real if ob["nodes"].get(m) in (None, "MissingModule", "ExcludedModule", "InvalidModule")]
            if not bad:
                return
            ctx.count("complete_graphs")
        ctx.check(False, "a run of %r loads modules that its graph does not have: %s" % (text, bad[:8]))

    def case(self, ctx):
        r = ctx.rng
        if r.random() < 0.15:
            return self.switched_off(ctx)
        names = r.sample(sorted(FEATURES), r.randint(0, 2)) + [r.choice(NO_IMPORT_STATEMENT)]
        r.shuffle(names)
        self.judge(ctx, list(dict.fromkeys(names)))

    def switched_off(self, ctx):
        """Without the built-in implications only what is written is there."""
        r = ctx.rng
        pairs = [("time", "_strptime"), ("_operator", "functools"), ("_pickle", "copyreg"), ("_json", "json.decoder"), ("posix", "resource"), ("_datetime", "_strptime")]
        some = r.sample(pairs, r.randint(1, 4))
        text = "".join("import %s\n" % a for a, b in some)
        write_files(ctx, {"prog.py": text})
        gr = mg.ModuleGraph(use_stdlib_implies=False)
        gr.add_module("prog")
        ob = observe(gr)
        ctx.note(text=text)
        extra = [e for e in ob["edges"] if e[0] in dict(some)]
        ctx.check(not extra, "edges without built-in implications: %s" % extra)
        on = mg.ModuleGraph()
        on.add_module("prog")
        ob = observe(on)
        lost = [p for p in some if p not in {(a, b) for a, b in ob["edges"]}]
        ctx.check(not lost, "no edges for the built-in implications %s" % lost)
        ctx.count("switched_off")
        ctx.nontrivial()
        ctx.sig("off", text)

    # --- fixed cases

    def probe_every_feature(self, ctx):
        for n in sorted(FEATURES):
            if n in ("asyncio", "_asyncio"):
                continue
            for i, t in enumerate(FEATURES[n]):
                t = t.replace("{t!r}", repr(ctx.dir)).replace("{x!r}", repr(sys.executable))
                d = write_files(ctx, {"p_%s_%d.py" % (n.replace(".", "_"), i): t})
                path = os.path.join(d, "p_%s_%d.py" % (n.replace(".", "_"), i))
                real = self.run_it(ctx, path)
                self.compare(ctx, t, path, path, True, real)

    def probe_aliases(self, ctx):
        import pyexpat  # noqa

        d = write_files(ctx, {"m.py": "import os.path, xml.parsers.expat.model, xml.parsers.expat.errors\n"})
        gr = mg.ModuleGraph()
        gr.add_module("m")
        for a, b in (("os.path", os.path.__name__), ("xml.parsers.expat.model", "pyexpat"), ("xml.parsers.expat.errors", "pyexpat")):
            n = gr.find_node(a)
            ctx.check(isinstance(n, mg.AliasNode) and n.actual_module == b, "%s is %r" % (a, n))
            ctx.check(b in {t.identifier for _, t in gr.outgoing(n)}, "no edge %s -> %s" % (a, b))

    def probe_dbm(self, ctx):
        import dbm

        write_files(ctx, {"m.py": "import dbm\n"})
        gr = mg.ModuleGraph()
        gr.add_module("m")
        out = {t.identifier for _, t in gr.outgoing(gr.find_node("dbm"))}
        ctx.check(set(dbm._names) <= out, "dbm: %s" % sorted(out))


CHECK = C39()
