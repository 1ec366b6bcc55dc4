"""The text report."""
import contextlib
import io
import os
import subprocess
import sys

import modulegraph2 as mg

from ..build import new_graph, write_files
from ..check import Check
from ..exports import Desc, random_graph


class Stream(io.StringIO):
    """A stream that must stay open."""

    closed_by_report = False

    def close(self):
        self.closed_by_report = True


def expected(d):
    lines = []
    for n in sorted(d.modules):
        x = d.nodes[n]
        lines.append("%s %s %s" % (type(x).__name__.ljust(15), n.ljust(25), x.filename if x.filename is not None else ""))
    return lines


class C27(Check):
    technique = "runtime monitor: the report of observed graphs is compared line by line with the graph, other streams are watched"
    level_note = ("Random hand-made graphs (all node kinds, hostile names, distributions, unreachable nodes, cycles) and graphs of random worlds; "
                  "the lines are recomputed from the public interface of the graph. Names with line breaks are outside.")
    cases = {"quick": 2200, "thorough": 40000}
    rule = "random graphs; non-trivial with at least 4 module lines; distinct by the lines"
    minimum = {"lines": 10000, "unreachable": 2000, "distributions": 300, "synthetic": 800, "worlds": 500}

    def case(self, ctx):
        gr = random_graph(ctx)
        d = Desc(gr)
        r = ctx.rng
        nodes = {n.identifier: id(n) for n in gr.nodes()}
        out, err, fp = Stream(), Stream(), Stream()
        stdout = r.random() < 0.3
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            # The default is the standard output at the time the library was imported
            gr.report(out) if stdout else gr.report(file=fp)
        text, other = (out.getvalue(), fp.getvalue()) if stdout else (fp.getvalue(), out.getvalue())
        ctx.check(other == "" and err.getvalue() == "", "something was written to another stream: %r" % (other + err.getvalue())[:200])
        ctx.check(not (out.closed_by_report or fp.closed_by_report), "the stream was closed")
        ctx.note(text=text)
        ctx.check(text == "" or text.endswith("\n"), "the last line is incomplete")
        lines = text.split("\n")[:-1]
        ctx.check(len(lines) >= 3 and lines[0] == "", "no heading: %r" % lines[:3])
        ctx.check(lines[1].split() == ["Class", "Name", "File"] and set(lines[2]) <= set("- "), "the heading is %r" % lines[1:3])
        exp = expected(d)
        got = [x.rstrip() for x in lines[3:]]
        want = [x.rstrip() for x in exp]
        ctx.check(sorted(got) == sorted(want), lambda: "lines: extra %s, lost %s" % (sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4])
                  if set(got) != set(want) else "lines appear twice")
        ctx.check(got == want, "the lines are not sorted by name")
        ctx.check({n.identifier: id(n) for n in gr.nodes()} == nodes, "the report changed the graph")
        ctx.count("lines", len(got))
        ctx.count("unreachable", len(d.nodes) - len(d.reach))
        ctx.count("distributions", len(d.reach) - len(d.modules))
        ctx.nontrivial(len(got) >= 4)
        ctx.sig(sorted(got))
        ctx.sample({"text": text[:3000], "nodes": sorted(d.nodes)[:60]})

    def probe_empty_graph(self, ctx):
        fp = io.StringIO()
        mg.ModuleGraph().report(fp)
        ctx.check(len(fp.getvalue().splitlines()) == 3, "report of an empty graph %r" % fp.getvalue())

    def probe_default_stream(self, ctx):
        write_files(ctx, {"m.py": "import nope\n"})
        code = ("import sys; sys.path[:0] = %r\nimport modulegraph2 as mg\ng = mg.ModuleGraph(use_stdlib_implies=False)\ng.add_module('m')\ng.report()\n"
                % [os.path.join(ctx.dir, "d"), os.path.dirname(os.path.dirname(mg.__file__)), ctx.site])
        p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        ctx.check(p.returncode == 0 and p.stderr == "", "failed: %s" % p.stderr[-500:])
        got = [x.split() for x in p.stdout.split("\n")[3:-1]]
        ctx.check(got == [["SourceModule", "m", os.path.join(ctx.dir, "d", "m.py")], ["MissingModule", "nope"]], "report %s" % got)

    def probe_growing_graph(self, ctx):
        write_files(ctx, {"a.py": "import b", "b.py": "", "c.py": "import b, d.e", "d/__init__.py": "", "d/e.py": ""})
        gr = new_graph()
        for n, want in (("a", 2), ("c", 5), ("a", 5), ("zz", 6)):
            gr.add_module(n)
            for _ in range(2):
                fp = io.StringIO()
                gr.report(fp)
                ctx.check(len(fp.getvalue().splitlines()) == 3 + want, "after %s: %r" % (n, fp.getvalue()))

    def probe_long_names(self, ctx):
        gr = mg.ModuleGraph()
        n = mg.MissingModule("x" * 300 + ".y")
        gr.add_node(n)
        gr.add_root(n)
        fp = io.StringIO()
        gr.report(fp)
        ctx.check(n.name in fp.getvalue().split(), "the name was cut: %r" % fp.getvalue()[-100:])

    def probe_failing_stream(self, ctx):
        gr = mg.ModuleGraph()
        n = mg.MissingModule("x")
        gr.add_node(n)
        gr.add_root(n)

        class Full(io.StringIO):
            def write(self, s):
                raise OSError(28, "full")
        try:
            gr.report(Full())
        except OSError:
            pass
        else:
            ctx.violation("the error of the stream was lost")


CHECK = C27()
