"""The Graphviz export."""
import contextlib
import io
import os
import shutil
import subprocess

import modulegraph2 as mg
import modulegraph2.__main__ as cli

from ..build import new_graph, write_files
from ..check import Check
from ..exports import Desc, DotReader, dot_differences, random_graph, shown


def export(gr):
    fp, other = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(other):
        cli.print_graph(fp, cli.OutputFormat.GRAPHVIZ, gr)
    return fp.getvalue(), other.getvalue()


class C29(Check):
    technique = "runtime monitor: the Graphviz output of observed graphs is read by Graphviz and by a separate reader and compared with the graph"
    level_note = ("Random hand-made graphs (all node kinds, keywords, quotes, backslashes, markup, non-ASCII characters, distributions, unreachable "
                  "nodes, several edges between nodes) and graphs of random worlds; a reader written for the Graphviz grammar gives "
                  "declared nodes, attributes, edges and clusters; Graphviz itself reads a part of the output when it is installed.")
    cases = {"quick": 2200, "thorough": 40000}
    rule = "random graphs; non-trivial with at least 4 nodes and 3 edges; distinct by nodes, edges and attributes"
    minimum = {"nodes": 10000, "edges": 10000, "dashed": 1000, "clusters": 500, "roots": 2000, "unreachable": 2000, "synthetic": 800, "worlds": 500}

    def case(self, ctx):
        r = ctx.rng
        gr = random_graph(ctx, newline=True)
        d = Desc(gr)
        text, other = export(gr)
        ctx.note(text=text)
        ctx.check(other == "", "something was written to the standard output: %r" % other[:200])
        bad = dot_differences(text, d)
        ctx.check(not bad, lambda: "the Graphviz output differs from the graph: " + "; ".join(bad[:4]), differences=bad)
        # (for Graphviz names that start with a percent sign are internal names)
        if r.random() < 0.15 and not any(n.startswith("%") for n in d.reach) and shutil.which("nop"):
            self.graphviz(ctx, text, d)
        x = DotReader(text)
        ctx.count("nodes", len(x.nodes))
        ctx.count("edges", len(x.edges))
        ctx.count("dashed", sum(a.get("style") == "dashed" for a in x.edges.values()))
        ctx.count("clusters", len(x.clusters))
        ctx.count("roots", len(d.roots))
        ctx.count("unreachable", len(d.nodes) - len(d.reach))
        ctx.nontrivial(len(x.nodes) >= 4 and len(x.edges) >= 3)
        ctx.sig(sorted(map(repr, x.nodes.items())), sorted(map(repr, x.edges.items())))
        ctx.sample({"text": text[:3000]})

    def graphviz(self, ctx, text, d):
        p = subprocess.run(["nop"], input=text.encode("utf-8", "surrogatepass"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        ctx.check(p.returncode == 0 and not p.stderr, "Graphviz says: %s" % p.stderr.decode(errors="replace")[:300])
        x = DotReader(p.stdout.decode())
        again = sorted({shown(n) for n in x.nodes} ^ d.reach) + sorted({(shown(a), shown(b)) for a, b in x.edges} ^ set(d.edges))
        ctx.check(not again, lambda: "Graphviz reads something else: %s" % again[:3])
        ctx.count("read_by_graphviz")

    def probe_shown_names(self, ctx):
        """What Graphviz displays."""
        if not shutil.which("dot"):
            return
        names = ["a\\b", "new\\nline", "end\\", 'quo"te', 'b\\"q', "\\N", "plain", "\u00e9"]
        gr = mg.ModuleGraph()
        for n in names:
            x = mg.MissingModule(n)
            gr.add_node(x)
            gr.add_root(x)
        text, _ = export(gr)
        p = subprocess.run(["dot", "-Tsvg"], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        if b"Could not load" in p.stderr or b"Format:" in p.stderr:
            return
        ctx.check(p.returncode == 0, "dot fails: %s" % p.stderr.decode(errors="replace")[:300])
        import xml.etree.ElementTree as ET
        got = sorted("".join(e.itertext()) for e in ET.fromstring(p.stdout).iter("{http://www.w3.org/2000/svg}text"))
        ctx.check(got == sorted(names), "Graphviz shows %s" % got)

    def probe_empty_graph(self, ctx):
        x = DotReader(export(mg.ModuleGraph())[0])
        ctx.check(not x.nodes and not x.edges, "nodes in an empty graph")

    def probe_growing_graph(self, ctx):
        write_files(ctx, {"a.py": "import b", "b.py": "", "c.py": "import b, d.e\nif b:\n  import b as c", "d/__init__.py": "", "d/e.py": "try:\n  import b\nexcept ImportError:\n  pass"})
        gr = new_graph()
        for n in ("a", "c", "a", "zz"):
            gr.add_module(n)
            for _ in range(2):
                bad = dot_differences(export(gr)[0], Desc(gr))
                ctx.check(not bad, "after %s: %s" % (n, bad))

    def probe_real_distributions(self, ctx):
        files = {"p/__init__.py": "import q.x", "p/y.py": "", "q/__init__.py": "", "q/x.py": "import p.y", "r.py": "import p, z", "z.py": "",
                 "X-1.dist-info/METADATA": "Name: X\nVersion: 1\n", "X-1.dist-info/RECORD": "p/__init__.py,,\np/y.py,,\nz.py,,\n",
                 "Y-1.dist-info/METADATA": "Name: Y\nVersion: 1\n", "Y-1.dist-info/RECORD": "q/__init__.py,,\nq/x.py,,\n"}
        write_files(ctx, files)
        gr = new_graph()
        gr.add_module("r")
        gr.add_distribution("Y")
        bad = dot_differences(export(gr)[0], Desc(gr))
        ctx.check(not bad, str(bad))
        ctx.check(len(DotReader(export(gr)[0]).clusters) == 2, "clusters")


CHECK = C29()
