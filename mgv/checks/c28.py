"""The HTML export."""
import contextlib
import io

import modulegraph2 as mg
import modulegraph2.__main__ as cli

from ..build import new_graph, write_files
from ..check import Check
from ..exports import Desc, html_differences, random_graph, read_html


def export(gr):
    fp, other = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(other):
        cli.print_graph(fp, cli.OutputFormat.HTML, gr)
    return fp.getvalue(), other.getvalue()


class C28(Check):
    technique = "runtime monitor: the HTML output of observed graphs is parsed by an HTML parser and compared with the graph"
    level_note = ("Random hand-made graphs (all node kinds, names with markup, entities, quotes, percent signs, non-ASCII characters, distributions, "
                  "unreachable nodes) and graphs of random worlds with scripts of hostile names; sections, headings and links are read by "
                  "html.parser and must be exactly those of the graph; other markup or text is an error.")
    cases = {"quick": 2200, "thorough": 40000}
    rule = "random graphs; non-trivial with at least 4 sections and 3 links; distinct by sections and links"
    minimum = {"sections": 10000, "links": 15000, "unreachable": 2000, "distributions": 300, "synthetic": 800, "worlds": 500}

    def case(self, ctx):
        gr = random_graph(ctx, newline=True)
        d = Desc(gr)
        text, other = export(gr)
        ctx.note(text=text)
        ctx.check(other == "", "something was written to the standard output: %r" % other[:200])
        bad = html_differences(text, d)
        ctx.check(not bad, lambda: "the HTML output differs from the graph: " + "; ".join(bad[:4]), differences=bad)
        sections = read_html(text)
        links = sum(len(s[2]) + len(s[3]) for s in sections)
        ctx.count("sections", len(sections))
        ctx.count("links", links)
        ctx.count("unreachable", len(d.nodes) - len(d.reach))
        ctx.count("distributions", len(d.reach) - len(d.modules))
        ctx.nontrivial(len(sections) >= 4 and links >= 3)
        ctx.sig(sorted(map(repr, sections)))
        ctx.sample({"sections": [s[:2] for s in sections][:40], "links": links})

    def probe_empty_graph(self, ctx):
        text, _ = export(mg.ModuleGraph())
        ctx.check(read_html(text) == [], "sections in an empty graph")

    def probe_growing_graph(self, ctx):
        write_files(ctx, {"a.py": "import b", "b.py": "", "c.py": "import b, d.e", "d/__init__.py": "", "d/e.py": ""})
        gr = new_graph()
        for n in ("a", "c", "a", "zz"):
            gr.add_module(n)
            for _ in range(2):
                bad = html_differences(export(gr)[0], Desc(gr))
                ctx.check(not bad, "after %s: %s" % (n, bad))

    def probe_big_graph(self, ctx):
        gr = mg.ModuleGraph()
        nodes = [mg.MissingModule("n%d" % i) for i in range(150)]
        for n in nodes:
            gr.add_node(n)
        gr.add_root(nodes[0])
        for i in range(1, 150):
            gr.add_edge(nodes[i // 2], nodes[i], mg.DependencyInfo(False, True, False, None))
            gr.add_edge(nodes[i], nodes[(i * 7) % 150], mg.DependencyInfo(True, True, False, None))
        bad = html_differences(export(gr)[0], Desc(gr))
        ctx.check(not bad, str(bad[:4]))


CHECK = C28()
