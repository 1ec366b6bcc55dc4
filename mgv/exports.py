"""Random graphs to write out, what they contain, and readers of the output formats."""
import importlib
import os
import pathlib
import re
from html.parser import HTMLParser

import modulegraph2 as mg

from .build import activate, add_roots, new_graph
from .gen import gen_world

HOSTILE = ['a"b', "a'b", "<b>x</b>", "a&b", "&lt;", "&amp;amp;", "a&#65;b", "a b", " lead", "a\\b", "a\\nb", "x\\", 'q\\"', "\\N", "a%20b", "%s", "#x", "a#b", "{r}", "[x]",
           "a,b", "a;b", "a->b", "a--b", "//c", "/*c*/", "-->", "<!--", "]]>", "</a>", "</HTML>", "<script>1</script>", "'\"><i>", "\u00e9t\u00e9", "\u65e5\u672c", "\U0001f600", "a=b",
           "graph", "node", "edge", "digraph", "subgraph", "strict", "1", "-1", "1a", "a:b", "a:n", "cluster_0", "A", "a", "$x", "{0}", "%-15s", "%", "a|b", "\u00a0", "\u2028x", "~"]

DEPS = [mg.DependencyInfo(o, g, f, a) for o in (True, False) for g in (True, False) for f in (True, False) for a in (None, "x", "y")]


class Desc:
    """The graph as seen through its public interface: the reachable part."""

    def __init__(self, gr):
        self.nodes = {n.identifier: n for n in gr.nodes()}
        out = {}
        self.edges = {}
        for a, b, deps in gr.edges():
            out.setdefault(a.identifier, []).append(b.identifier)
            self.edges[a.identifier, b.identifier] = set(deps)
        self.roots = {n.identifier for n in gr.roots()}
        seen, todo = set(), list(self.roots)
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                todo += out.get(n, ())
        self.reach = seen
        self.modules = {n for n in seen if isinstance(self.nodes[n], mg.BaseNode)}
        self.all_edges = self.edges
        self.edges = {k: v for k, v in self.edges.items() if k[0] in seen}


def dist(name, r):
    return mg.PyPIDistribution("/x/%s.dist-info" % name, name, "1", set(), set(), {})


def node_of(r, name, dists, others):
    d = r.choice(dists) if dists and r.random() < 0.4 else None
    fn = r.choice([None, pathlib.Path("/p/" + name.replace("/", "_") + ".py")])
    base = dict(name=name, loader=None, distribution=d, extension_attributes={}, filename=fn)
    code = dict(globals_written=set(), globals_read=set(), code=None)
    k = r.randrange(15)
    if k == 0:
        return mg.MissingModule(name)
    if k == 1:
        return mg.ExcludedModule(name)
    if k == 2:
        return mg.InvalidRelativeImport(name)
    if k == 3 and others:
        return mg.AliasNode(name, r.choice(others))
    if k == 4 and others:
        return mg.VirtualNode(name, r.choice(others))
    if k == 5:
        return mg.NamespacePackage(search_path=[], has_data_files=False, **base)
    if k in (6, 7):
        cls = r.choice([mg.Package, mg.Package, mg.FrozenPackage])
        init = mg.SourceModule(**base, **code)
        return cls(init_module=init, search_path=[], has_data_files=r.random() < 0.5, namespace_type=None, **base)
    cls = r.choice([mg.SourceModule, mg.SourceModule, mg.BytecodeModule, mg.ExtensionModule, mg.BuiltinModule, mg.FrozenModule, mg.InvalidModule])
    return cls(**base, **code)


def synthetic(ctx, newline=False):
    r = ctx.rng
    gr = mg.ModuleGraph(use_stdlib_implies=False, use_builtin_hooks=False)
    names = set()
    for _ in range(r.randint(1, 14)):
        n = r.choice(HOSTILE)
        if r.random() < 0.5:
            n = r.choice(["m", "pkg.", "a.b.", "dir/", ""]) + n + r.choice(["", ".sub", "2", "\\", '"', r.choice(HOSTILE)])
        names.add(n)
    if newline and r.random() < 0.3:
        names.add("line\nbreak")
    names = sorted(names)
    r.shuffle(names)
    dnames = sorted(set(r.choice(["Foo", "foo", "b-ar", 'q"d', "\u00fc", "x\\", "cluster"]) for _ in range(r.randrange(4))))
    dists = [dist(n, r) for n in dnames]
    if dists and r.random() < 0.2:
        # another object for the same distribution
        dists.append(dist(dists[0].name, r))
    nodes = []
    for n in names:
        if r.random() < 0.12:
            x = mg.Script(n, None)
            x.globals_written = x.globals_read = set()
        else:
            x = node_of(r, n, dists, nodes)
        gr.add_node(x)
        nodes.append(x)
    for d in {x.identifier: x for x in dists}.values():
        if r.random() < 0.5 and gr.find_node(d.identifier) is None:
            gr.add_node(d)
            nodes.append(d)
    for n in r.sample(nodes, r.randint(0 if r.random() < 0.05 else 1, min(3, len(nodes)))):
        gr.add_root(n)
    for _ in range(r.choice([0, len(nodes), 2 * len(nodes), 3 * len(nodes)])):
        a, b = r.choice(nodes), r.choice(nodes)
        for _ in range(r.choice([1, 1, 2, 3])):
            gr.add_edge(a, b, r.choice(DEPS))
    return gr


def from_world(ctx):
    r = ctx.rng
    g = gen_world(r, ntops=(2, 5), maxsubs=3, weird=0.2, zips=False, nimports=(0, 4), acyclic=False, star=False, reexport=False, nentries=r.choice([1, 2]))
    w = g.world
    w.write(ctx.dir)
    for i, t in enumerate([n for n in w.mods if "." not in n and w.mods[n].kind == "source"][: r.randrange(4)]):
        m = w.mods[t]
        root = os.path.join(ctx.dir, w.entries[m.entry])
        d = os.path.join(root, "D%d-1.dist-info" % i)
        os.makedirs(d)
        files = [m.relpath()] + [x.relpath() for n, x in w.mods.items() if n.startswith(t + ".") and x.entry == m.entry and x.kind != "nspkg"]
        for f, data in (("METADATA", "Name: %s\nVersion: 1\n" % r.choice(["D%d" % i, "D0", "d-%d" % i])), ("RECORD", "".join("%s,,\n" % x for x in files))):
            with open(os.path.join(d, f), "w", encoding="utf-8") as fp:
                fp.write(data)
    activate(ctx, w)
    scripts = []
    for _ in range(r.randrange(3)):
        p = os.path.join(ctx.dir, r.choice(HOSTILE).replace("/", "_"))
        if not os.path.exists(p):
            with open(p, "w", encoding="utf-8") as fp:
                fp.write("import %s\nimport errno\n" % r.choice(g.order))
            scripts.append(p)
    gr = new_graph(excludes=r.sample(g.order, 1) if r.random() < 0.3 else ())
    if r.random() < 0.2:
        gr.add_implies({r.choice(g.order): ["errno", r.choice(g.order)]})
    add_roots(gr, w, g.roots)
    for p in scripts:
        gr.add_script(p)
    if r.random() < 0.3:
        gr.add_distribution(mg.PyPIDistribution("<d>", "Dd", "1", set(), set(r.sample(g.order, 1)), {}))
    if r.random() < 0.3:
        root = r.choice(list(gr.roots()))
        gr.import_package(root, r.choice(g.order))
    if r.random() < 0.5:
        # nodes that are not reachable from the remaining roots
        for x in list(gr.roots())[1:]:
            if r.random() < 0.5:
                gr.remove_root(x)
    ctx.note(files=w.dump())
    return gr


def random_graph(ctx, newline=False):
    if ctx.rng.random() < 0.6:
        gr = synthetic(ctx, newline)
        ctx.count("synthetic")
    else:
        gr = from_world(ctx)
        ctx.count("worlds")
    ctx.note(nodes=[(type(n).__name__, n.identifier) for n in gr.nodes()], roots=[n.identifier for n in gr.roots()],
             edges=[(a.identifier, b.identifier, sorted(map(str, d))) for a, b, d in gr.edges()][:200])
    return gr


class Bad(Exception):
    """The output cannot be read."""


# --- HTML

class HTMLReader(HTMLParser):
    VOID = {"p", "br", "hr", "li"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.sections = []      # [anchor, heading, outgoing, incoming]
        self.stack = []
        self.tags = set()
        self.where = None
        self.link = None
        self.text = ""
        self.anchor = None

    def handle_starttag(self, tag, attrs):
        self.tags.add(tag)
        attrs = dict(attrs)
        anchor = attrs.get("name", attrs.get("id"))
        if anchor is not None and tag in ("a", "h2", "section", "div", "span"):
            self.sections.append([anchor, None, [], []])
            self.where = None
        if tag in ("h2", "title", "h1"):
            self.text = ""
        if tag == "a" and "href" in attrs:
            if self.link is not None:
                raise Bad("a link in a link")
            self.link = attrs["href"]
            self.text = ""
        for k in attrs:
            if k not in ("name", "href", "id", "class", "style"):
                raise Bad("attribute %s" % k)
        if tag not in self.VOID:
            self.stack.append(tag)

    def handle_endtag(self, tag):
        if tag in self.VOID:
            return
        if not self.stack or self.stack[-1] != tag:
            raise Bad("</%s> in %s" % (tag, self.stack))
        self.stack.pop()
        if tag == "h2":
            if not self.sections or self.sections[-1][1] is not None:
                raise Bad("heading %r is outside of a section" % self.text)
            self.sections[-1][1] = self.text
        elif tag == "a" and self.link is not None:
            if self.where is None:
                raise Bad("link %r is outside of a list" % self.link)
            self.sections[-1][2 if self.where == "out" else 3].append((self.link, self.text))
            self.link = None

    def handle_data(self, data):
        self.text += data
        if self.link is None and "h2" not in self.stack and "a" not in self.stack and "title" not in self.stack and "h1" not in self.stack:
            s = data.strip(" \n\t,")
            if s == "Depends on:":
                self.where = "out"
            elif s == "Used by:":
                self.where = "in"
            elif s:
                raise Bad("text %r" % data)

    def handle_comment(self, data):
        raise Bad("comment %r" % data)

    def handle_decl(self, decl):
        if decl.lower() != "doctype html":
            raise Bad("declaration %r" % decl)

    def handle_pi(self, data):
        raise Bad("processing instruction %r" % data)

    def unknown_decl(self, data):
        raise Bad("declaration %r" % data)


def read_html(text):
    p = HTMLReader()
    p.feed(text)
    p.close()
    if p.stack:
        raise Bad("unclosed %s" % p.stack)
    extra = p.tags - {"html", "head", "title", "body", "h1", "h2", "a", "p", "meta", "ul", "li", "br", "div", "section", "span"}
    if extra:
        raise Bad("tags %s" % extra)
    return p.sections


def html_differences(text, d):
    try:
        sections = read_html(text)
    except Bad as exc:
        return ["cannot be read: %s" % exc]
    res = []
    names = [s[0] for s in sections]
    if len(set(names)) != len(names):
        res.append("sections appear twice")
    if set(names) != d.modules:
        res.append("sections: extra %s, lost %s" % (sorted(set(names) - d.modules)[:4], sorted(d.modules - set(names))[:4]))
    if names != sorted(names):
        res.append("sections are not in order of name")
    for anchor, head, out, inc in sections:
        if anchor not in d.modules:
            continue
        n = d.nodes[anchor]
        if head != "%s %s" % (type(n).__name__, n.name):
            res.append("heading %r of %r" % (head, anchor))
        want_out = {("#" + b, d.nodes[b].name) for a, b in d.edges if a == anchor and b in d.modules}
        want_in = {("#" + a, d.nodes[a].name) for a, b in d.edges if b == anchor and a in d.modules}
        for what, got, want in (("depends on", out, want_out), ("used by", inc, want_in)):
            if len(set(got)) != len(got):
                res.append("%r: %s has a link twice" % (anchor, what))
            if set(got) != want:
                res.append("%r: %s: extra %s, lost %s" % (anchor, what, sorted(set(got) - want)[:4], sorted(want - set(got))[:4]))
    return res


# --- Graphviz

TOKEN = re.compile(r'''[ \t\r\n\f\v]+|//[^\n]*|/\*.*?\*/|(?P<edge>->|--)|(?P<punct>[{}\[\];,=:+])|"(?P<q>(?:\\.|[^"\\])*)"|(?P<num>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))|(?P<id>[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_\x80-\U0010ffff]*)''', re.S)
KEYWORDS = {"node", "edge", "graph", "digraph", "subgraph", "strict"}


def tokens(text):
    pos = 0
    while pos < len(text):
        if text[pos] == "#" and (pos == 0 or text[pos - 1] == "\n"):
            pos = (text + "\n").index("\n", pos)
            continue
        m = TOKEN.match(text, pos)
        if not m:
            raise Bad("at %r" % text[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k == "q":
            # the reader of Graphviz: \" is a quote, a backslash before the end of a line continues it
            v = re.sub(r'\\(.)', lambda x: {'"': '"', "\n": ""}.get(x.group(1), x.group(0)), m.group("q"), flags=re.S)
            yield "id", v, True
        elif k == "id":
            low = m.group("id").lower()
            yield ("kw", low, False) if low in KEYWORDS else ("id", m.group("id"), False)
        elif k == "num":
            yield "id", m.group("num"), False
        elif k:
            yield k, m.group(k), False


class DotReader:
    """Graphviz input of the form this library writes: nodes, edges, attributes and clusters."""

    def __init__(self, text):
        self.t = list(tokens(text)) + [("end", None, False)]
        self.i = 0
        self.nodes, self.edges, self.clusters = {}, {}, []
        self.declared = []
        self.take("kw", "digraph")
        if self.peek()[0] == "id":
            self.take("id")
        self.take("punct", "{")
        self.body(None)
        self.take("punct", "}")
        self.take("end")

    def peek(self, k=0):
        return self.t[self.i + k]

    def take(self, kind, value=None):
        t = self.peek()
        if t[0] != kind or (value is not None and t[1] != value):
            raise Bad("expected %s %s, found %r" % (kind, value or "", t))
        self.i += 1
        return t[1]

    def attrs(self):
        res = {}
        while self.peek()[:2] == ("punct", "["):
            self.take("punct", "[")
            while self.peek()[:2] != ("punct", "]"):
                k = self.take("id")
                self.take("punct", "=")
                res[k] = self.take("id")
                if self.peek()[:2] in (("punct", ","), ("punct", ";")):
                    self.i += 1
            self.take("punct", "]")
        return res

    def body(self, cluster):
        while self.peek()[:2] != ("punct", "}"):
            t = self.peek()
            if t[:2] == ("kw", "subgraph"):
                self.i += 1
                name = self.take("id")
                self.take("punct", "{")
                c = {"name": name, "nodes": [], "attrs": {}}
                self.clusters.append(c)
                self.body(c)
                self.take("punct", "}")
            elif t[0] == "id" and self.peek(1)[:2] == ("punct", "="):
                k = self.take("id")
                self.take("punct", "=")
                v = self.take("id")
                if cluster is not None:
                    cluster["attrs"][k] = v
            elif t[0] == "id":
                a = self.take("id")
                if self.peek()[0] == "edge":
                    if self.take("edge") != "->":
                        raise Bad("undirected edge")
                    b = self.take("id")
                    at = self.attrs()
                    if (a, b) in self.edges:
                        raise Bad("edge %r -> %r twice" % (a, b))
                    self.edges[a, b] = at
                    for n in (a, b):
                        self.nodes.setdefault(n, {})
                else:
                    at = self.attrs()
                    self.nodes.setdefault(a, {}).update(at)
                    if cluster is None:
                        self.declared.append(a)
                if cluster is not None:
                    cluster["nodes"].append(a)
            elif t[:2] == ("punct", ";"):
                self.i += 1
            elif t[0] == "kw" and t[1] in ("node", "edge", "graph"):
                self.i += 1
                self.attrs()
            else:
                raise Bad("found %r" % (t,))


def shown(name):
    """What Graphviz displays for the name of a node (escString), None when part of the name is not shown as is."""
    res = re.sub(r"\\(.)", lambda m: "\\" if m.group(1) == "\\" else "\0", name, flags=re.S)
    return res.replace("\\\0", "\0") if "\0" not in res else None


SHAPES = {"Script": "note", "Package": "folder", "SourceModule": "rectangle", "BytecodeModule": "rectangle", "ExtensionModule": "parallelogram",
          "BuiltinModule": "hexagon", "MissingModule": "rectangle"}


def dot_differences(text, d, unescape=shown):
    try:
        x = DotReader(text)
    except Bad as exc:
        return ["cannot be read: %s" % exc]
    res = []
    back = {n: unescape(n) for n in x.nodes}
    odd = [n for n, v in back.items() if v is None]
    if odd:
        res.append("names %s are not shown as they are" % odd[:4])
        return res
    declared = [back[n] for n in x.declared]
    if len(set(declared)) != len(declared):
        res.append("nodes are declared twice")
    if set(declared) != d.reach or set(back.values()) != d.reach:
        got = set(declared) | set(back.values())
        res.append("nodes: extra %s, lost %s, not declared %s" % (sorted(got - d.reach)[:4], sorted(d.reach - got)[:4], sorted(got - set(declared))[:4]))
        return res
    for n, at in x.nodes.items():
        node = d.nodes[back[n]]
        cls = type(node).__name__
        if cls in SHAPES and at.get("shape") != SHAPES[cls]:
            res.append("%s %r has the shape %s" % (cls, back[n], at.get("shape")))
        if (at.get("color") == "red") != (cls == "MissingModule"):
            res.append("%s %r has the color %s" % (cls, back[n], at.get("color")))
        root = back[n] in d.roots
        if (at.get("root") == "true") != root or (at.get("penwidth") == "2") != root:
            res.append("%r is %sa root and has the attributes %s" % (back[n], "" if root else "not ", at))
    edges = {(back[a], back[b]): at for (a, b), at in x.edges.items()}
    if set(edges) != set(d.edges):
        res.append("edges: extra %s, lost %s" % (sorted(set(edges) - set(d.edges))[:4], sorted(set(d.edges) - set(edges))[:4]))
        return res
    for k, at in edges.items():
        dashed = all(i.is_optional for i in d.edges[k])
        if (at.get("style") == "dashed") != dashed:
            res.append("edge %s is %s, all optional: %s" % (k, at, dashed))
    want = {}
    for n in d.modules:
        if d.nodes[n].distribution is not None:
            want.setdefault(d.nodes[n].distribution.name, set()).add(n)
    got = {}
    for c in x.clusters:
        label = unescape(c["attrs"].get("label", ""))
        if label in got:
            res.append("two clusters for %r" % label)
        if not c["name"].startswith("cluster"):
            res.append("the group %r is not a cluster" % label)
        got[label] = {back[n] for n in c["nodes"]}
        if len(got[label]) != len(c["nodes"]):
            res.append("a node is twice in cluster %r" % label)
    if len({c["name"] for c in x.clusters}) != len(x.clusters):
        res.append("two clusters have the same name")
    if got != want:
        res.append("clusters: %s, expected %s" % (got, want))
    return res
