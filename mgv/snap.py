"""
Observation of a graph: plain data taken through the public API.
"""
import modulegraph2 as mg


def dep_tuple(d):
    return (bool(d.is_optional), bool(d.is_global), bool(d.in_fromlist), d.imported_as)


def edge_key(d):
    return tuple(str(x or "") for x in d)


def cls_of(node):
    return type(node).__name__


def rel(p, root):
    if p is None:
        return None
    p = str(p)
    if root and (p == root or p.startswith(root + "/")):
        return "<R>" + p[len(root):]
    return p


def node_info(n, root=None):
    d = {"cls": cls_of(n), "name": rel(n.name, root) if hasattr(n, "name") else None}
    if isinstance(n, mg.PyPIDistribution):
        return d
    d["file"] = rel(n.filename, root)
    d["dist"] = n.distribution.name if n.distribution is not None else None
    if isinstance(n, (mg.Module, mg.Package)):
        d["gw"] = sorted(map(str, n.globals_written))
        d["gr"] = sorted(map(str, n.globals_read))
    if isinstance(n, mg.Module):
        d["code"] = n.code is not None
    if isinstance(n, (mg.Package, mg.NamespacePackage)):
        d["search"] = [rel(p, root) for p in n.search_path]
        d["data"] = bool(n.has_data_files)
    if isinstance(n, mg.Package):
        d["ns"] = n.namespace_type
        d["init"] = node_info(n.init_module, root)
    if isinstance(n, mg.AliasNode):
        d["actual"] = str(n.actual_module)
    if isinstance(n, mg.VirtualNode):
        d["provider"] = str(n.providing_module)
    return d


def observe(graph, root=None, info=False, everything=False, from_roots=None):
    """
    {"roots", "nodes": {id: class or info}, "edges": {(a, b): set of tuples}}
    limited to what is reachable from the roots (unless everything).
    """
    nodes = {n.identifier: n for n in graph.nodes()}
    out = {}
    edges = {}
    for a, b, deps in graph.edges():
        out.setdefault(a.identifier, []).append(b.identifier)
        edges[(a.identifier, b.identifier)] = {dep_tuple(d) for d in deps}
    roots = sorted(n.identifier for n in graph.roots()) if from_roots is None else sorted(from_roots)
    seen = set()
    todo = list(roots)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo.extend(out.get(n, ()))
    if everything:
        seen = set(nodes)
    f = (lambda n: node_info(n, root)) if info else cls_of
    R = (lambda s: rel(s, root)) if root else (lambda s: s)
    return {
        "roots": [R(x) for x in roots],
        "nodes": {R(n): f(nodes[n]) for n in seen},
        "edges": {(R(a), R(b)): v for (a, b), v in edges.items() if a in seen},
    }


class D(tuple):
    """One difference: (kind, what, expected, got)."""

    @property
    def kind(self):
        return self[0]

    def __str__(self):
        kind, what, e, a = self
        show = lambda deps: sorted(deps, key=edge_key) if isinstance(deps, (set, frozenset)) else deps
        cls = lambda n: n if isinstance(n, str) else n["cls"]
        if kind == "extra-node":
            return "unexpected node %s (%s)" % (what, cls(a))
        if kind == "lost-node":
            return "node %s (%s) is not reachable" % (what, cls(e))
        if kind == "class":
            return "node %s is a %s, expected %s" % (what, a, e)
        if kind == "info":
            return "node %s differs, (expected, got): %r" % (
                what, {k: (e.get(k), a.get(k)) for k in sorted(set(e) | set(a)) if e.get(k) != a.get(k)})
        if kind == "extra-edge":
            return "unexpected edge %s -> %s %s" % (what[0], what[1], show(a))
        if kind == "lost-edge":
            return "no edge %s -> %s, expected %s" % (what[0], what[1], show(e))
        if kind == "attrs":
            return "edge %s -> %s has %s, expected %s" % (what[0], what[1], show(a), show(e))
        return "roots are %s, expected %s" % (a, e)


def diff(exp, act, attrs=True):
    """Differences between two observations, as a list of D."""
    res = []
    for n in sorted(set(exp["nodes"]) | set(act["nodes"])):
        e, a = exp["nodes"].get(n), act["nodes"].get(n)
        if e is None:
            res.append(D(("extra-node", n, None, a)))
        elif a is None:
            res.append(D(("lost-node", n, e, None)))
        elif e != a:
            if isinstance(e, str):
                res.append(D(("class", n, e, a)))
            else:
                if e["cls"] != a["cls"]:
                    res.append(D(("class", n, e["cls"], a["cls"])))
                res.append(D(("info", n, e, a)))
    for k in sorted(set(exp["edges"]) | set(act["edges"])):
        e, a = exp["edges"].get(k), act["edges"].get(k)
        if e is None:
            res.append(D(("extra-edge", k, None, a)))
        elif a is None:
            res.append(D(("lost-edge", k, e, None)))
        elif attrs and e != a:
            res.append(D(("attrs", k, e, a)))
    if exp.get("roots") is not None and sorted(exp["roots"]) != sorted(act["roots"]):
        res.append(D(("roots", None, exp["roots"], act["roots"])))
    return res


def text(diffs, limit=6):
    res = [str(d) for d in diffs[:limit]]
    if len(diffs) > limit:
        res.append("... %d more" % (len(diffs) - limit))
    return "; ".join(res)
