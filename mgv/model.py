"""
Reference model: the graph that a world must give.  Works on the statement
trees only; written from the documented behaviour, independent of the code.
"""
from .world import EXTERNAL, EXTERNAL_GLOBALS

DEFAULT = (False, True, False, None)
MODULE_KINDS = {"SourceModule", "BytecodeModule", "ExtensionModule", "BuiltinModule", "FrozenModule", "InvalidModule"}


class Node:
    __slots__ = ("name", "cls", "globals", "target", "maybe", "mod", "init")

    def __init__(self, name, cls, globals=(), target=None, mod=None):
        self.name, self.cls, self.globals, self.target = name, cls, set(globals), target
        self.maybe = set()
        self.mod = mod


class Model:
    def __init__(self, world, implies=None, excludes=(), hooks=None):
        self.w = world
        self.lazy = {}
        for k, v in (implies or {}).items():
            self.lazy[k] = v           # ("list", [...]) / ("alias", x) / ("virtual", x)
        for n in excludes:
            self.lazy[n] = None
        self.lazy["__main__"] = None
        self.nodes = {}
        self.edges = {}
        self.roots = set()
        self.why = {}
        self.missing_calls = []
        self.plain = set()
        self.used = 0
        self.asked = {}        # name -> who asked for it, or for something below it
        self.provided = {}     # names that a missing hook supplies: ("new", class) or ("node", name)
        self.supplied = set()

    # --- building blocks

    def edge(self, a, b, dep, why=None):
        self.edges.setdefault((a, b), set()).add(dep)
        self.why.setdefault((a, b), []).append((dep, why))

    def add(self, node):
        assert node.name not in self.nodes, node.name
        self.nodes[node.name] = node
        return node

    def exists(self, name):
        return name in self.w.mods or name in EXTERNAL

    def load(self, name, importer=None):
        """find or load"""
        self.ask(name, importer)
        if name in self.nodes:
            return self.nodes[name]
        parent = name.rpartition(".")[0]
        pnode = None
        node = None
        if parent:
            pnode = self.load(parent, importer)
            if name in self.nodes:       # can happen with cyclic imports
                self.edge(name, parent, DEFAULT, "parent")
                return self.nodes[name]
            if pnode.cls == "MissingModule":
                node = self.missing(name, importer)
            elif pnode.cls == "ExcludedModule":
                node = self.add(Node(name, "ExcludedModule"))
        if node is None:
            node = self.implied(name, importer)
        if node is None:
            node = self.real(name, importer)
        if parent:
            self.edge(name, parent, DEFAULT, "parent")
        return node

    def ask(self, name, importer):
        while name:
            self.asked.setdefault(name, set()).add(importer)
            name = name.rpartition(".")[0]

    def missing(self, name, importer):
        self.missing_calls.append((importer, name))
        if name in self.provided:
            self.supplied.add(name)
            kind, what = self.provided[name]
            return self.add(Node(name, what)) if kind == "new" else self.nodes[what]
        return self.add(Node(name, "MissingModule"))

    def implied(self, name, importer):
        if name not in self.lazy:
            return None
        v = self.lazy.pop(name)
        if v is None:
            return self.add(Node(name, "ExcludedModule"))
        self.used += 1
        kind, val = v
        if kind in ("alias", "virtual"):
            node = self.add(Node(name, "AliasNode" if kind == "alias" else "VirtualNode", target=val))
            other = self.load(val, name)
            self.edge(name, other.name, DEFAULT, kind)
            return node
        node = self.load(name, importer)
        for ref in val:
            other = self.load(ref, name)
            self.edge(name, other.name, DEFAULT, "implied")
        return node

    def importable_parent(self, name):
        """Can the import system find submodules of this name?"""
        m = self.w.mods.get(name)
        return m is not None and m.is_pkg

    def real(self, name, importer):
        parent = name.rpartition(".")[0]
        m = self.w.mods.get(name)
        if m is None and name in EXTERNAL:
            return self.add(Node(name, EXTERNAL[name], EXTERNAL_GLOBALS.get(name, ())))
        if m is None or (parent and not self.importable_parent(parent)):
            return self.missing(name, importer)
        if m.kind == "nspkg":
            return self.add(Node(name, "NamespacePackage", mod=m))
        cls = {"source": "SourceModule", "bytecode": "BytecodeModule", "ext": "ExtensionModule",
               "invalid": "InvalidModule"}[m.kind]
        node = self.add(Node(name, "Package" if m.pkg else cls, m.static_globals(), mod=m))
        self.process(node, m)
        return node

    # --- imports

    def process(self, node, m):
        for rec in m.records():
            self.record(node, m, rec)

    def absolute(self, node, m, level, mod):
        if node.cls == "Script":
            return None
        parts = node.name.split(".")
        drop = level - 1 if m.is_pkg else level
        if drop >= len(parts):
            return None
        base = ".".join(parts[: len(parts) - drop])
        return base + "." + mod if mod else base

    def dep(self, m, rec, fromlist, asname):
        if m.kind == "bytecode":
            return (rec.ctx.fn, not rec.ctx.fn, fromlist, None)
        return (rec.ctx.optional, not rec.ctx.fn, fromlist, asname)

    def record(self, node, m, rec):
        if rec.level:
            name = self.absolute(node, m, rec.level, rec.mod)
            if name is None:
                bad = "." * rec.level + rec.mod
                if bad not in self.nodes:
                    self.add(Node(bad, "InvalidRelativeImport"))
                self.edge(node.name, bad, self.dep(m, rec, False, None), rec)
                return
        else:
            name = rec.mod
        target = self.load(name, node.name)
        asname = rec.asname if rec.kind == "import" else None
        self.edge(node.name, target.name, self.dep(m, rec, False, asname), rec)
        if rec.kind == "import":
            if asname is None or m.kind == "bytecode":
                self.plain.add((node.name, name))
            return
        if target.cls == "AliasNode":
            target = self.load(target.target, target.name)
        if rec.kind == "star":
            if target.cls in MODULE_KINDS or target.cls == "Package":
                node.globals |= target.globals
            return
        if target.cls not in MODULE_KINDS and target.cls not in ("Package", "NamespacePackage"):
            return
        for nm, a in rec.names:
            dep = self.dep(m, rec, True, a)
            if nm in target.globals:
                hit = None
                for (s, d), deps in self.edges.items():
                    if s == target.name and (any(x[3] == nm for x in deps) or (d == nm and (s, nm) in self.plain)):
                        hit = d
                        break
                if hit is not None:
                    self.edge(node.name, hit, dep, rec)
                    continue
                if target.cls in MODULE_KINDS:
                    continue
            elif target.cls in MODULE_KINDS:
                continue
            sub = target.name + "." + nm
            if sub not in self.nodes and nm in target.globals and not self.would_exist(sub):
                self.ask(sub, node.name)
                self.missing_calls.append((node.name, sub))
                continue
            subnode = self.load(sub, node.name)
            if subnode.cls == "MissingModule" and target.cls == "Package" and nm in target.globals:
                continue
            self.edge(sub, target.name, DEFAULT, "parent")
            self.edge(node.name, sub, dep, rec)

    def would_exist(self, sub):
        if (sub in self.lazy and sub not in self.nodes) or sub in self.provided:
            return True
        parent = sub.rpartition(".")[0]
        return sub in self.w.mods and self.importable_parent(parent)

    # --- operations

    def add_module(self, name):
        node = self.load(name)
        self.roots.add(node.name)
        return node

    def add_script(self, path, m):
        node = self.add(Node(path, "Script", mod=m))
        self.roots.add(path)
        self.process(node, m)

    def hook_import(self, source, name):
        node = self.load(name, source)
        self.edge(source, node.name, DEFAULT, "hook")

    def reachable(self, roots=None):
        out = {}
        for (a, b) in self.edges:
            out.setdefault(a, []).append(b)
        seen = set()
        todo = list(self.roots if roots is None else roots)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo.extend(out.get(n, ()))
        return seen

    def snapshot(self, roots=None):
        r = self.reachable(roots)
        return {
            "roots": sorted(self.roots if roots is None else roots),
            "nodes": {n: self.nodes[n].cls for n in r},
            "edges": {k: set(v) for k, v in self.edges.items() if k[0] in r},
        }

    def import_package(self, source, name, extras=True):
        """extras: also what the documentation leaves open (namespace packages, p.__init__)"""
        node = self.load(name, None)
        self.edge(source, node.name, DEFAULT, "hook")
        if node.cls != "Package" or self.w.entries[node.mod.entry].endswith(".zip"):
            return
        if extras and node.mod.kind in ("source", "invalid"):
            # the file __init__.py imported as a module of its own
            init = node.name + ".__init__"
            if init not in self.nodes:
                self.add(Node(init, "SourceModule" if node.mod.kind == "source" else "InvalidModule", node.mod.static_globals(), mod=node.mod))
                self.edge(init, node.name, DEFAULT, "parent")
                for rec in node.mod.records():
                    self.record_init(init, node, rec)
            self.edge(node.name, init, DEFAULT, "hook")
        for child in self.w.children(node.name):
            m = self.w.mods[child]
            if m.entry != node.mod.entry or not child.rpartition(".")[2].isidentifier():
                continue
            if m.pkg:
                self.import_package(node.name, child, extras)
            elif m.kind == "nspkg":
                if extras:
                    sub = self.load(child, None)
                    self.edge(node.name, sub.name, DEFAULT, "hook")
            elif m.kind in ("source", "invalid") and m.suffix in (None, ".py"):
                sub = self.load(child, node.name)
                self.edge(node.name, sub.name, DEFAULT, "hook")

    def record_init(self, init, node, rec):
        before = {k: set(v) for k, v in self.edges.items() if k[0] == node.name}
        whys = {k: list(v) for k, v in self.why.items() if k[0] == node.name}
        for k in before:
            del self.edges[k]
        g = set(node.globals)
        self.record(node, node.mod, rec)
        node.globals = g
        for k in [k for k in self.edges if k[0] == node.name]:
            for d in self.edges.pop(k):
                self.edge(init, k[1], d, rec)
            self.why.pop(k, None)
        self.edges.update(before)
        self.why.update(whys)
