"""
Statement trees: the generated programs as data, their rendering to source text
and the facts (imports with their context, names bound) that follow from the
tree.  Nothing here parses Python.
"""


class Import:
    simple = True

    def __init__(self, *items, nodef=False):
        self.items = [(i, None) if isinstance(i, str) else tuple(i) for i in items]
        self.nodef = nodef

    def text(self, st):
        sp = st.space()
        return "import" + st.space(True) + (",%s" % sp).join(
            st.dots(n) + ("%sas%s%s" % (st.space(True), st.space(True), a) if a else "")
            for n, a in self.items)


class From:
    simple = True

    def __init__(self, level, mod, names, nodef=False):
        self.level, self.mod = level, mod
        self.names = [(i, None) if isinstance(i, str) else tuple(i) for i in names]
        self.nodef = nodef

    def text(self, st):
        dots = "." * self.level
        if self.level and st.r.random() < 0.1 * st.weird:
            dots = " ".join(dots) + " "
        names = [n + ("%sas%s%s" % (st.space(True), st.space(True), a) if a else "")
                 for n, a in self.names]
        k = st.r.random()
        if k < 0.25 * st.weird:
            body = "(%s)" % (", ".join(names) + ("," if st.r.random() < 0.5 else ""))
        elif k < 0.4 * st.weird:
            ind = "      "
            body = "(" + st.nl + ind + ("," + st.nl + ind).join(names) + \
                (", # import nothing" if st.r.random() < 0.5 else "") + st.nl + "   )"
        elif k < 0.5 * st.weird and len(names) > 1:
            body = (", \\" + st.nl + "  ").join(names)
        else:
            body = ", ".join(names)
        sep = "" if self.level and not self.mod and st.r.random() < 0 else " "
        return "from " + dots + (st.dots(self.mod) if self.mod else "") + sep + "import " + body


class Star:
    simple = True
    nodef = True

    def __init__(self, level, mod):
        self.level, self.mod = level, mod

    def text(self, st):
        return "from " + "." * self.level + self.mod + " import " + (
            "(*)" if False else "*")


class Bind:
    """Bind a name at the place where the statement stands (runnable code)."""
    simple = True

    def __init__(self, name, form=0, nodef=True):
        self.name, self.form, self.nodef = name, form, nodef

    def text(self, st):
        n = self.name
        return ["%s = 1", "%s: int = 2", "(%s := 3)", "%s = _x_ = 4", "[%s, *_y_] = 1, 2"][self.form] % n

    def extra(self):
        return {3: ("_x_",), 4: ("_y_",)}.get(self.form, ())


class Raw:
    """Any other simple statement or expression without effect on imports."""
    nodef = False

    def __init__(self, txt, simple=True, nodef=False):
        self.txt, self.simple, self.nodef = txt, simple, nodef

    def text(self, st):
        return self.txt


PASS = Raw("pass")


class Block:
    simple = False

    def __init__(self, kind, parts, name=None, oneline=False):
        # parts: list of (part, [statements])
        self.kind, self.parts, self.name, self.oneline = kind, parts, name, oneline

    @property
    def nodef(self):
        return any(s.nodef for _, b in self.parts for s in b)


class Ctx:
    __slots__ = ("fn", "if_", "try_", "cls")

    def __init__(self, fn=False, if_=False, try_=False, cls=False):
        self.fn, self.if_, self.try_, self.cls = fn, if_, try_, cls

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Ctx(**d)

    @property
    def optional(self):
        return self.fn or self.if_ or self.try_


def part_ctx(ctx, kind, part):
    """The context of the statements in one part of a block."""
    if kind in ("def", "asyncdef"):
        return ctx.but(fn=True, cls=False)
    if kind == "class":
        return ctx.but(cls=True)
    if kind == "if":
        return ctx.but(if_=True)
    if kind in ("try", "trystar"):
        return ctx if part == "finally" else ctx.but(try_=True)
    return ctx  # for, while, with, match, async with, async for


def walk(stmts, ctx=None):
    """Yield (statement, context) for all simple statements in source order; blocks too."""
    ctx = ctx or Ctx()
    for s in stmts:
        yield s, ctx
        if isinstance(s, Block):
            for part, body in s.parts:
                yield from walk(body, part_ctx(ctx, s.kind, part))


class ImportRec:
    """One import as a fact: kind 'import' (one per item), 'from' or 'star'."""
    __slots__ = ("kind", "level", "mod", "names", "asname", "ctx")

    def __init__(self, kind, level, mod, names, asname, ctx):
        self.kind, self.level, self.mod, self.names, self.asname, self.ctx = (
            kind, level, mod, names, asname, ctx)

    def __repr__(self):
        return "<%s %s%s %s %s>" % (self.kind, "." * self.level, self.mod, self.names, self.asname)


def imports_of(stmts):
    for s, ctx in walk(stmts):
        if isinstance(s, Import):
            for n, a in s.items:
                yield ImportRec("import", 0, n, [], a, ctx)
        elif isinstance(s, From):
            yield ImportRec("from", s.level, s.mod, list(s.names), None, ctx)
        elif isinstance(s, Star):
            yield ImportRec("star", s.level, s.mod, [], None, ctx)


def bound_names(stmts):
    """Names bound at module level by the tree (incl. raw from-list names)."""
    res = set()
    for s, ctx in walk(stmts):
        if ctx.fn or ctx.cls:
            continue
        if isinstance(s, Bind):
            res.add(s.name)
            res.update(s.extra())
        elif isinstance(s, Import):
            for n, a in s.items:
                res.add(a or n.partition(".")[0])
        elif isinstance(s, From):
            for n, a in s.names:
                res.add(n)
                res.add(a or n)
        elif isinstance(s, Block):
            if s.kind in ("def", "asyncdef", "class"):
                res.add(s.name)
            elif s.kind == "for":
                res.add("_i_")
            elif s.kind == "with":
                res.add("_w_")
    return res


class Style:
    """How a tree is written down."""

    def __init__(self, rng, weird=1.0):
        self.r = rng
        self.weird = weird
        self.indent = rng.choice(["    ", "  ", "\t", " "]) if rng.random() < 0.3 * weird else "    "
        self.nl = rng.choice(["\r\n", "\r"]) if rng.random() < 0.15 * weird else "\n"
        self.encoding = None
        self.bom = False
        if rng.random() < 0.15 * weird:
            k = rng.randrange(5)
            if k == 0:
                self.bom = True
            else:
                self.encoding = ["latin-1", "iso-8859-15", "cp1252", "utf-8"][k - 1]
        self.final_newline = rng.random() > 0.1 * weird

    def space(self, need=False):
        if self.r.random() < 0.05 * self.weird:
            return self.r.choice(["  ", "\t", " \\" + self.nl + " "])
        return " "

    def dots(self, name):
        if "." in name and self.r.random() < 0.04 * self.weird:
            return name.replace(".", " . ")
        return name

    # ---

    def render(self, stmts, header=()):
        self.lines = []
        r = self.r
        if self.encoding:
            self.lines.append(r.choice(["# -*- coding: %s -*-", "# vim: set fileencoding=%s :", "#coding=%s"]) % self.encoding)
        self.lines.extend(header)
        self.body(stmts, "")
        txt = self.nl.join(self.lines)
        if self.final_newline:
            txt += self.nl
        try:
            data = txt.encode(self.encoding or "utf-8")
        except UnicodeEncodeError:
            # an identifier that this encoding does not have
            data = txt.partition(self.nl)[2].encode("utf-8")
        if self.bom:
            data = b"\xef\xbb\xbf" + data
        return data

    def noise(self, ind):
        r = self.r
        if r.random() < 0.12 * self.weird:
            k = r.randrange(8)
            L = self.lines.append
            if k == 0:
                L("")
            elif k == 1:
                L(ind + "# import commented_out")
            elif k == 2:
                L(ind + "'import in_a_string'")
            elif k == 3:
                L(ind + '"""')
                L("import in_a_docstring")
                L("from in_a_docstring import name")
                L('"""')
            elif k == 4:
                L(ind + "_ = 'from x import y'; _ = 1")
            elif k == 5:
                L(ind + "_ = [import_ for import_ in (1, 2)]")
            elif k == 6:
                L(ind + "_ = lambda import_=1: import_  # import z")
            else:
                L(ind + "\x0c")

    def body(self, stmts, ind):
        r = self.r
        if not stmts:
            stmts = [PASS]
        i = 0
        while i < len(stmts):
            s = stmts[i]
            self.noise(ind)
            if isinstance(s, Block):
                self.block(s, ind)
                i += 1
                continue
            txt = s.text(self)
            i += 1
            if s.simple:
                while i < len(stmts) and stmts[i].simple and r.random() < 0.08 * self.weird:
                    txt += r.choice(["; ", ";", " ; "]) + stmts[i].text(self)
                    i += 1
                if r.random() < 0.03 * self.weird:
                    txt += ";"
                if r.random() < 0.05 * self.weird:
                    txt += "  # import commented"
                self.lines.append(ind + txt)
            else:
                for ln in txt.split("\n"):
                    self.lines.append(ind + ln)

    def suite(self, head, stmts, ind, oneline):
        if oneline and stmts and all(s.simple for s in stmts):
            self.lines.append(ind + head + " " + "; ".join(s.text(self) for s in stmts))
        else:
            self.lines.append(ind + head)
            self.body(stmts, ind + self.indent)

    def block(self, b, ind):
        k, one = b.kind, b.oneline
        L = self.lines.append
        r = self.r
        for idx, (part, stmts) in enumerate(b.parts):
            if k == "if":
                head = {"body": r.choice(["if len(''):", "if len('a') == 1:", "if not len(''):"]),
                        "elif": r.choice(["elif len('') == 1:", "elif len('a'):"]), "else": "else:"}[part]
            elif k == "while":
                head = "while len(''):" if part == "body" else "else:"
            elif k == "for":
                head = "for _i_ in range(1):" if part == "body" else "else:"
            elif k == "with":
                head = r.choice(["with memoryview(b'') as _w_:", "with (memoryview(b''), memoryview(b'') as _w_):"])
            elif k == "try" or k == "trystar":
                star = "*" if k == "trystar" else ""
                head = {"body": "try:", "else": "else:", "finally": "finally:",
                        "except": "except%s %s:" % (star, r.choice(["ImportError", "Exception", "(ValueError, ImportError)"])),
                        "except2": "except%s %s:" % (star, r.choice(["KeyError", "OSError"])),
                        "bare": "except:"}[part]
            elif k == "match":
                if idx == 0:
                    L(ind + "match len('a'):")
                head = {"body": "case 1:", "case": r.choice(["case 2 | 3:", "case 5 if len(''):"]), "else": "case _:"}[part]
                self.suite(head, stmts, ind + self.indent, one)
                continue
            elif k == "def":
                if r.random() < 0.1:
                    L(ind + "@(lambda f: f)")
                head = "def %s(%s)%s:" % (b.name, r.choice(["", "", "*a, **k", "a=1, /, b=2, *, c=3"]),
                                          r.choice(["", "", " -> int"]))
            elif k == "asyncdef":
                head = "async def %s():" % b.name
            elif k == "class":
                if r.random() < 0.1:
                    L(ind + "@(lambda f: f)")
                head = "class %s%s:" % (b.name, r.choice(["", "()", "(object)", "(object, metaclass=type)"]))
            elif k == "asyncwith":
                head = "async with memoryview(b'') as _w_:"
            elif k == "asyncfor":
                head = "async for _i_ in range(1):" if part == "body" else "else:"
            else:
                raise AssertionError(k)
            self.suite(head, stmts, ind, one)


class Nester:
    """Places simple statements in random nestings of blocks."""

    def __init__(self, rng, maxdepth=4, pblock=0.45, run=False, kinds=None, dead=True):
        self.r, self.maxdepth, self.pblock, self.run = rng, maxdepth, pblock, run
        self.n = 0
        self.kinds = kinds

    def fresh(self, prefix):
        self.n += 1
        return "%s%d_" % (prefix, self.n)

    def tree(self, leaves, depth=0, infn=False, inasync=False, incls=False):
        r = self.r
        out, i = [], 0
        while i < len(leaves):
            if depth < self.maxdepth and r.random() < self.pblock:
                n = r.randint(1, min(4, len(leaves) - i))
                grp = leaves[i:i + n]
                i += n
                out.extend(self.block(grp, depth, infn, inasync))
            else:
                out.append(leaves[i])
                i += 1
        return out

    KINDS = ["if", "if", "try", "try", "trystar", "for", "while", "with", "match",
             "def", "def", "asyncdef", "class", "asyncwith", "asyncfor"]

    def block(self, grp, depth, infn, inasync):
        r = self.r
        kinds = list(self.kinds or self.KINDS)
        if any(s.nodef for s in grp):
            kinds = [k for k in kinds if k not in ("def", "asyncdef", "class")]
        if not inasync:
            kinds = [k for k in kinds if k not in ("asyncwith", "asyncfor")]
        if self.run:
            kinds = [k for k in kinds if k not in ("asyncdef",)]
        if not kinds:
            return grp
        k = r.choice(kinds)
        name = None
        if k == "if":
            parts = ["body"] + ["elif"] * r.choice([0, 0, 1, 2]) + ["else"] * r.randrange(2)
        elif k == "try":
            parts = ["body"]
            if r.random() < 0.85:
                parts += ["except"] + (["except2"] if r.random() < 0.3 else []) + (["bare"] if r.random() < 0.2 else [])
                if r.random() < 0.35:
                    parts.append("else")
                if r.random() < 0.4:
                    parts.append("finally")
            else:
                parts.append("finally")
        elif k == "trystar":
            parts = ["body", "except"] + (["except2"] if r.random() < 0.3 else [])
            if r.random() < 0.35:
                parts.append("else")
            if r.random() < 0.4:
                parts.append("finally")
        elif k in ("for", "while", "asyncfor"):
            parts = ["body"] + ["else"] * r.randrange(2)
        elif k == "match":
            parts = ["body"] + ["case"] * r.randrange(2) + ["else"] * r.randrange(2)
        else:
            parts = ["body"]
            if k in ("def", "asyncdef"):
                name = self.fresh("f")
            elif k == "class":
                name = self.fresh("c")
        bodies = [[] for _ in parts]
        for s in grp:
            bodies[r.randrange(len(parts))].append(s)
        infn2 = infn or k in ("def", "asyncdef")
        inasync2 = k == "asyncdef" or (inasync and k not in ("def", "class"))
        res = []
        for p, b in zip(parts, bodies):
            res.append((p, self.tree(b, depth + 1, infn2, inasync2)))
        blk = Block(k, res, name, oneline=r.random() < 0.15)
        out = [blk]
        if self.run and k == "def" and r.random() < 0.8:
            out.append(Raw("%s()" % name))
        return out
