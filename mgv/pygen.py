"""
Random Python source text with all kinds of bindings and uses of names.

The text is only required to compile, it is never run.
"""

BUILTINS = ["len", "print", "__import__", "__file__", "__name__", "__doc__", "super", "open", "int", "Exception", "__loader__", "__builtins__"]


class Gen:
    def __init__(self, r, imports=(), fromnames=None, generics=False, stars=()):
        self.r = r
        self.imports = list(imports)           # module names to import
        self.fromnames = dict(fromnames or {}) # module -> names
        self.stars = list(stars)
        self.nostar = 0
        self.incls = False
        self.aug_read = set()
        self.incomp = 0
        self.scope = "module"
        self.comp_must, self.comp_may = set(), set()
        self.generics = generics
        self.n = 0
        self.lines = []
        self.listed = set()      # raw names of module level from-lists
        self.star_used = []
        self.pool = ["n%d" % i for i in range(30)] + ["_p%d" % i for i in range(5)] + ["\u00e9%d" % i for i in range(3)]

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def name(self):
        return self.r.choice(self.pool)

    def readable(self):
        n = self.r.choice(self.pool + BUILTINS)
        if self.incomp:
            # (symbol tables do not tell about comprehensions that are inlined)
            (self.comp_must if self.scope == "module" else self.comp_may).add(n)
        return n

    # --- expressions

    def expr(self, d=0, walrus=True, asyn=False):
        r = self.r
        k = r.randrange(20 if d < 3 else 5)
        if self.incls and k in (9, 10):
            # inlined in the code of the class
            k = 7
        e = lambda: self.expr(d + 1, walrus, asyn)
        if k < 3:
            return self.readable()
        if k == 3:
            return str(r.randrange(2000))
        if k == 4:
            return repr("s%d" % r.randrange(50))
        if k == 5:
            return "%s(%s)" % (self.readable(), e())
        if k == 6:
            return "%s.%s" % (e() if r.random() < 0.5 else self.readable(), self.name())
        if k == 7:
            return "(%s %s %s)" % (self.readable(), r.choice(["+", "and", "or", "<", "in", "is not", "@"]), e())
        if k == 8:
            v = self.fresh("lv")
            return "(lambda %s=%s: (%s, %s))" % (v, e(), v, self.expr(d + 1, False))
        if k in (9, 10):
            self.incomp += 1
            try:
                return self.comprehension(k, d)
            finally:
                self.incomp -= 1
        if k == 11:
            v = self.fresh("cv")
            return "(%s for %s in %s)" % (self.expr(d + 1, False), v, self.expr(d + 1, False))
        if k == 12 and walrus:
            return "(%s := %s)" % (self.name(), e())
        if k == 13:
            return "f'{%s}{%s!r:>{%s}}'" % (self.readable(), self.readable(), self.readable())
        if k == 14:
            return "(%s if %s else %s)" % (e(), self.cond(walrus), e())
        if k == 15:
            return "{%s: %s, **%s}" % (e(), e(), self.readable())
        if k == 16:
            return "[*%s, %s]" % (self.readable(), e())
        if k == 17:
            return "%s[%s:%s]" % (self.readable(), e(), e())
        if k == 18:
            return "(not %s)" % e()
        return "(%s, %s)" % (e(), e())

    def comprehension(self, k, d):
        r = self.r
        if k == 9:
            v = self.fresh("cv")
            cond = (" if %s" % self.cond(False)) if r.random() < 0.4 else ""
            return "[%s for %s in %s%s]" % ((v if r.random() < 0.5 else self.expr(d + 1, False)), v, self.expr(d + 1, False), cond)
        if k == 10:
            v = self.fresh("cv")
            return "{%s: %s for %s in %s}" % (v, self.expr(d + 1, False), v, self.expr(d + 1, False))

    def cond(self, walrus=True):
        """An expression that the compiler cannot evaluate."""
        r = self.r
        k = r.randrange(4)
        if k == 0:
            return "%s(%s)" % (self.readable(), self.expr(2, walrus))
        if k == 1:
            return "not %s" % self.readable()
        if k == 2:
            return "%s %s %s" % (self.readable(), r.choice(["<", "in", "is"]), self.expr(2, walrus))
        return self.readable()

    # --- statements

    def imp(self, scope):
        r = self.r
        k = r.random()
        if self.stars and scope == "module" and k < 0.2:
            m = r.choice(self.stars)
            self.star_used.append(m)
            return "from %s import *" % m
        if k < 0.5 or not self.fromnames:
            if not self.imports:
                return "pass"
            out = []
            for _ in range(r.choice([1, 1, 2])):
                m = r.choice(self.imports)
                out.append(m + (" as " + self.name() if r.random() < 0.4 else ""))
            return "import " + ", ".join(out)
        m = r.choice(sorted(self.fromnames))
        names = r.sample(self.fromnames[m], min(len(self.fromnames[m]), r.randint(1, 3)))
        if scope == "module":
            self.listed.update(names)
        return "from %s import %s" % (m, ", ".join(n + (" as " + self.name() if r.random() < 0.4 else "") for n in names))

    def body(self, ind, depth, scope, n=None, asyn=False, params=(), loop=False):
        saved = self.incls, self.scope
        for _ in range(n or self.r.randint(1, 4)):
            self.incls, self.scope = scope == "class", scope
            self.stmt(ind, depth, scope, asyn, params, loop)
        self.incls, self.scope = saved

    def stmt(self, ind, depth, scope, asyn, params, loop):
        r = self.r
        L = lambda s: self.lines.append(ind + s)
        sub = ind + "    "
        e = self.expr
        k = r.randrange(34 if depth < 4 else 15)
        if k == 0:
            L("%s = %s" % (self.name(), e()))
        elif k == 1:
            L("%s, (%s, *%s) = %s" % (self.name(), self.name(), self.name(), e()))
        elif k == 2:
            # (the symbol table does not note that this reads the name)
            n = self.fresh("ag")
            L("%s = 1" % n)
            L("%s += %s" % (n, e()))
            if scope == "module":
                self.aug_read.add(n)
        elif k == 3:
            # the annotation of a local variable is not evaluated
            L("%s: %s = %s" % (self.name(), self.readable() if scope == "module" else "'x'", e()))
        elif k == 4:
            n = self.name()
            L("%s = 1" % n)
            L("del %s" % n)
        elif k == 5:
            L(e())
        elif k == 6:
            L("%s.%s = %s" % (self.readable(), self.name(), e()))
        elif k == 7:
            L("%s[%s] = %s" % (self.readable(), e(), e()))
        elif k in (8, 9, 10, 11):
            L(self.imp(scope))
        elif k == 12:
            L("assert %s, %s" % (self.readable(), e()))
        elif k == 13:
            if scope in ("function",):
                L("if %s: return %s" % (self.readable(), e()) if r.random() < 0.5 and not self.nostar and not asyn else "yield_ = " + e())
            else:
                L("pass")
        elif k == 14:
            L("%s = yield_ = %s" % (self.name(), e()))
        elif k == 15:
            L("if %s:" % self.readable())
            self.body(sub, depth + 1, scope, None, asyn, params, loop)
            if r.random() < 0.5:
                L("elif %s:" % self.cond())
                self.body(sub, depth + 1, scope, None, asyn, params, loop)
            if r.random() < 0.5:
                L("else:")
                self.body(sub, depth + 1, scope, None, asyn, params, loop)
        elif k == 16:
            L("for %s in %s:" % (r.choice([self.name(), "%s, %s" % (self.name(), self.name())]), e()))
            self.body(sub, depth + 1, scope, None, asyn, params, True)
            if r.random() < 0.3:
                L("else:")
                self.body(sub, depth + 1, scope, None, asyn, params, loop)
        elif k == 17:
            L("while %s:" % self.readable())
            self.body(sub, depth + 1, scope, None, asyn, params, True)
        elif k == 18:
            L("with %s as %s, %s:" % (e(), self.name(), self.readable()))
            self.body(sub, depth + 1, scope, None, asyn, params, loop)
        elif k in (19, 20):
            star = "*" if r.random() < 0.25 else ""
            L("try:")
            self.body(sub, depth + 1, scope, None, asyn, params, loop)
            L("except%s %s as %s:" % (star, self.readable(), self.name()))
            self.nostar += bool(star)   # no return here
            self.body(sub, depth + 1, scope, None, asyn, params, False if star else loop)
            self.nostar -= bool(star)
            if r.random() < 0.3:
                L("else:")
                self.body(sub, depth + 1, scope, None, asyn, params, loop)
            if r.random() < 0.3:
                L("finally:")
                self.body(sub, depth + 1, scope, None, asyn, params, False)
        elif k == 21:
            L("match %s:" % self.readable())
            L("    case [%s, *%s]:" % (self.fresh("mv"), self.fresh("mv")))
            self.body(sub + "    ", depth + 1, scope, None, asyn, params, loop)
            L("    case {'a': %s, **%s} if %s:" % (self.fresh("mv"), self.fresh("mv"), self.readable()))
            self.body(sub + "    ", depth + 1, scope, None, asyn, params, loop)
            L("    case %s.attr | %s(x=1):" % (self.readable(), self.readable()))
            self.body(sub + "    ", depth + 1, scope, None, asyn, params, loop)
            L("    case 3 as %s:" % self.fresh("mv"))
            self.body(sub + "    ", depth + 1, scope, None, asyn, params, loop)
        elif k in (22, 23, 24, 25, 26, 27):
            self.function(ind, depth, scope)
        elif k in (28, 29, 30):
            self.klass(ind, depth, scope)
        elif k == 31:
            L("with %s:" % e())
            self.body(sub, depth + 1, scope, None, asyn, params, loop)
        elif k == 32 and loop:
            L("if %s:" % self.readable())
            L("    " + r.choice(["break", "continue"]))
        else:
            L("raise_ = %s" % e())

    lastfn = None

    def function(self, ind, depth, scope):
        r = self.r
        sub = ind + "    "
        a = r.random() < 0.2
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            self.lines.append(ind + "@" + (self.readable() if r.random() < 0.5 else "%s(%s)" % (self.readable(), self.expr(2))))
        p = [self.fresh("ar") for _ in range(3)]
        sig = r.choice([lambda: "", lambda: p[0], lambda: "%s, %s=%s" % (p[0], p[1], self.expr(2)), lambda: "*%s, **%s" % (p[0], p[1]),
                        lambda: "%s, /, *, %s=%s" % (p[0], p[1], self.expr(2)), lambda: "%s: %s, *%s" % (p[0], self.readable(), p[1])])()
        ret = " -> %s" % self.readable() if r.random() < 0.2 else ""
        gen = "[T]" if self.generics and r.random() < 0.4 else ""
        self.lines.append("%s%sdef %s%s(%s)%s:" % (ind, "async " if a else "", self.r.choice([self.fresh("f"), self.name()]), gen, sig, ret))
        saved, ns = self.lastfn, self.nostar
        self.lastfn, self.nostar = sub, 0
        if r.random() < 0.35:
            self.lines.append(sub + "global " + ", ".join(r.sample(self.pool, r.randint(1, 3))))
        if r.random() < 0.2:
            self.lines.append(sub + "'a docstring'")
        self.body(sub, depth + 1, "function", None, a)
        if a and r.random() < 0.5:
            self.lines.append(sub + "async with %s as %s:" % (self.readable(), self.fresh("aw")))
            self.lines.append(sub + "    " + self.imp("function"))
            self.lines.append(sub + "async for %s in %s:" % (self.fresh("af"), self.readable()))
            self.lines.append(sub + "    " + self.imp("function"))
        if not a and r.random() < 0.2:
            self.lines.append(sub + "yield %s" % self.readable())
        self.lastfn, self.nostar = saved, ns

    def klass(self, ind, depth, scope):
        r = self.r
        sub = ind + "    "
        if r.random() < 0.2:
            self.lines.append(ind + "@" + self.readable())
        bases = r.choice(["", "()", "(%s)" % self.readable(), "(%s, metaclass=%s)" % (self.readable(), self.readable()), "(*%s)" % self.readable()])
        gen = "[T]" if self.generics == "all" and r.random() < 0.3 and bases in ("", "()") else ""
        self.lines.append("%sclass %s%s%s:" % (ind, self.r.choice([self.fresh("C"), self.name()]), gen, bases))
        saved = self.lastfn
        self.lastfn = None
        if r.random() < 0.25:
            self.lines.append(sub + "global " + ", ".join(r.sample(self.pool, r.randint(1, 2))))
        if r.random() < 0.2:
            self.lines.append(sub + "'a docstring'")
        self.body(sub, depth + 1, "class")
        self.lastfn = saved

    def module(self, n=None):
        """Text that compiles."""
        while True:
            self.lines = []
            self.listed, self.star_used, self.aug_read, self.comp_must, self.comp_may = set(), [], set(), set(), set()
            if self.r.random() < 0.2:
                self.lines.append("'the docstring'")
            self.body("", 0, "module", n or self.r.randint(3, 10))
            text = "\n".join(self.lines) + "\n"
            try:
                compile(text, "x", "exec", dont_inherit=True)
            except (SyntaxError, SystemError):
                continue
            return text
