"""Random worlds."""
import re

from .stmts import Bind, Block, From, Import, Nester, Raw, Star, Style, PASS
from .world import EXT, EXTERNAL, EXTERNAL_GLOBALS, Mod, World

TOPS = ["alpha", "alphab", "alpha_", "beta", "be", "bet", "gamma", "mod_a", "mod", "modx", "x1", "x11", "pkg", "pkg_a",
        "pkgs", "zeta", "_under", "Upper", "d\u00e9lta", "\u03bbmb", "a", "aa", "lib2", "naïve", "main_", "src_", "test_x"]
SUBS = ["sub", "s1", "s2", "s11", "util", "utils", "core", "core_", "_impl", "json", "os", "sys", "types", "errno", "init",
        "test", "\u00fcber", "data", "v1", "v10", "abc", "io", "main", "sub_sub", "S1", "keyword", "__main__", "collections"]


class G:
    """A generated world with the bookkeeping the checks need."""

    def __init__(self):
        self.world = None
        self.order = []
        self.roots = []
        self.script_order = []


def own_name(n):
    return re.fullmatch(r"(G|g|_h)\d+", n)


def gen_world(rng, ntops=(2, 6), maxsubs=4, depth=3, acyclic=True, layered=None, star=True, reexport=True, missing=True,
              invalid=True, bytecode=True, ext=True, nspkg=True, nentries=None, zips=False, scripts=(0, 2),
              nest=True, maxdepth=4, run=False, externals=True, weird=1.0, relative=True, badrel=True, nimports=(0, 5),
              fromsub=True, selfimports=True, dunder_main=True, sametop=True, multi=True, kinds=None, subs=None, tops=None,
              forms=(0.35, 0.7, 0.87, 0.97), asnames=0.35, pblock=0.4, fromn=3, pmissing=0.2, shuffle=True, ndefs=(0, 1, 2, 3),
              mix=(0.72, 0.78, 0.84, 0.92, 0.97)):
    # forms: cumulative shares of 'import', 'from X import names', 'from parent import child', star
    # mix: cumulative shares of world imports, ancestor imports, externals, missing names, bad relative imports
    # acyclic: names that only work out in a certain processing order may be used
    if layered is None:
        layered = acyclic
    g = G()
    if nentries is None:
        nentries = rng.choice([1, 1, 2, 3])
    zz = [i for i in range(nentries) if zips and rng.random() < 0.4]
    w = World(rng, nentries, zz)
    w.weird = weird
    g.world = w
    names = list(tops or TOPS)
    rng.shuffle(names)
    counter = [0]

    def uniq(prefix):
        counter[0] += 1
        return "%s%d" % (prefix, counter[0])

    # --- layout
    order = g.order

    def kind_for(pkg):
        c = ["source"] * 12
        if bytecode:
            c += ["bytecode"] * 2
        if ext:
            c += ["ext"]
        if invalid:
            c += ["invalid"]
        return rng.choice(c)

    def make(name, level, entry):
        zipped = w.entries[entry].endswith(".zip")
        k = rng.random()
        if level < depth and k < (0.45 if level == 0 else 0.3):
            if nspkg and rng.random() < 0.2:
                m = Mod(name, "nspkg", False, entry=entry)
            else:
                kd = kind_for(True)
                if zipped and kd in ("ext", "invalid"):
                    kd = "source"
                m = Mod(name, kd, True, entry=entry)
            w.add(m)
            order.append(name)
            pool = list(subs or SUBS)
            rng.shuffle(pool)
            if sametop and rng.random() < 0.3:
                pool.insert(0, rng.choice(names[:8]))
            kids = []
            for c in pool[: rng.randint(0 if m.kind != "nspkg" else 1, maxsubs)]:
                if c not in kids:
                    kids.append(c)
            for c in kids:
                e = entry
                if m.kind == "nspkg" and rng.random() < 0.5:
                    # a portion in another search path entry (below namespace packages only)
                    if all(w.mods[p].kind == "nspkg" for p in prefixes(name)):
                        e = rng.randrange(nentries)
                make(name + "." + c, level + 1, e)
        else:
            kd = kind_for(False)
            if zipped and kd in ("ext", "invalid"):
                kd = "source"
            m = w.add(Mod(name, kd, False, entry=entry))
            if kd == "ext":
                m.extsuffix = rng.choice(EXT)
            order.append(name)

    for i in range(rng.randint(*ntops)):
        make(names[i], 0, rng.randrange(nentries))

    pos = {n: i for i, n in enumerate(order)}
    ident = {}       # names under which a module imported whole modules
    selfnames = {}   # names asked from the module by itself or its descendants
    nester = Nester(rng, maxdepth=maxdepth, run=run, pblock=pblock) if nest else None

    for i in range(rng.randint(*scripts) if scripts else 0):
        fn = rng.choice(["s%d.py", "bin/run%d", "my script%d.py", "my-script%d.pyw", "x%d.\u00e9.py"]) % i
        w.add_script(fn, [])
        g.script_order.append(fn)

    modlist = [(fn, w.scripts[fn]) for fn in g.script_order] + [(n, w.mods[n]) for n in order]

    def exports(t):
        """names one could ask from module t"""
        m = w.mods.get(t)
        if m is None:
            return list(EXTERNAL_GLOBALS.get(t, ()))
        if m.kind not in ("source", "bytecode"):
            return []
        return list(m.names)

    # own globals first
    for name, m in modlist:
        m.names = []
        m.leaves = []
        if m.kind not in ("source", "bytecode"):
            continue
        for _ in range(rng.choice(ndefs)):
            n = uniq(rng.choice(["G", "g", "_h"]))
            m.leaves.append(Bind(n, rng.randrange(5)))
            m.names.append(n)
        if rng.random() < 0.1:
            kids = w.children(name)
            if kids:
                n = rng.choice(kids).rpartition(".")[2]
                m.leaves.append(Bind(n))
                selfnames.setdefault(name, set()).add(n)

    # later modules first: what they export is known when they are used
    for name, m in reversed(modlist):
        isscript = name in w.scripts
        if m.kind not in ("source", "bytecode"):
            continue
        mypos = -1 if isscript else pos[name]
        anc = set(prefixes(name)) if not isscript else set()
        myident = ident.setdefault(name, set())
        myself = selfnames.setdefault(name, set())
        leaves = m.leaves

        def asname(p=None):
            p = asnames if p is None else p
            return uniq("as_") if rng.random() < p else None

        def nodef():
            return rng.random() < 0.4

        def plain(t):
            a = asname()
            if m.kind == "bytecode" and t in myself:
                t = "atexit"   # 'as' names are not in the bytecode
            if m.kind == "bytecode" and "." not in t:
                myident.add(t)
            if a is None and "." not in t:
                if t in myself:
                    a = uniq("as_")
                else:
                    myident.add(t)
            if a:
                myident.add(a)
                m.names.append(a)
            elif "." not in t:
                m.names.append(t)
            return (t, a)

        def relname(t):
            """(level, mod) for target t or None"""
            if isscript or not relative:
                return None
            parts = name.split(".")
            base = parts if m.is_pkg else parts[:-1]
            tp = t.split(".")
            if not base or tp[0] != base[0]:
                return None
            opts = []
            for lvl in range(1, len(base) + 1):
                b = base[: len(base) - lvl + 1]
                if tp[: len(b)] == b:
                    opts.append((lvl, ".".join(tp[len(b):])))
            return rng.choice(opts) if opts else None

        def frm(t, nms, **kw):
            r = relname(t) if rng.random() < 0.6 else None
            if r is not None:
                return From(r[0], r[1], nms, nodef=nodef())
            return From(0, t, nms, nodef=nodef())

        def targets():
            if layered:
                c = [t for t in order[mypos + 1:]]
            else:
                c = list(order)
            return [t for t in c if t not in anc and t != name]

        cand = targets()
        hist = []
        for _ in range(rng.randint(*nimports)):
            k = rng.random()
            if k < mix[0] and cand:
                t = rng.choice(hist) if hist and multi and rng.random() < 0.25 else rng.choice(cand)
                hist.append(t)
                f = rng.random()
                tm = w.mods[t]
                if f < forms[0]:
                    items = [plain(t)]
                    while rng.random() < 0.2:
                        items.append(plain(rng.choice(cand)))
                    leaves.append(Import(*items, nodef=nodef()))
                elif f < forms[1]:
                    nms = []
                    ex = exports(t) if (acyclic and reexport) else [
                        n for n in exports(t) if own_name(n)]
                    # own and re-exported names
                    for n in rng.sample(ex, min(len(ex), rng.randrange(fromn))):
                        if not acyclic and not any(isinstance(l, Bind) and l.name == n for l in getattr(tm, "leaves", ())):
                            continue
                        nms.append(n)
                    if fromsub:
                        kids = [c.rpartition(".")[2] for c in w.children(t)]
                        if not acyclic:
                            # whether the parent has processed its own imports depends on the order
                            kids = [c for c in kids if c not in ident.get(t, ())]
                            selfnames.setdefault(t, set()).update(kids)
                        for n in rng.sample(kids, min(len(kids), rng.randrange(fromn))):
                            nms.append(n)
                    if missing and rng.random() < pmissing:
                        nms.append(uniq("nosuch"))
                    if not nms:
                        nms.append(uniq("nosuch") if missing else None)
                    nms = [n for n in nms if n]
                    if not nms:
                        leaves.append(Import(plain(t)))
                        continue
                    out = []
                    for n in dict.fromkeys(nms):
                        a = asname(0.3)
                        if a:
                            myident.add(a)
                        m.names.append(a or n)
                        out.append((n, a))
                        if rng.random() < 0.04:
                            a = uniq("as_")
                            myident.add(a)
                            m.names.append(a)
                            out.append((n, a))
                    leaves.append(frm(t, out))
                elif f < forms[2] and "." in t and fromsub:
                    # from parent import tail
                    par, _, tail = t.rpartition(".")
                    inside = par == name or par in anc
                    if inside or not acyclic:
                        if tail in ident.get(par, ()) or (par == name and tail in myident):
                            leaves.append(Import(plain(t)))
                            continue
                        selfnames.setdefault(par, set()).add(tail)
                    elif acyclic and pos[par] <= mypos:
                        leaves.append(Import(plain(t)))
                        continue
                    a = asname(0.3)
                    if a:
                        myident.add(a)
                    m.names.append(a or tail)
                    leaves.append(frm(par, [(tail, a)]))
                elif f < forms[3] and star and acyclic:
                    r = relname(t) if rng.random() < 0.5 else None
                    leaves.append(Star(*(r or (0, t))))
                    m.names.extend(exports(t))
                else:
                    leaves.append(Import(plain(t)))
            elif k < mix[1] and anc:
                # something from an ancestor that does not depend on processing order
                p = rng.choice(sorted(anc))
                pm = w.mods[p]
                own = [l.name for l in getattr(pm, "leaves", ()) if isinstance(l, Bind) and own_name(l.name)]
                if own and rng.random() < 0.7:
                    leaves.append(frm(p, [(rng.choice(own), asname(0.2))]))
                else:
                    leaves.append(Import(plain(p)))
            elif k < mix[2] and externals:
                t = rng.choice(sorted(EXTERNAL))
                if t == "__future__":
                    t = "errno"
                if t in EXTERNAL_GLOBALS and rng.random() < 0.5:
                    leaves.append(From(0, t, [(rng.choice(sorted(EXTERNAL_GLOBALS[t])), asname(0.3))]))
                else:
                    leaves.append(Import(plain(t), nodef=nodef()))
            elif k < mix[3] and missing:
                f = rng.randrange(5)
                nope = rng.choice(["nope", "nope2", "no.pe", "nope.sub", "nope.sub.deep"])
                if f == 0:
                    leaves.append(Import(nope, nodef=nodef()))
                elif f == 1:
                    leaves.append(From(0, nope, [(uniq("n"), asname())], nodef=nodef()))
                elif f == 2 and cand:
                    t = rng.choice(cand)
                    leaves.append(Import((t + "." + rng.choice(["nosub", "nosub.deeper"]), asname())))
                elif f == 3:
                    leaves.append(Import(("errno.nosub", asname())))
                elif star:
                    leaves.append(Star(0, nope))
            elif k < mix[4] and badrel:
                lvl = rng.randint(0, 2) + (1 if isscript else len(name.split(".")) + (1 if m.is_pkg else 0))
                mod = rng.choice(["", "x", "alpha", "sub.deep"])
                leaves.append(From(lvl, mod, [(uniq("r"), asname())], nodef=nodef()))
            elif selfimports and not isscript:
                leaves.append(Import(name) if rng.random() < 0.5 or not dunder_main else Import(plain("__main__")))
                if "." not in name and isinstance(leaves[-1], Import) and leaves[-1].items[0][0] == name:
                    if name in myself:
                        leaves.pop()
                    else:
                        myident.add(name)

        rng.shuffle(leaves)
        m.tree = nester.tree(leaves) if nester else list(leaves)

    # --- roots
    cands = list(g.script_order)
    allr = order + (["nope"] if missing else [])
    nr = rng.randint(1, 3)
    roots = [("script", s) for s in cands if rng.random() < 0.8]
    if not roots or rng.random() < 0.7:
        for i in range(nr):
            n = rng.choice(order[: max(1, len(order) // 2)] if rng.random() < 0.6 else allr)
            if ("module", n) not in roots:
                roots.append(("module", n))
    rng.shuffle(roots)
    g.roots = roots
    return g


def prefixes(name):
    parts = name.split(".")
    return [".".join(parts[:i]) for i in range(1, len(parts))]


def size_sig(exp):
    """What makes two worlds different for counting purposes."""
    return (len(exp["nodes"]), len(exp["edges"]), sorted(exp["nodes"].values()),
            sorted((str(v) for v in exp["edges"].values())))
