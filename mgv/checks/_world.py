"""Base of the checks that compare a graph with the reference model."""
from ..build import activate, add_roots, model_for, new_graph
from ..check import Check
from ..gen import gen_world, size_sig
from ..snap import diff, observe, text


class WorldCheck(Check):
    options = {}
    kinds = None        # the differences that this property is about (None: all)
    info = False

    def make(self, ctx):
        return gen_world(ctx.rng, **self.opts(ctx))

    def opts(self, ctx):
        return dict(self.options)

    def implies(self, ctx, g):
        return None

    def excludes(self, ctx, g):
        return ()

    def relevant(self, d, ctx, g, mdl):
        return self.kinds is None or d.kind in self.kinds

    def case(self, ctx):
        g = self.make(ctx)
        w = g.world
        w.write(ctx.dir)
        activate(ctx, w)
        imp, exc = self.implies(ctx, g), self.excludes(ctx, g)
        mdl = model_for(w, g.roots, imp, exc)
        exp = mdl.snapshot()
        ctx.note(files=w.dump(), roots=g.roots, implies=imp, excludes=list(exc))
        gr = self.graph(ctx, imp, exc)
        add_roots(gr, w, g.roots)
        if self.after(ctx, g, gr, mdl):
            exp = mdl.snapshot()
        act = observe(gr)
        d = [x for x in diff(exp, act) if self.relevant(x, ctx, g, mdl)]
        ctx.count("nodes", len(act["nodes"]))
        ctx.count("edges", len(act["edges"]))
        ctx.count("imports", sum(len(m.records()) for m in w.mods.values()))
        ctx.nontrivial(self.is_nontrivial(exp, mdl))
        ctx.sig(size_sig(exp))
        ctx.check(not d, lambda: "the graph differs from what the program text implies: " + text(d),
                  differences=[str(x) for x in d[:40]])
        self.more(ctx, g, gr, mdl, exp, act)
        ctx.sample({"roots": g.roots, "files": w.dump(), "nodes": act["nodes"],
                    "edges": [[a, b, sorted(map(str, v))] for (a, b), v in act["edges"].items()]})

    def graph(self, ctx, imp, exc):
        return new_graph(implies=imp, excludes=exc)

    def after(self, ctx, g, gr, mdl):
        """More operations on the graph and the model; true if there were some."""

    def is_nontrivial(self, exp, mdl):
        return len(exp["edges"]) > 3

    def more(self, ctx, g, gr, mdl, exp, act):
        pass
