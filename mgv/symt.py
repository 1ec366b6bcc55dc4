"""
Which global names a source text binds and reads, according to the symbol
tables of the interpreter's own compiler front end.
"""
import symtable


def names_of(text, filename="x"):
    """(bound, must_read, may_read)"""
    top = symtable.symtable(text, filename, "exec")
    bound, must, may = set(), set(), set()
    comps = ("listcomp", "setcomp", "dictcomp", "genexpr", "<listcomp>", "<setcomp>", "<dictcomp>", "<genexpr>")

    def visit(t, inclass):
        kind = str(t.get_type())
        kind = kind.rpartition(".")[2].lower() if "." in kind else kind
        iscls = kind == "class"
        comp = kind == "function" and t.get_name() in comps
        for s in t.get_symbols():
            n = s.get_name()
            if kind == "module":
                if s.is_assigned() or s.is_imported():
                    bound.add(n)
                if s.is_referenced():
                    must.add(n)
                elif not s.is_assigned() and not s.is_imported():
                    may.add(n)      # used in a comprehension that became part of the module
            else:
                if s.is_declared_global() and (s.is_assigned() or s.is_imported()):
                    bound.add(n)
                if s.is_referenced() and s.is_global():
                    if iscls:
                        if s.is_declared_global():
                            may.add(n)
                    elif kind != "function" or (comp and inclass):
                        may.add(n)
                    else:
                        must.add(n)
        for c in t.get_children():
            visit(c, iscls or (comp and inclass))

    visit(top, False)
    return bound, must, may | must
