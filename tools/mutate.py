#!/usr/bin/env python3
"""Mutation testing of the checks (development only, never part of a check).

mutate.py list                         number the mutants of /repo's library
mutate.py run OUT.jsonl JOBS [SCALE] [IDS or a:b:step ...]
    for each mutant: copy of the repository, checks at SCALE of their quick size
    one after another until one reports a violation.
Survivors are looked at by hand: equivalent, outside of the properties, or a gap.
"""
import ast, hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")

ORDER = {
    "_ast_tools": "C02 C03 C05 C37", "_bytecode_tools": "C05 C04", "_callback_list": "C20 C21",
    "_depinfo": "C03 C07", "_importinfo": "C03 C07 C08", "_distributions": "C17 C18 C19",
    "_dotbuilder": "C29", "_htmlbuilder": "C28", "__main__": "C30 C27", "_graphbuilder": "C11 C38 C12 C35 C14 C06",
    "_implies": "C16 C39 C35 C26", "_modulegraph": "C13 C07 C16 C22 C25 C19 C37 C09 C15", "_mypyc_support": "C34",
    "_nodes": "C11 C10", "_swig_support": "C33", "_utilities": "C06 C09 C10",
}
ALL = ["C%02d" % i for i in range(1, 40)]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is",
       ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}


def mutants():
    res = []
    d = os.path.join(REPO, "modulegraph2")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py") or fn == "__init__.py":
            continue
        src = open(os.path.join(d, fn), encoding="utf-8").read()
        tree = ast.parse(src)
        lines = src.split("\n")
        offs = [0]
        for ln in lines:
            offs.append(offs[-1] + len(ln.encode()) + 1)
        b = src.encode()

        def span(n):
            return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

        def txt(n):
            s, e = span(n)
            return b[s:e].decode()

        def add(n, new, kind):
            s, e = span(n)
            if b[s:e].decode() != new:
                res.append((fn, s, e, new, "%s:%d %s: %s -> %s" % (
                    fn, n.lineno, kind, " ".join(b[s:e].decode().split())[:60], " ".join(new.split())[:60])))

        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
                if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                    skip.add(n.body[0])
                    skip.add(n.body[0].value)
            if isinstance(n, (ast.FunctionDef,)):
                for x in [n.returns] + [a.annotation for a in n.args.args + n.args.kwonlyargs]:
                    if x is not None:
                        skip.update(ast.walk(x))
            if isinstance(n, ast.AnnAssign):
                skip.update(ast.walk(n.annotation))
            if isinstance(n, ast.JoinedStr):
                skip.update(ast.walk(n))
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert)):
                skip.update(ast.walk(n))
            if isinstance(n, ast.If) and "TYPE_CHECKING" in txt(n.test):
                skip.update(ast.walk(n))
            if isinstance(n, ast.Call) and txt(n.func) in ("cast", "TypeVar"):
                skip.update(ast.walk(n.args[0]))
        for n in ast.walk(tree):
            if n in skip:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                op = CMP[type(n.ops[0])]
                add(n, "(%s %s %s)" % (txt(n.left), op, txt(n.comparators[0])), "cmp")
            elif isinstance(n, ast.BoolOp):
                op = " and " if isinstance(n.op, ast.Or) else " or "
                add(n, "(" + op.join("(%s)" % txt(v) for v in n.values) + ")", "boolop")
                for v in n.values:
                    add(v, "True" if isinstance(n.op, ast.And) else "False", "drop operand")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, "bool(%s)" % txt(n.operand), "not")
            elif isinstance(n, ast.Constant):
                v = n.value
                if v is True or v is False:
                    add(n, str(not v), "const")
                elif isinstance(v, int):
                    add(n, str(v + 1), "const")
                elif isinstance(v, str) and len(v) < 60 and txt(n)[0] in "'\"":
                    add(n, repr(v + "x") if v else repr("x"), "string")
            elif isinstance(n, ast.IfExp):
                add(n.test, "True", "cond")
                add(n.test, "False", "cond")
            elif isinstance(n, (ast.If, ast.While)):
                if isinstance(n, ast.If):
                    add(n.test, "True", "cond")
                add(n.test, "False", "cond")
            elif isinstance(n, ast.Call):
                f = txt(n.func)
                if f in ("sorted", "reversed", "set", "frozenset", "tuple", "list") and len(n.args) == 1:
                    add(n, "list(%s)" % txt(n.args[0]), "call")
                elif len(n.args) == 1 and isinstance(n.func, ast.Attribute) is False and f not in ("len", "str", "isinstance", "iter", "next"):
                    pass
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                op = "-" if isinstance(n.op, ast.Add) else "+"
                if not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                    add(n, "(%s %s %s)" % (txt(n.left), op, txt(n.right)), "arith")
                add(n, txt(n.left), "drop right")
            if isinstance(n, ast.Return) and n.value is not None and txt(n.value) != "None":
                add(n.value, "None", "return")
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)):
                par_ok = not (isinstance(n, ast.Expr) and n in skip)
                if par_ok and not isinstance(n, ast.Assign):
                    add(n, "pass", "delete")
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                add(n.type, "ZeroDivisionError", "handler")
                if isinstance(n.type, ast.Tuple):
                    for i in range(len(n.type.elts)):
                        rest = [txt(x) for j, x in enumerate(n.type.elts) if j != i]
                        add(n.type, "(%s,)" % ", ".join(rest), "handler part")
            if isinstance(n, ast.For):
                add(n.iter, "list(%s)[:1]" % txt(n.iter), "first only")
                add(n.iter, "list(%s)[1:]" % txt(n.iter), "not first")
            if isinstance(n, ast.If) and n.orelse and not isinstance(n.orelse[0], ast.If):
                s = span(n.orelse[0])[0]
                e = span(n.orelse[-1])[1]
                res.append((fn, s, e, "pass", "%s:%d delete else" % (fn, n.lineno)))
    out, seen = [], set()
    for m in res:
        fn, s, e, new, d = m
        b = open(os.path.join(REPO, "modulegraph2", fn), "rb").read()
        nb = b[:s] + new.encode() + b[e:]
        h = hashlib.sha1(fn.encode() + nb).hexdigest()
        if h in seen:
            continue
        seen.add(h)
        try:
            compile(nb, fn, "exec")
        except SyntaxError:
            continue
        out.append((h[:10], fn, nb, d))
    out.sort(key=lambda t: hashlib.sha1(t[0].encode()).hexdigest())
    return out


def run_checks(slot, fn, order, scale, nfirst, jobs_per=1):
    log = []
    for i, c in enumerate(order):
        env = dict(os.environ, MGV_DEV_REPO=slot, MGV_WORKERS=str(jobs_per), MGV_FIRST="1", TMPDIR="/tmp")
        if i >= nfirst:
            env["MGV_NOPROBES"] = "1"
        try:
            p = subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), c, "--scale", str(scale if i < nfirst else scale / 2)],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
            rc, o = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, o = 99, "timeout"
        if rc == 1:
            m = [l for l in o.splitlines() if l.startswith("   case")]
            return c, rc, (m or [""])[0][:300], log
        if rc != 0:
            log.append((c, rc, o[-300:]))
    return None, 0, "", log


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        per = {}
        for h, fn, nb, d in ms:
            per[fn] = per.get(fn, 0) + 1
            if len(sys.argv) > 2:
                print(h, d)
        print(len(ms), per)
        return
    if sys.argv[1] == "apply":
        h, dst = sys.argv[2:4]
        for m in ms:
            if m[0] == h:
                open(os.path.join(dst, "modulegraph2", m[1]), "wb").write(m[2])
                print(m[3])
        return
    out, jobs, scale = sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    sel = sys.argv[5:]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    if sel and ":" in sel[0]:
        a = [int(x) if x else None for x in sel[0].split(":")]
        ms = ms[slice(*a)]
    elif sel:
        ms = [m for m in ms if m[0] in sel or m[1] in sel]
    ms = [m for m in ms if m[0] not in done]
    print(len(ms), "to run", flush=True)
    lock = threading.Lock()
    it = iter(ms)

    def work(i):
        slot = tempfile.mkdtemp(prefix="mgvmut", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", REPO + "/.", slot], check=True)
            while True:
                with lock:
                    m = next(it, None)
                if m is None:
                    return
                h, fn, nb, d = m
                orig = open(os.path.join(REPO, "modulegraph2", fn), "rb").read()
                open(os.path.join(slot, "modulegraph2", fn), "wb").write(nb)
                first = ORDER.get(fn[:-3], "").split()
                order = first + [c for c in ALL if c not in first]
                c, rc, msg, log = run_checks(slot, fn, order, scale, len(first))
                open(os.path.join(slot, "modulegraph2", fn), "wb").write(orig)
                with lock:
                    with open(out, "a") as fp:
                        fp.write(json.dumps({"id": h, "d": d, "by": c, "msg": msg, "log": log}) + "\n")
        finally:
            shutil.rmtree(slot, ignore_errors=True)

    ths = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
    [t.start() for t in ths]
    [t.join() for t in ths]


if __name__ == "__main__":
    main()
