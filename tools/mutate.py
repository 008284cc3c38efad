"""Mutation sweep: python3-vt tools/mutate.py OUT.jsonl SRC CHECK[,CHECK...] [--only-func NAME] [--procs N]

Every single-point AST mutant of SRC (path below /repo) is put into a scratch copy of the repository
and the checks run against it (MC_REPO); one line of OUT per mutant: killed by which check, or survived.
A development aid: no check uses it.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult],
       ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Mult],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.MatMult: []}
SWAPNAME = {"min": "max", "max": "min", "any": "all", "all": "any", "argmax": "argmin", "issubset": "issuperset",
            "predecessors": "successors", "successors": "predecessors", "append": None, "intersection": "union",
            "union": "intersection", "vstack": "hstack", "hstack": "vstack", "ones": "zeros", "zeros": "ones"}
IDENT = {"sorted", "deepcopy", "copy", "list", "tuple", "set", "abs", "reversed", "flatten", "ravel"}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
    # skip annotations
    skip = set()
    for n in nodes:
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip |= {id(m) for m in ast.walk(a)}
        if isinstance(n, ast.Raise):        # messages
            skip |= {id(m) for m in ast.walk(n)} - {id(n)}
    func = {}
    def mark(n, name):
        for c in ast.iter_child_nodes(n):
            nm = name
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                nm = (name + "." if name else "") + c.name
            func[id(c)] = nm
            mark(c, nm)
    mark(tree, "")
    out = []

    def emit(i, what, fn):
        t = copy.deepcopy(tree)
        ns = list(ast.walk(t))
        fn(ns[i], t)
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, "m", "exec")
        except Exception:       # pylint: disable=broad-except
            return
        n = nodes[i]
        seg = (ast.get_source_segment(src, n) or "")[:160]
        out.append({"line": getattr(n, "lineno", 0), "func": func.get(id(n), ""), "what": what, "seg": seg, "src": s})

    def replace(t, old, new):
        for p in ast.walk(t):
            for f, v in ast.iter_fields(p):
                if v is old:
                    setattr(p, f, new)
                    return
                if isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is old:
                            v[k] = new
                            return

    for i, n in enumerate(nodes):
        if id(n) in doc or id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for alt in CMP.get(type(op), []):
                    emit(i, "cmp->%s" % alt.__name__, lambda m, t, k=k, alt=alt: m.ops.__setitem__(k, alt()))
        elif isinstance(n, ast.BoolOp):
            alt = ast.And if isinstance(n.op, ast.Or) else ast.Or
            emit(i, "boolop", lambda m, t, alt=alt: setattr(m, "op", alt()))
            for k in range(len(n.values)):
                emit(i, "drop operand %d" % k, lambda m, t, k=k: m.values.pop(k) and
                     (replace(t, m, m.values[0]) if len(m.values) == 1 else None))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for alt in BIN.get(type(n.op), []):
                emit(i, "binop->%s" % alt.__name__, lambda m, t, alt=alt: setattr(m, "op", alt()))
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                emit(i, "left only", lambda m, t: replace(t, m, m.left))
                emit(i, "right only", lambda m, t: replace(t, m, m.right))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            emit(i, "drop unary", lambda m, t: replace(t, m, m.operand))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                emit(i, "bool", lambda m, t, v=v: setattr(m, "value", not v))
            elif isinstance(v, (int, float)):
                emit(i, "const+1", lambda m, t, v=v: setattr(m, "value", v + 1))
                if v:
                    emit(i, "const->0", lambda m, t: setattr(m, "value", 0))
            elif isinstance(v, str) and v:
                emit(i, "str", lambda m, t, v=v: setattr(m, "value", v + "X"))
            elif v is None and False:
                pass
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            emit(i, "test->True" if not isinstance(n, ast.While) else "while->once", lambda m, t: setattr(m, "test", ast.Constant(True)) if not isinstance(m, ast.While) else setattr(m, "body", m.body + [ast.Break()]))
            emit(i, "test->False", lambda m, t: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, (ast.For,)):
            emit(i, "for->once", lambda m, t: setattr(m, "body", m.body + [ast.Break()]))
            emit(i, "for skip first", lambda m, t: setattr(m, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())))
        elif isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                emit(i, "drop comp if", lambda m, t, k=k: m.ifs.pop(k))
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if SWAPNAME.get(name):
                emit(i, "%s->%s" % (name, SWAPNAME[name]), lambda m, t, a=SWAPNAME[name]: setattr(
                    m.func, "attr" if isinstance(m.func, ast.Attribute) else "id", a))
            if name in IDENT:
                if n.args:
                    emit(i, "%s(x)->x" % name, lambda m, t: replace(t, m, m.args[0]))
                elif isinstance(f, ast.Attribute):
                    emit(i, "x.%s()->x" % name, lambda m, t: replace(t, m, m.func.value))
            if len(n.args) >= 2:
                emit(i, "swap args", lambda m, t: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
            for k in range(len(n.keywords)):
                emit(i, "drop kw %s" % n.keywords[k].arg, lambda m, t, k=k: m.keywords.pop(k))
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            emit(i, "swap tuple", lambda m, t: m.elts.reverse())
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            emit(i, "return None", lambda m, t: setattr(m, "value", ast.Constant(None)))
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            emit(i, "drop .T", lambda m, t: replace(t, m, m.value))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)) and func.get(id(n)):
            emit(i, "delete stmt", lambda m, t: replace(t, m, ast.Pass()))
    return out


def main():
    out, src, checks = sys.argv[1:4]
    procs = int(os.environ.get("PROCS", "8"))
    only = sys.argv[sys.argv.index("--only-func") + 1] if "--only-func" in sys.argv else None
    lines = None
    if "--redo" in sys.argv:        # re-run the survivors of an earlier OUT
        prev = [json.loads(l) for l in open(sys.argv[sys.argv.index("--redo") + 1])]
        lines = {(p["line"], p["what"], p["seg"]) for p in prev if p["src"] == src and not p["killed"]}
    text = open(os.path.join("/repo", src)).read()
    ms = mutants(text)
    if only:
        ms = [m for m in ms if only in m["func"]]
    if lines is not None:
        ms = [m for m in ms if (m["line"], m["what"], m["seg"]) in lines]
    print(src, len(ms), "mutants", flush=True)
    base = tempfile.mkdtemp(prefix="mut-")
    verif = os.path.join(base, "verif")
    shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(".git", "evidence", "replays", "seeded"))
    pool = []
    for k in range(procs):
        d = os.path.join(base, "r%d" % k)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "docs", "*.pyc"))
        v = os.path.join(base, "v%d" % k)
        shutil.copytree(verif, v)
        pool.append((d, v))
    fh = open(out, "a")

    def run(m):
        d, v = pool.pop()
        try:
            with open(os.path.join(d, src), "w") as f:
                f.write(m["src"])
            killed, log = None, ""
            for c in checks.split(","):
                env = dict(os.environ, MC_REPO=d, MC_JOBS="1", MC_BUDGET_S="1500", VERIF_TIER="quick")
                try:
                    p = subprocess.run([os.path.join(v, "check"), c], env=env, capture_output=True, text=True, timeout=1600)
                    if p.returncode:
                        killed, log = c, (p.stdout + p.stderr)[:300]
                        if p.returncode != 1:
                            killed = "ERR-" + c
                            log = (p.stdout + p.stderr)[-1200:]
                        break
                    if "NOT-EXPLORED" in p.stdout:
                        log += p.stdout[:300]
                except subprocess.TimeoutExpired:
                    killed = "TIMEOUT-" + c
                    break
            r = {"src": src, "line": m["line"], "func": m["func"], "what": m["what"], "seg": m["seg"],
                 "killed": killed, "log": log}
            fh.write(json.dumps(r) + "\n")
            fh.flush()
        finally:
            shutil.copyfile(os.path.join("/repo", src), os.path.join(d, src))
            pool.append((d, v))

    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(run, ms))
    shutil.rmtree(base)
    rs = [json.loads(l) for l in open(out)]
    print(len(rs), "done,", sum(not r["killed"] for r in rs), "survived")


if __name__ == "__main__":
    main()
