"""Self-test of a check: changes of one construct each in the functions it analyses, and how many of them it reports.

The changed source is only ever parsed (like /repo itself), never run.  The outcome is information in the evidence of the
thorough tier; it never decides the check.
"""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
CMP = {ast.Lt: (ast.LtE, ast.Gt), ast.LtE: (ast.Lt, ast.Gt), ast.Gt: (ast.GtE, ast.Lt), ast.GtE: (ast.Gt, ast.Lt), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,), ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,),
       ast.In: (ast.NotIn,), ast.NotIn: (ast.In,)}
PAIRS = [("pos_begin", "pos_end"), ("vel_begin", "vel_end"), ("t_begin", "t_end"), ("next_state", "prev_state"), ("next_block", "prev_block"), ("state_A", "state_B"), ("x", "y"), ("min", "max"), ("sin", "cos"),
         ("vel_next", "target_vel"), ("vX", "vY"), ("append", "extend")]
OTHER = {a: b for p in PAIRS for a, b in (p, p[::-1])}


def variants(n):
    """(label, replacement source) of one node."""
    u = ast.unparse
    if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.left, ast.JoinedStr)):
            yield "operator", "(" + u(ast.BinOp(n.left, SWAP[type(n.op)](), n.right)) + ")"
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), ()):
            yield "comparison", "(" + u(ast.Compare(n.left, [o()], n.comparators)) + ")"
    elif isinstance(n, ast.BoolOp):
        yield "connective", "(" + u(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)) + ")"
        for k in range(len(n.values)):
            rest = n.values[:k] + n.values[k + 1:]
            yield "dropped condition", "(" + u(rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)) + ")"
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        yield "sign", "(" + u(n.operand) + ")"
    elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)):
        yield "constant", repr(not n.value) if isinstance(n.value, bool) else repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 2 or 1.0)
    elif isinstance(n, ast.IfExp):
        yield "branches", "(" + u(ast.IfExp(n.test, n.orelse, n.body)) + ")"
    elif isinstance(n, ast.Attribute) and n.attr in OTHER and isinstance(n.ctx, ast.Load):
        yield "attribute", u(ast.Attribute(n.value, OTHER[n.attr], n.ctx))
    elif isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name) and n.func.id in OTHER:
            yield "function", u(ast.Call(ast.Name(OTHER[n.func.id], ast.Load()), n.args, n.keywords))
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            yield "argument order", u(ast.Call(n.func, [n.args[1], n.args[0], *n.args[2:]], n.keywords))
        for k in range(len(n.keywords)):
            yield "dropped argument", u(ast.Call(n.func, n.args, n.keywords[:k] + n.keywords[k + 1:]))


def sites(fn):
    """(node, label, replacement) within a function, messages and documentation left out."""
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.JoinedStr, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") in ("custom_print", "print"):
            skip |= {id(x) for x in ast.walk(n)}
    for d in fn.args.defaults + [k for k in fn.args.kw_defaults if k is not None]:
        skip |= {id(x) for x in ast.walk(d)}
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.stmt) and n is not fn:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                yield n, "dropped statement", "pass"
            elif isinstance(n, (ast.If, ast.While)):
                yield n.test, "condition", "(not (" + ast.unparse(n.test) + "))"
        elif isinstance(n, ast.expr):
            for label, rep in variants(n):
                yield n, label, rep


def replace(src, node, rep):
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    i, j = off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset
    return (b[:i] + rep.encode() + b[j:]).decode()


def mutants(root, functions=None):
    """Every single change: (file, line, function, label, old, new source text, whole new file)."""
    out = []
    base = os.path.join(root, "pyGCodeDecode")
    for dp, dn, fs in os.walk(base):
        dn[:] = [d for d in dn if d not in ("examples", "__pycache__")]
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            path = os.path.join(dp, f)
            src = open(path, encoding="utf-8").read()
            tree = ast.parse(src)
            stack = [(tree, "")]
            while stack:
                n, q = stack.pop()
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.ClassDef):
                        stack.append((c, q + c.name + "."))
                    elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        name = f"{os.path.splitext(f)[0]}.{q}{c.name}"
                        if functions is None or any(name in x or x.endswith("." + name) for x in functions):
                            for node, label, rep in sites(c):
                                new = replace(src, node, rep)
                                try:
                                    if ast.dump(ast.parse(new)) == ast.dump(tree):
                                        continue
                                except SyntaxError:
                                    continue
                                out.append((os.path.relpath(path, root), node.lineno, name, label, ast.get_source_segment(src, node), rep, new))
                    else:
                        stack.append((c, q)) if not isinstance(c, ast.expr) else None
    return out


def judge(prop, root, rel, new, limit):
    """Outcome of one check on a tree with one file replaced."""
    d = tempfile.mkdtemp(prefix="sens-")
    try:
        tree = os.path.join(d, "t")
        os.mkdir(tree)
        for x in os.listdir(root):
            if x == "pyGCodeDecode":
                shutil.copytree(os.path.join(root, x), os.path.join(tree, x), ignore=shutil.ignore_patterns("__pycache__", "*.gcode"))
            elif x not in (".git", ".venv", "build"):
                os.symlink(os.path.join(root, x), os.path.join(tree, x))
        with open(os.path.join(tree, rel), "w", encoding="utf-8") as fh:
            fh.write(new)
        env = dict(os.environ, VERIF_REPO=tree, VERIF_NO_EVIDENCE="1", VERIF_TIER="quick")
        try:
            p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], env=env, capture_output=True, text=True, timeout=limit)
            return {0: "quiet", 1: "reported"}.get(p.returncode, "no answer")
        except subprocess.TimeoutExpired:
            return "no answer"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(prop, root, seed, functions=(), budget=420, workers=6):
    """Sample of changes in the analysed functions and the outcome of this check for each."""
    t0 = time.time()
    pool = mutants(root, set(functions) or None)
    random.Random(seed).shuffle(pool)
    res = {"possible changes": len(pool), "tried": 0, "reported": 0, "no answer": 0, "quiet": []}

    def one(m):
        left = budget - (time.time() - t0)
        if left < 10:
            return None
        return m, judge(prop, root, m[0], m[6], left)

    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(one, pool[:120]):
            if r is None:
                continue
            m, out = r
            res["tried"] += 1
            if out == "quiet":
                res["quiet"].append(f"{m[0]}:{m[1]} {m[3]}: {m[4][:50]} -> {m[5][:50]}")
            else:
                res[out] += 1
    res["note"] = "a change that stays quiet may keep the property; many of these break other properties only"
    res["quiet"] = res["quiet"][:80]
    return res
