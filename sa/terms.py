"""Interned terms: nodes of the gated value graph.

A term is (op, args).  Gamma nodes are op 'ite' with a condition term first.  Numbers are kept as exact Fractions.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "id", "_r")
    _table = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def _akey(a):
    # 1, True and 1.0 hash alike in Python: keep the type in the key
    return (a.__class__, a)


def mk(op, *args):
    key = (op, tuple(_akey(a) for a in args))
    t = T._table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args = op, args
        T._n += 1
        t.id = T._n
        t._r = None
        T._table[key] = t
    return t


def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, int):
        return mk("const", v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("sym", f"float({v})")
        return mk("const", Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk("const", v)
    raise TypeError(v)


TRUE, FALSE, NONE = const(True), const(False), const(None)
UNDEF = mk("undef")
ZERO, ONE = const(0), const(1)


def is_const(t):
    return t.op == "const"


def is_num(t):
    """A numeric constant: ints stay int, floats are exact Fractions (the distinction matters to type())."""
    return t.op == "const" and isinstance(t.args[0], (int, Fraction)) and not isinstance(t.args[0], bool)


def cval(t):
    return t.args[0]


def sym(name):
    return mk("sym", name)


# ------------------------------------------------------------------ booleans
def NOT(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "or" or c.op == "and":
        r = MEMO.get(c)
        if r is None:
            r = (AND if c.op == "or" else OR)(*[NOT(x) for x in c.args])
            remember(c, r)
        return r
    return mk("not", c)


MEMO = {}  # results of NOT, AND and OR under the current OR_HOOK
MEMO0 = MEMO


def remember(key, r):
    if len(MEMO) > 300000:
        MEMO.clear()
    MEMO[key] = r


def AND(*cs):
    if len(cs) < 2:
        return cs[0] if cs else TRUE
    key = ("and", cs)
    r = MEMO.get(key)
    if r is None:
        r = _and(cs)
        remember(key, r)
    return r


def OR(*cs):
    if len(cs) < 2:
        return cs[0] if cs else FALSE
    key = ("or", cs)
    r = MEMO.get(key)
    if r is None:
        r = _or(cs)
        remember(key, r)
    return r


def _and(cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        parts = c.args if c.op == "and" else (c,)
        for p in parts:
            if p not in out:
                out.append(p)
    for p in out:
        if NOT(p) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


OR_HOOK = None  # optional simplifier of disjunctions by the facts of a scene (set while it is evaluated)


def _or(cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        parts = c.args if c.op == "or" else (c,)
        for p in parts:
            if p not in out:
                out.append(p)
    outset = set(out)
    for p in out:
        if NOT(p) in outset:
            return TRUE
    # absorption: c or (not c and d) = c or d ; c or (c and d) = c
    res = []
    changed = False
    for p in out:
        if p.op == "and":
            if any(q in outset for q in p.args):
                changed = True
                continue
            keep = [q for q in p.args if NOT(q) not in outset]
            if len(keep) < len(p.args):
                changed = True
                p = AND(*keep)
        res.append(p)
    if changed:
        return OR(*res)
    # (a and b and x) or (a and b and not x) = a and b
    if len(out) == 2 and out[0].op == "and" or len(out) == 2 and out[1].op == "and":
        a = set(out[0].args) if out[0].op == "and" else {out[0]}
        b = set(out[1].args) if out[1].op == "and" else {out[1]}
        common = a & b
        if common:
            ra, rb = a - common, b - common
            order = [q for q in (out[0].args if out[0].op == "and" else (out[0],))]
            ra_t = AND(*[q for q in order if q in ra])
            order2 = [q for q in (out[1].args if out[1].op == "and" else (out[1],))]
            rb_t = AND(*[q for q in order2 if q in rb])
            return AND(*([q for q in order if q in common] + [OR(ra_t, rb_t)]))
        if NOT(AND(*out[0].args if out[0].op == "and" else (out[0],))) is out[1]:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    if OR_HOOK is not None and len(out) > 2:
        r = OR_HOOK(out)
        if r is not None:
            return r
    return mk("or", *out)


BOOL_OPS = {"not", "and", "or", "lt", "le", "eq", "is", "in", "isnone", "truthy", "isinst", "isclose", "excflag", "inloop"}


def is_boolop(t):
    return t.op in BOOL_OPS or t is TRUE or t is FALSE


def restrict(t, c, val):
    """Simplify the top of t knowing condition c has boolean value val."""
    if t is c:
        return TRUE if val else FALSE
    if t.op == "not" and t.args[0] is c:
        return FALSE if val else TRUE
    if t.op == "ite":
        c2 = restrict(t.args[0], c, val) if (t.args[0].op in ("not", "and", "or") or t.args[0] is c) else t.args[0]
        if c2 is TRUE:
            return restrict(t.args[1], c, val)
        if c2 is FALSE:
            return restrict(t.args[2], c, val)
        return t
    if t.op == "and":
        return AND(*[restrict(a, c, val) for a in t.args])
    if t.op == "or":
        return OR(*[restrict(a, c, val) for a in t.args])
    return t


def ITE(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        c, a, b = c.args[0], b, a
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if is_boolop(a) and is_boolop(b):
        if a is TRUE:
            return OR(c, b)
        if b is FALSE:
            return AND(c, a)
        if a is FALSE:
            return AND(NOT(c), b)
        if b is TRUE:
            return OR(NOT(c), a)
    return mk("ite", c, a, b)


def subterms(t, seen=None, into=None):
    """All distinct subterms of t (T args only, descending into nested tuples)."""
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        stack.extend(x.args)
    return out


def subst(t, mapping, memo=None):
    """Replace subterms; rebuilds with the smart constructors."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is None:
            if not x.args:
                r = x
            else:
                args = tuple(go(a) for a in x.args)
                r = rebuild(x.op, args) if args != x.args else x
            memo[x] = r
        return r

    return go(t)


def rebuild(op, args):
    if op == "ite":
        return ITE(*args)
    if op == "and":
        return AND(*args)
    if op == "or":
        return OR(*args)
    if op == "not":
        return NOT(*args)
    return mk(op, *args)


def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if not isinstance(t, T):
        return str(getattr(t, "name", t))
    if t._r is not None:
        return t._r
    op, a = t.op, t.args
    if op == "const":
        v = a[0]
        s = repr(v) if not isinstance(v, Fraction) else (str(v.numerator) if v.denominator == 1 else str(float(v)) if Fraction(repr(float(v))) == v else str(v))
    elif op == "sym":
        s = str(a[0])
    elif op in ("+", "*", "/", "-") and len(a) == 2:
        s = f"({show(a[0])} {op} {show(a[1])})"
    elif op == "lt":
        s = f"{show(a[0])} < {show(a[1])}"
    elif op == "le":
        s = f"{show(a[0])} <= {show(a[1])}"
    elif op == "eq":
        s = f"{show(a[0])} == {show(a[1])}"
    elif op == "is":
        s = f"{show(a[0])} is {show(a[1])}"
    elif op == "in":
        s = f"{show(a[0])} in {show(a[1])}"
    elif op == "isnone":
        s = f"{show(a[0])} is None"
    elif op == "not":
        s = f"not({show(a[0])})"
    elif op == "and":
        s = "(" + " and ".join(show(x) for x in a) + ")"
    elif op == "or":
        s = "(" + " or ".join(show(x) for x in a) + ")"
    elif op == "ite":
        s = f"if({show(a[0])}; {show(a[1])}; {show(a[2])})"
    elif op == "attr":
        s = f"{show(a[0])}.{a[1]}"
    elif op == "item":
        s = f"{show(a[0])}[{show(a[1])}]"
    elif op == "arr":
        s = "[" + ", ".join(show(x) for x in a) + "]"
    elif op == "tuple":
        s = "(" + ", ".join(show(x) for x in a) + ")"
    elif op == "pre":
        s = f"{a[1]}@loop{a[0]}"
    elif op == "post":
        s = f"{a[1]}@after-loop{a[0]}"
    elif op == "idx":
        s = f"i{a[-1]}"
    elif op == "fn":
        s = f"{a[0]}({', '.join(show(x) for x in a[1:])})"
    elif op == "rat":
        s = str(a[0])
    else:
        s = f"{op}({', '.join(show(x) for x in a)})" if a else op
    if len(s) > 600:
        s = s[:590] + "..."
    t._r = s
    return s
