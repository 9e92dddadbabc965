"""Interprocedural gated value-flow analysis (abstract interpretation of the syntax tree in the domain of terms).

Every expression is mapped to one term; control-flow joins merge both sides into gate nodes `ite(cond, a, b)` (gated
SSA), so no path is enumerated.  Objects live in an abstract heap with strong updates on allocation sites of the
analysed call; loops over collections of known size are unrolled, loops over collections of unknown size are
summarised: every cell the body writes becomes an unconstrained symbol.  Calls into the package are inlined (the
package's call tree is shallow), calls into numpy/math/builtins use models, every other call is an opaque value and is
recorded as an effect.  Nothing of /repo is imported or executed.
"""
import ast
import builtins
from fractions import Fraction

from .program import Program, Module, Func, Cls, AnalysisError, target_names, local_names
from . import strings
from .terms import (
    T, mk, const, sym, is_const, is_num, cval, TRUE, FALSE, NONE, UNDEF, AND, OR, NOT, ITE, is_boolop, show,
)

NUMOPS = {"+", "*", "/", "pow", "sqrt", "abs", "min", "max", "gmax", "gmin", "mod", "floordiv", "len", "round", "sin", "cos", "tan"}


SETS = ("set", "frozenset")
PI = const(Fraction("3.14159265358979323846264338327950288419716939"))

class Dead(Exception):
    """Control cannot continue past this expression."""


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ heap
class Inst:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Lst:
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="list"):
        self.items, self.kind = tuple(items), kind


class Dct:
    __slots__ = ("items", "opaque", "kind")

    def __init__(self, items, opaque=None, kind="dict"):
        self.items = tuple(items)  # (key, present, value)
        self.opaque = opaque
        self.kind = kind


class Frame:
    __slots__ = ("vars", "parent", "func", "module")

    def __init__(self, vars, parent, func, module):
        self.vars, self.parent, self.func, self.module = vars, parent, func, module


class State:
    __slots__ = ("objs", "pc", "shared", "pending")

    def __init__(self, objs=None, pc=TRUE):
        self.objs, self.pc, self.shared, self.pending = objs if objs is not None else {}, pc, False, []

    def copy(self):
        s = State(self.objs, self.pc)
        self.shared = s.shared = True
        return s

    def put(self, i, o):
        if self.shared:
            self.objs = dict(self.objs)
            self.shared = False
        self.objs[i] = o


class Out:
    __slots__ = ("cond", "st", "val")

    def __init__(self, cond, st, val=None):
        self.cond, self.st, self.val = cond, st, val


NEVER_NONE = {"Path", "PurePath", "open", ".open", "str", "repr", ".resolve", ".absolute", ".joinpath", ".with_suffix", ".with_name"}


class Effect:
    __slots__ = ("pc", "name", "args", "kw", "node", "func", "seq", "result")

    def __init__(self, pc, name, args, kw, node, func, seq, result=None):
        self.pc, self.name, self.args, self.kw, self.node, self.func, self.seq, self.result = pc, name, args, kw, node, func, seq, result

    def where(self):
        f = self.func
        if f is None:
            return "?"
        return f"{f.module.path}:{getattr(self.node, 'lineno', '?')} in {f.qualname}"


EXC = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
STRMETH = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "casefold", "title", "capitalize"}
BUILTIN_TYPES = {"int", "float", "str", "bool", "list", "dict", "tuple", "set", "frozenset", "bytes", "object", "type", "complex"}
BUILTINS = {n for n in dir(builtins)}


NORM = None  # optional normaliser of numeric terms (set while a scene is evaluated)


def const_leaves(t):
    """The numbers a choice between constants can be, or None."""
    if is_num(t):
        return {cval(t)}
    if t.op != "ite":
        return None
    a = const_leaves(t.args[1])
    b = const_leaves(t.args[2]) if a is not None else None
    return None if b is None or len(a) + len(b) > 64 else a | b


def _n(t):
    return t if NORM is None else NORM(t)


def add(a, b):
    if is_num(a) and is_num(b):
        return const(_fold(cval(a), cval(b), lambda x, y: x + y))
    if is_num(a) and cval(a) == 0 and b.op in NUMERIC_OPS_OR_SYM:
        return b
    if is_num(b) and cval(b) == 0 and a.op in NUMERIC_OPS_OR_SYM:
        return a
    return _n(mk("+", a, b))


NUMERIC_OPS_OR_SYM = {"+", "*", "/", "pow", "sqrt", "abs", "min", "max", "sym", "item", "attr", "pre", "post", "ite"}


def _fold(x, y, f):
    r = f(x, y)
    return r


def neg(a):
    if is_num(a):
        return const(-cval(a))
    return mul(const(-1), a)


def sub(a, b):
    if a is b and a.op in NUMERIC_OPS_OR_SYM:
        return const(Fraction(0))
    return add(a, neg(b))


def mul(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) * cval(b))
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if cval(x) == 1 and y.op in NUMERIC_OPS_OR_SYM:
                return y
            if cval(x) == 0 and y.op in NUMERIC_OPS_OR_SYM:
                return const(Fraction(0))
            if y.op == "*" and is_num(y.args[0]):
                return mul(const(cval(x) * cval(y.args[0])), y.args[1])
            return _n(mk("*", x, y))
    return _n(mk("*", a, b))


def div(a, b):
    if is_num(b) and cval(b) != 0:
        if is_num(a):
            return const(Fraction(cval(a)) / Fraction(cval(b)))
        return mul(const(1 / Fraction(cval(b))), a)
    return _n(mk("/", a, b))


def power(a, b):
    if is_num(b) and Fraction(cval(b)).denominator == 1:
        n = int(cval(b))
        if is_num(a) and (n >= 0 or cval(a) != 0):
            return const(cval(a) ** n if n >= 0 else Fraction(cval(a)) ** n)
        if n == 2:
            return _n(mk("*", a, a))
        if n == 1:
            return a
    if is_num(b) and cval(b) == Fraction(1, 2):
        return sqrt(a)
    return _n(mk("pow", a, b))


def sqrt(a):
    if is_num(a) and cval(a) >= 0:
        v = Fraction(cval(a))
        from .algebra import _split_square

        s, f = _split_square(v.numerator)
        s2, f2 = _split_square(v.denominator)
        if f == 1 and f2 == 1:
            return const(Fraction(s, s2))
    return _n(mk("sqrt", a))


def absolute(a):
    if is_num(a):
        return const(abs(cval(a)))
    if a.op in ("abs", "sqrt"):
        return a
    return _n(mk("abs", a))


class Engine:
    while_limit = 24
    max_depth = 60

    def __init__(self, program):
        self.prog = program
        self.ids = 0
        self.loops = 0
        self.calls = 0
        self.effects = []
        self.kinds = {}  # symbol -> kind
        self.overrides = {}  # function name or qualified name -> callable(engine, st, args, kwargs, node)
        self.method_overrides = {}
        self.files = set()  # lists that stand for an open text file
        self.depth = 0
        self.stack = []
        self.try_depth = 0
        self.quiet = 0
        self.notes = []  # imprecision notes
        self.memo = {}  # results of functions with a cache
        self.visited = set()  # functions analysed
        self.callsites = 0
        self.simplifier = None
        self.nonneg = set()
        self.modframes = {}
        self.base = State()
        self.loading = True
        self.hooks_attr = {}
        self.cond_hook = None
        self.writes = None  # optional log of heap writes
        self.ext_overrides = {}
        self.on_effect = None
        self.ext_values = getattr(program, "ext_values", {})
        self.sqrt_hook = None
        self.float_hook = None
        self.chunks, self.chunk_value = {}, {}  # string symbols with a known class, see strings.py
        for m in program.modules.values():
            self.load_module(m)
        self.loading = False

    # -------------------------------------------------------------- utilities
    def new_id(self):
        self.ids += 1
        return self.ids

    def alloc(self, st, obj):
        i = self.new_id()
        st.put(i, obj)
        return mk("ref", i)

    def obj(self, st, ref):
        return st.objs[ref.args[0]]

    def new_list(self, st, vals, kind="list"):
        return self.alloc(st, Lst([(TRUE, v) for v in vals], kind))

    def new_dict(self, st, pairs):
        return self.alloc(st, Dct([(k if isinstance(k, T) else const(k), TRUE, v) for k, v in pairs]))

    def symbol(self, name, kind="real"):
        s = sym(name)
        self.kinds[s] = kind
        return s

    def note(self, what, node=None, func=None):
        f = self.stack[-1] if self.stack else None
        msg = f"{what} at {f.module.path if f else '?'}:{getattr(node, 'lineno', '?')}"
        if msg not in self.notes:
            self.notes.append(msg)

    def effect(self, st, name, args, kw, node, result=None):
        if self.quiet or self.loading:
            return
        self.effects.append(Effect(st.pc, name, args, kw, node, self.stack[-1] if self.stack else None, len(self.effects), result))
        if self.on_effect is not None:
            self.on_effect(st, self.effects[-1])

    def pend(self, st, cond, exc):
        """Record a possible exception raised by the expression under evaluation."""
        cond = self.simp(cond, st.pc)
        if cond is FALSE:
            return
        s2 = st.copy()
        s2.pc = AND(st.pc, cond)
        s2.pending = []
        st.pending.append((cond, s2, exc))
        if cond is TRUE:
            raise Dead()
        st.pc = AND(st.pc, NOT(cond))

    # -------------------------------------------------------------- merging
    def merge(self, c, a, b):
        """State that equals a where c holds, and b elsewhere."""
        if a is b or b is None:
            return a
        if a is None:
            return b
        if a.objs is b.objs:
            r = State(a.objs)
            a.shared = r.shared = True
            return r
        objs = dict(a.objs)
        for i, ob in b.objs.items():
            oa = a.objs.get(i)
            if oa is ob:
                continue
            if oa is None:
                objs[i] = ob
            else:
                objs[i] = self.merge_obj(c, oa, ob)
        return State(objs)

    def merge_obj(self, c, a, b):
        if isinstance(a, Inst):
            if a.cls is not b.cls:
                return a
            return Inst(a.cls, self.merge_map(c, a.fields, b.fields))
        if isinstance(a, Frame):
            return Frame(self.merge_map(c, a.vars, b.vars), a.parent, a.func, a.module)
        if isinstance(a, Lst):
            n = 0
            while n < len(a.items) and n < len(b.items) and a.items[n] == b.items[n]:
                n += 1
            ra, rb = a.items[n:], b.items[n:]
            out = list(a.items[:n])
            # same shape: merge elementwise
            if len(ra) == len(rb) and all(x[0] is y[0] and x[1].op != "splat" and y[1].op != "splat" for x, y in zip(ra, rb)):
                out += [(x[0], ITE(c, x[1], y[1])) for x, y in zip(ra, rb)]
            else:
                # common suffix
                m = 0
                while m < len(ra) and m < len(rb) and ra[-1 - m] == rb[-1 - m]:
                    m += 1
                suf = ra[len(ra) - m:] if m else ()
                ra2, rb2 = ra[: len(ra) - m], rb[: len(rb) - m]
                out += [(AND(c, g), v) for g, v in ra2] + [(AND(NOT(c), g), v) for g, v in rb2] + list(suf)
            return Lst([x for x in out if x[0] is not FALSE], a.kind)
        if isinstance(a, Dct):
            items = []
            db = {k: (p, v) for k, p, v in b.items}
            seen = set()
            for k, p, v in a.items:
                seen.add(k)
                if k in db:
                    p2, v2 = db[k]
                    vv = ITE(c, v, v2) if p is p2 else v if p2 is FALSE else v2 if p is FALSE else ITE(c, v, v2)
                    items.append((k, ITE(c, p, p2), vv))
                else:
                    items.append((k, AND(c, p), v))
            for k, p, v in b.items:
                if k not in seen:
                    items.append((k, AND(NOT(c), p), v))
            return Dct(items, a.opaque or b.opaque, a.kind)
        return a

    def merge_map(self, c, a, b):
        r = {}
        for k in a:
            if k in b:
                r[k] = a[k] if a[k] is b[k] else ITE(c, a[k], b[k])
            else:
                r[k] = ITE(c, a[k], UNDEF) if False else a[k]
        for k in b:
            if k not in a:
                r[k] = b[k]
        return r

    def add_out(self, outs, kind, cond, st, val=None):
        if cond is FALSE:
            return
        o = outs.get(kind)
        if o is None:
            outs[kind] = Out(cond, st, val)
            return
        nst = self.merge(o.cond, o.st, st)
        nst.pc = OR(o.st.pc, st.pc)
        nval = None if val is None and o.val is None else ITE(o.cond, o.val, val)
        outs[kind] = Out(OR(o.cond, cond), nst, nval)

    # -------------------------------------------------------------- conditions
    def simp(self, c, pc):
        if c is TRUE or c is FALSE:
            return c
        facts = pc.args if pc.op == "and" else (pc,)
        if c in facts:
            return TRUE
        if NOT(c) in facts:
            return FALSE
        if c.op == "and":
            c2 = AND(*[self.simp(x, pc) for x in c.args])
            return c2
        if c.op == "or":
            return OR(*[self.simp(x, pc) for x in c.args])
        if c.op == "ite":
            g = self.simp(c.args[0], pc)
            if g is TRUE:
                return self.simp(c.args[1], pc)
            if g is FALSE:
                return self.simp(c.args[2], pc)
        if self.simplifier is not None:
            return self.simplifier(c, pc)
        return c

    def simp_value(self, v, pc):
        """Resolve gates whose condition is known on this path."""
        n = 0
        while v.op == "ite" and n < 50:
            n += 1
            g = self.simp(v.args[0], pc)
            if g is TRUE:
                v = v.args[1]
            elif g is FALSE:
                v = v.args[2]
            else:
                a, b = v.args[1], v.args[2]
                if a.op == "ite" or b.op == "ite":
                    a2 = self.simp_value(a, AND(pc, g))
                    b2 = self.simp_value(b, AND(pc, NOT(g)))
                    if a2 is not a or b2 is not b:
                        v = ITE(v.args[0], a2, b2)
                        continue
                break
        return v

    def truth(self, v, st, node=None):
        if is_const(v):
            return TRUE if cval(v) else FALSE
        if is_boolop(v):
            return v
        op = v.op
        if op == "ite":
            return ITE(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
        if op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Lst):
                gs = []
                for g, x in o.items:
                    gs.append(AND(g, mk("truthy", x.args[0])) if x.op == "splat" else g)
                return OR(*gs)
            if isinstance(o, Dct):
                if o.opaque is not None:
                    return mk("truthy", v)
                return OR(*[p for _, p, _ in o.items])
            if isinstance(o, Inst):
                for nm in ("__bool__", "__len__"):
                    m, _ = o.cls.lookup(nm)
                    if m is not None and m.op == "func":
                        return self.truth(self.call_method(st, v, nm, [], {}, node), st, node)
                return TRUE
            return TRUE
        if op in ("rematch", "repat"):
            return TRUE
        if self.chunks and (v in self.chunks or op == "fstr"):
            r = strings.nonempty(self, v)
            if r is not None:
                return r
        if op == "sym":
            k = self.kinds.get(v)
            if k == "bool":
                return v
            if k in ("pos", "neg", "path"):
                return TRUE
            if k in ("real", "nonneg", "int"):
                return NOT(self.cmp_eq(v, const(0), st))
            return mk("truthy", v)
        if op in ("pre", "post"):
            if self.kinds.get(v) == "bool":
                return v
            return mk("truthy", v)
        if op in ("func", "cls", "mod", "ext", "bound", "exc"):
            return TRUE
        if op == "call" and (str(v.args[0]) in ("Path", "PurePath", "open", ".open") or str(v.args[0]).startswith("pathlib.")) or op == "attr" and v.args[1] == "parent":
            return TRUE
        if op in ("tuple", "arr"):
            return TRUE if v.args else FALSE
        if op in NUMOPS:
            return NOT(self.cmp_eq(v, const(0), st))
        return mk("truthy", v)

    # -------------------------------------------------------------- comparisons
    def is_numeric(self, v):
        if is_num(v):
            return True
        if v.op in NUMOPS:
            return True
        if v.op in ("sym", "pre", "post"):
            return self.kinds.get(v) in ("real", "pos", "nonneg", "int", "neg", "nz")
        if v.op == "ite":
            return self.is_numeric(v.args[1]) and self.is_numeric(v.args[2])
        return False

    def cmp_lt(self, a, b):
        if a is b:
            return FALSE
        if is_num(a) and is_num(b):
            return TRUE if cval(a) < cval(b) else FALSE
        if is_const(a) and is_const(b) and type(cval(a)) is type(cval(b)) is str:
            return TRUE if cval(a) < cval(b) else FALSE
        if self.chunks:
            r = strings.less(self, a, b)
            if r is not None:
                return r
        if a.op == "ite" and is_num(b) and const_leaves(a) is not None:
            return ITE(a.args[0], self.cmp_lt(a.args[1], b), self.cmp_lt(a.args[2], b))
        if b.op == "ite" and is_num(a) and const_leaves(b) is not None:
            return ITE(b.args[0], self.cmp_lt(a, b.args[1]), self.cmp_lt(a, b.args[2]))
        c = mk("lt", a, b)
        if self.cond_hook is not None:
            return self.cond_hook(c)
        return c

    def cmp_eq(self, a, b, st, node=None):
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            try:
                return TRUE if cval(a) == cval(b) else FALSE
            except Exception:
                return FALSE
        if a.op == "ite":
            return ITE(a.args[0], self.cmp_eq(a.args[1], b, st, node), self.cmp_eq(a.args[2], b, st, node))
        if b.op == "ite":
            return ITE(b.args[0], self.cmp_eq(a, b.args[1], st, node), self.cmp_eq(a, b.args[2], st, node))
        for x, y in ((a, b), (b, a)):
            if x.op == "ref":
                o = self.obj(st, x)
                if isinstance(o, Inst):
                    m, _ = o.cls.lookup("__eq__")
                    if m is not None and m.op == "func":
                        r = self.call_value(st, m, [x, y], {}, node)
                        return self.truth(r, st, node)
                    if y.op == "ref" or is_const(y):
                        return FALSE
        if a.op == "ref" and b.op == "ref":
            oa, ob = self.obj(st, a), self.obj(st, b)
            if isinstance(oa, Lst) and isinstance(ob, Lst) and oa.kind in SETS and ob.kind in SETS:
                return AND(self.subset(st, a, b), self.subset(st, b, a))
            if isinstance(oa, Lst) and isinstance(ob, Lst):
                simple = all(g is TRUE and v.op != "splat" for g, v in oa.items + ob.items)
                if simple:
                    if len(oa.items) != len(ob.items):
                        return FALSE
                    return AND(*[self.cmp_eq(x[1], y[1], st) for x, y in zip(oa.items, ob.items)])
                if not oa.items or not ob.items:
                    return NOT(self.truth(a if oa.items else b, st))
            if isinstance(oa, Dct) and isinstance(ob, Dct) and oa.opaque is None and ob.opaque is None:
                da = {k: (p, v) for k, p, v in oa.items}
                db = {k: (p, v) for k, p, v in ob.items}
                cs = []
                for k in set(da) | set(db):
                    pa, va = da.get(k, (FALSE, NONE))
                    pb, vb = db.get(k, (FALSE, NONE))
                    cs.append(OR(AND(NOT(pa), NOT(pb)), AND(pa, pb, self.cmp_eq(va, vb, st))))
                return AND(*cs)
        if a.op in ("tuple", "arr") and b.op == a.op:
            if len(a.args) != len(b.args):
                return FALSE
            if a.op == "tuple":
                return AND(*[self.cmp_eq(x, y, st) for x, y in zip(a.args, b.args)])
        ka, kb = self.shape(a, st), self.shape(b, st)
        if ka and kb and ka != kb:
            return FALSE
        if a.op in ("func", "cls", "mod", "ext") and b.op in ("func", "cls", "mod", "ext"):
            return FALSE
        if a.op == "rematch" and b.op == "rematch":
            return FALSE
        if self.chunks:
            r = strings.equal(self, a, b)
            if r is None and ka == "str" and kb == "str":
                r = strings.same(self, a, b)
            if r is not None:
                return r
        if b < a:
            a, b = b, a
        c = mk("eq", a, b)
        if self.cond_hook is not None and (ka == "num" or kb == "num"):
            return self.cond_hook(c)
        return c

    def shape(self, v, st):
        if is_const(v):
            x = cval(v)
            return "none" if x is None else "str" if isinstance(x, str) else "num" if isinstance(x, (bool, int, Fraction)) else None
        if self.is_numeric(v) or is_boolop(v):
            return "num"
        if v.op in ("sym", "pre", "post"):
            return {"str": "str", "bool": "num"}.get(self.kinds.get(v))
        if v.op in ("fstr",) or (v.op == "meth" and v.args[0] in STRMETH):
            return "str"
        if v.op in ("ref", "rematch", "repat"):
            return "obj"
        if v.op in ("tuple", "arr"):
            return "obj"
        return None

    def cmp_is(self, a, b, st):
        if a is b:
            return TRUE
        if a.op == "ite":
            return ITE(a.args[0], self.cmp_is(a.args[1], b, st), self.cmp_is(a.args[2], b, st))
        if b.op == "ite":
            return ITE(b.args[0], self.cmp_is(a, b.args[1], st), self.cmp_is(a, b.args[2], st))
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                if is_const(x):
                    return FALSE
                if self.shape(x, st) not in (None, "none") or x.op in ("func", "cls", "mod", "ext", "bound", "exc", "extbound"):
                    return FALSE
                if x.op in ("sym", "pre", "post") and self.kinds.get(x) in ("real", "pos", "nonneg", "int", "str", "bool", "obj", "neg", "nz", "path"):
                    return FALSE
                if x.op == "meth":
                    return FALSE
                if x.op == "call" and (str(x.args[0]) in NEVER_NONE or str(x.args[0]).startswith("pathlib.")):
                    return FALSE
                if x.op == "attr" and x.args[1] == "parent":
                    return FALSE
                return mk("isnone", x)
            if y is TRUE or y is FALSE:
                if is_const(x):
                    return FALSE
                if is_boolop(x) or self.kinds.get(x) == "bool":
                    return x if y is TRUE else NOT(x)
                if self.shape(x, st) in ("str", "obj") or (self.is_numeric(x)):
                    return FALSE
        if is_const(a) and is_const(b):
            return TRUE if type(cval(a)) is type(cval(b)) and cval(a) == cval(b) else FALSE
        if a.op == "ref" or b.op == "ref":
            if a.op in ("ref", "const") and b.op in ("ref", "const"):
                return FALSE
        if a.op in ("func", "cls", "mod", "ext") and b.op in ("func", "cls", "mod", "ext"):
            return FALSE
        if b < a:
            a, b = b, a
        return mk("is", a, b)

    # -------------------------------------------------------------- module loading
    def load_module(self, m):
        if m.name in self.modframes:
            return self.modframes[m.name]
        st = self.base
        fid = self.new_id()
        st.put(fid, Frame({"__name__": const(m.name), "__file__": sym("__file__"), "__doc__": const(ast.get_docstring(m.tree) or "")}, None, None, m))
        self.modframes[m.name] = fid
        f = Func(ast.parse("def __module__(): pass").body[0], m, "<module>")
        f.locals = set()
        self.stack.append(f)
        try:
            for s in m.tree.body:
                try:
                    outs = self.exec_stmt(s, st, fid)
                    n = outs.get("normal")
                    if n is not None and n.st is not st:
                        st.objs, st.shared = n.st.objs, n.st.shared
                        st.pc = TRUE
                        st.pending = []
                    st.pc = TRUE
                except (Unsupported, Dead, KeyError, RecursionError) as e:
                    st.pc = TRUE
                    st.pending = []
                    self.note(f"module statement not modelled ({e})", s)
        finally:
            self.stack.pop()
        return fid

    def module_term(self, name):
        return mk("mod", name)

    def import_module(self, st, name):
        """Term for a dotted module name."""
        if name in self.prog.modules:
            self.load_module(self.prog.modules[name])
            return mk("mod", name)
        if name == self.prog.package or name.startswith(self.prog.package + "."):
            return UNDEF
        return mk("ext", name)

    # -------------------------------------------------------------- names
    def lookup(self, st, fr, name, node=None):
        fid = fr
        first = True
        while fid is not None:
            f = st.objs[fid]
            if name in f.vars:
                v = f.vars[name]
                return v
            if first and f.func is not None and name in f.func.locals and f.parent is not None:
                pass
            first = False
            if f.parent is None and f.module is not None:
                mf = self.modframes.get(f.module.name)
                if mf is not None and fid != mf:
                    fid = mf
                    continue
            fid = f.parent
        if name in BUILTINS:
            return mk("ext", "builtins." + name)
        if name == "__file__":
            return sym("__file__")
        self.note(f"unbound name {name}", node)
        return UNDEF

    def assign_name(self, st, fr, name, v):
        f = st.objs[fr]
        if f.func is not None:
            if name in f.func.globals:
                mf = self.modframes[f.module.name]
                g = st.objs[mf]
                nv = dict(g.vars)
                nv[name] = v
                st.put(mf, Frame(nv, g.parent, g.func, g.module))
                if self.writes is not None:
                    self.writes.append(("global", f.module.name, name, st.pc))
                return
            if name in f.func.nonlocals:
                fid = f.parent
                while fid is not None:
                    g = st.objs[fid]
                    if name in g.vars:
                        nv = dict(g.vars)
                        nv[name] = v
                        st.put(fid, Frame(nv, g.parent, g.func, g.module))
                        return
                    fid = g.parent
        nv = dict(f.vars)
        nv[name] = v
        st.put(fr, Frame(nv, f.parent, f.func, f.module))

    # -------------------------------------------------------------- attributes
    def getattr(self, st, v, name, node=None):
        op = v.op
        if op == "ite":
            v = self.simp_value(v, st.pc)
            op = v.op
        if op == "ite":
            return self.fork_value(st, v, lambda s, x: self.getattr(s, x, name, node))
        if op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Inst):
                # properties take precedence
                m, owner = o.cls.lookup(name)
                if m is not None and m.op == "prop":
                    g = m.args[0]
                    if g is None:
                        raise Unsupported("write-only property")
                    return self.call_value(st, mk("func", g), [v], {}, node)
                if name in o.fields:
                    return o.fields[name]
                if m is not None:
                    return self.bind(st, m, v, o.cls)
                if name == "__class__":
                    return mk("cls", o.cls)
                if name == "__dict__":
                    return self.alloc(st, Dct([(const(k), TRUE, x) for k, x in o.fields.items()]))
                g, _ = o.cls.lookup("__getattr__")
                if g is not None and g.op == "func":
                    return self.call_value(st, g, [v, const(name)], {}, node)
                if o.cls.external_bases():
                    return mk("extbound", v, name)
                self.note(f"attribute {name} not defined on {o.cls.name}", node)
                if self.try_depth:
                    self.pend(st, TRUE, mk("exc", "AttributeError"))
                return mk("attr", v, name)
            if isinstance(o, (Lst, Dct)):
                return mk("extbound", v, name)
        if op == "cls":
            c = v.args[0]
            m, owner = c.lookup(name)
            if m is not None:
                if m.op == "func":
                    f = m.args[0]
                    if f.kind == "class":
                        return mk("bound", m, v)
                return m
            if name in ("__name__", "__qualname__"):
                return const(c.name)
            return mk("attr", v, name)
        if op == "mod":
            mf = self.modframes[v.args[0]]
            f = st.objs[mf]
            if name in f.vars:
                return f.vars[name]
            sub_ = self.import_module(st, v.args[0] + "." + name)
            if sub_ is not UNDEF:
                return sub_
            self.note(f"module {v.args[0]} has no attribute {name}", node)
            return UNDEF
        if op == "ext":
            return self.ext_attr(v.args[0] + "." + name)
        if op == "super":
            c, self_ = v.args
            oc = self.class_of(st, self_)
            mro = oc.mro() if oc else c.mro()
            i = mro.index(c) if c in mro else -1
            for k in mro[i + 1:]:
                if name in k.ns:
                    m = k.ns[name]
                    if m.op == "prop":
                        return self.call_value(st, mk("func", m.args[0]), [self_], {}, node)
                    return self.bind(st, m, self_, oc)
            return mk("extbound", self_, name)
        if op in ("func", "bound") and name in ("__name__", "__doc__", "__qualname__"):
            f = v.args[0] if op == "func" else v.args[0].args[0]
            return const(f.name)
        if op == "rematch":
            return v.args[0] if name == "string" else mk("extbound", v, name)
        if op == "repat":
            return v.args[0] if name == "pattern" else mk("extbound", v, name)
        if op == "exc" and name == "args":
            return mk("tuple", *v.args[1:])
        if op == "symobj":
            h = self.hooks_attr.get(name)
            return mk("attr", v, name)
        if op == "arr":
            if name == "T":
                return self.np_transpose(v)
            if name == "size" or name == "shape" or name == "ndim":
                sh = np_shape(v)
                if name == "shape":
                    return mk("tuple", *[const(x) for x in sh])
                if name == "ndim":
                    return const(len(sh))
                n = 1
                for x in sh:
                    n *= x
                return const(n)
            return mk("extbound", v, name)
        if op == "perm_table" or op == "garr":
            return mk("extbound", v, name)
        if is_const(v) and (cval(v) is None or isinstance(cval(v), str)) and not hasattr(cval(v), name):
            self.pend(st, TRUE, mk("exc", "AttributeError"))
        if is_const(v) or op in ("tuple", "fstr", "meth") or self.is_numeric(v) or self.shape(v, st) == "str":
            return mk("extbound", v, name)
        if op == "attr" or op in ("sym", "pre", "post", "call", "item", "last", "extbound", "mapped", "undef"):
            return mk("attr", v, name)
        return mk("attr", v, name)

    def ext_attr(self, full):
        if full in self.ext_values:
            return self.ext_values[full]
        if full in ("numpy.pi", "math.pi", "np.pi"):
            return PI
        if full in ("math.inf", "numpy.inf"):
            return sym("inf")
        if full in ("math.tau",):
            return mul(const(2), PI)
        if full in ("math.e", "numpy.e"):
            return const(Fraction("2.71828182845904523536028747135266249775724709"))
        return mk("ext", full)

    def class_of(self, st, v):
        if v.op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Inst):
                return o.cls
        if v.op == "cls":
            return v.args[0]
        return None

    def bind(self, st, m, selfv, cls):
        if m.op == "func":
            f = m.args[0]
            if f.kind == "static":
                return m
            if f.kind == "class":
                return mk("bound", m, mk("cls", cls))
            return mk("bound", m, selfv)
        return m

    def setattr(self, st, v, name, val, node=None):
        if v.op == "ite":
            v = self.simp_value(v, st.pc)
        if v.op == "ite":
            c = v.args[0]
            a, b = st.copy(), st.copy()
            a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
            self.setattr(a, v.args[1], name, val, node)
            self.setattr(b, v.args[2], name, val, node)
            st.pending += a.pending + b.pending
            self.adopt(st, self.merge(c, a, b))
            return
        if v.op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Inst):
                m, _ = o.cls.lookup(name)
                if m is not None and m.op == "prop":
                    if m.args[1] is None:
                        raise Unsupported(f"property {name} has no setter")
                    self.call_value(st, mk("func", m.args[1]), [v, val], {}, node)
                    return
                sa, owner = o.cls.lookup("__setattr__")
                if sa is not None and sa.op == "func":
                    self.call_value(st, sa, [v, const(name), val], {}, node)
                    return
                nf = dict(o.fields)
                nf[name] = val
                if self.writes is not None:
                    self.writes.append(("field", v, name, val, st.pc, node, self.stack[-1] if self.stack else None))
                st.put(v.args[0], Inst(o.cls, nf))
                return
            self.note("attribute assignment on container", node)
            return
        if v.op == "cls":
            if self.writes is not None:
                self.writes.append(("clsattr", v.args[0], name, val, st.pc, node, self.stack[-1] if self.stack else None))
            self.note(f"class attribute {name} assigned", node)
            return
        if v.op == "mod":
            mf = self.modframes[v.args[0]]
            g = st.objs[mf]
            nv = dict(g.vars)
            nv[name] = val
            st.put(mf, Frame(nv, g.parent, g.func, g.module))
            return
        self.effect(st, "setattr", [v, const(name), val], {}, node)

    def adopt(self, st, other):
        st.objs, st.shared = other.objs, True
        other.shared = True

    def fork_value(self, st, v, fn):
        """Apply fn to both sides of a gate, each on its own state, and merge."""
        c = v.args[0]
        a, b = st.copy(), st.copy()
        a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        ra = rb = None
        try:
            ra = fn(a, v.args[1])
        except Dead:
            pass
        try:
            rb = fn(b, v.args[2])
        except Dead:
            pass
        return self.join_fork(st, c, a, ra, b, rb)

    def join_fork(self, st, c, a, ra, b, rb):
        for cond, s, e in a.pending:
            st.pending.append((AND(c, cond), s, e))
        for cond, s, e in b.pending:
            st.pending.append((AND(NOT(c), cond), s, e))
        if ra is None and rb is None:
            raise Dead()
        if ra is None:
            self.adopt(st, b)
            st.pc = b.pc
            return rb
        if rb is None:
            self.adopt(st, a)
            st.pc = a.pc
            return ra
        m = self.merge(c, a, b)
        self.adopt(st, m)
        if a.pending or b.pending:
            st.pc = OR(a.pc, b.pc)
        return ITE(c, ra, rb)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        outs = {}
        rel = TRUE
        for s in stmts:
            o = self.exec_stmt(s, st, fr)
            for kind, x in o.items():
                if kind != "normal":
                    self.add_out(outs, kind, AND(rel, x.cond), x.st, x.val)
            n = o.get("normal")
            if n is None:
                return outs
            rel = AND(rel, n.cond)
            st = n.st
        outs["normal"] = Out(rel, st)
        return outs

    def exec_stmt(self, s, st, fr):
        st.pending = []
        try:
            outs = self._exec(s, st, fr)
        except Dead:
            outs = {}
            self.flush(st, outs, TRUE)
            return outs
        return outs

    def flush(self, st, outs, rel):
        """Turn pending exceptions into raise outcomes; returns the condition under which control continues."""
        pend, st.pending = st.pending, []
        ok = TRUE
        for cond, s2, exc in pend:
            self.add_out(outs, "raise", AND(ok, cond), s2, exc)
            ok = AND(ok, NOT(cond))
        return ok

    def done(self, st):
        outs = {}
        ok = self.flush(st, outs, TRUE)
        if ok is not FALSE:
            outs["normal"] = Out(ok, st)
        return outs

    def _exec(self, s, st, fr):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return {"normal": Out(TRUE, st)}
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                self.do_yield(s.value, st, fr)
                return self.done(st)
            self.eval(s.value, st, fr)
            return self.done(st)
        if t is ast.Assign:
            v = self.eval(s.value, st, fr)
            for tg in s.targets:
                self.assign(tg, v, st, fr)
            return self.done(st)
        if t is ast.AnnAssign:
            if s.value is not None:
                v = self.eval(s.value, st, fr)
                self.assign(s.target, v, st, fr)
            return self.done(st)
        if t is ast.AugAssign:
            load = _as_load(s.target)
            cur = self.eval(load, st, fr)
            v = self.eval(s.value, st, fr)
            if isinstance(s.op, ast.Add) and cur.op == "ref" and isinstance(self.obj(st, cur), Lst):
                self.list_extend(st, cur, v, s)
                return self.done(st)
            r = self.binop(st, s.op, cur, v, s)
            self.assign(s.target, r, st, fr)
            return self.done(st)
        if t is ast.If:
            return self.exec_if(s.test, s.body, s.orelse, st, fr)
        if t is ast.Return:
            v = self.eval(s.value, st, fr) if s.value is not None else NONE
            outs = {}
            ok = self.flush(st, outs, TRUE)
            self.add_out(outs, "return", ok, st, v)
            return outs
        if t is ast.Pass:
            return {"normal": Out(TRUE, st)}
        if t is ast.For:
            return self.exec_for(s, st, fr)
        if t is ast.While:
            return self.exec_while(s, st, fr)
        if t is ast.Break:
            return {"break": Out(TRUE, st)}
        if t is ast.Continue:
            return {"continue": Out(TRUE, st)}
        if t is ast.Raise:
            exc = mk("exc", "reraise")
            if s.exc is not None:
                exc = self.eval(s.exc, st, fr)
                if exc.op == "ext" and exc.args[0].startswith("builtins."):
                    exc = mk("exc", exc.args[0][9:])
                elif exc.op == "cls":
                    exc = self.call_value(st, exc, [], {}, s)
            else:
                cur = st.objs[fr].vars.get("$exc")
                if cur is not None:
                    exc = cur
            outs = {}
            ok = self.flush(st, outs, TRUE)
            self.add_out(outs, "raise", ok, st, exc)
            return outs
        if t is ast.Try:
            return self.exec_try(s, st, fr)
        if t is ast.With:
            return self.exec_with(s, st, fr)
        if t in (ast.FunctionDef,):
            v = self.make_func(s, st, fr)
            v = self.decorate(s, v, st, fr)
            self.assign_name(st, fr, s.name, v)
            return self.done(st)
        if t is ast.ClassDef:
            v = self.make_class(s, st, fr)
            self.assign_name(st, fr, s.name, v)
            return self.done(st)
        if t is ast.Import:
            for al in s.names:
                if al.asname:
                    self.assign_name(st, fr, al.asname, self.import_module(st, al.name))
                else:
                    self.import_module(st, al.name)
                    top = al.name.split(".")[0]
                    self.assign_name(st, fr, top, self.import_module(st, top))
            return {"normal": Out(TRUE, st)}
        if t is ast.ImportFrom:
            self.import_from(s, st, fr)
            return {"normal": Out(TRUE, st)}
        if t is ast.Assert:
            c = self.truth(self.eval(s.test, st, fr), st, s)
            self.pend(st, NOT(c), mk("exc", "AssertionError"))
            return self.done(st)
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    f = st.objs[fr]
                    nv = dict(f.vars)
                    nv.pop(tg.id, None)
                    st.put(fr, Frame(nv, f.parent, f.func, f.module))
                elif isinstance(tg, ast.Subscript):
                    base = self.eval(tg.value, st, fr)
                    key = self.eval(tg.slice, st, fr)
                    self.delitem(st, base, key, s)
            return self.done(st)
        if t in (ast.Global, ast.Nonlocal):
            return {"normal": Out(TRUE, st)}
        if t is ast.Match:
            return self.exec_match(s, st, fr)
        raise Unsupported(f"statement {t.__name__}")

    def import_from(self, s, st, fr):
        m = self.stack[-1].module
        if s.level:
            parts = m.name.split(".")
            if not getattr(m, "is_pkg", False):
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        else:
            base = s.module
        for al in s.names:
            nm = al.asname or al.name
            if base in self.prog.modules:
                mf = self.load_module(self.prog.modules[base])
                src = st.objs.get(mf) or self.base.objs[mf]
                if al.name == "*":
                    for k, v in src.vars.items():
                        if not k.startswith("_"):
                            self.assign_name(st, fr, k, v)
                    continue
                if al.name in src.vars:
                    self.assign_name(st, fr, nm, src.vars[al.name])
                else:
                    self.assign_name(st, fr, nm, self.import_module(st, base + "." + al.name))
            else:
                self.assign_name(st, fr, nm, self.ext_attr(base + "." + al.name))

    def exec_if(self, test, body, orelse, st, fr):
        c = self.truth(self.eval(test, st, fr), st, test)
        pre = {}
        ok = self.flush(st, pre, TRUE)
        c = self.simp(c, st.pc)
        if c is TRUE or c is FALSE:
            outs = self.exec_block(body if c is TRUE else orelse, st, fr)
        else:
            a, b = st.copy(), st.copy()
            a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
            oa = self.exec_block(body, a, fr)
            ob = self.exec_block(orelse, b, fr)
            outs = self.join(c, oa, ob, st.pc)
        if pre:
            for kind, x in outs.items():
                self.add_out(pre, kind, AND(ok, x.cond), x.st, x.val)
            return pre
        return outs

    def join(self, c, oa, ob, pc):
        outs = {}
        for kind in ("normal", "return", "raise", "break", "continue"):
            x, y = oa.get(kind), ob.get(kind)
            if x is None and y is None:
                continue
            if x is None:
                outs[kind] = Out(AND(NOT(c), y.cond), y.st, y.val)
            elif y is None:
                outs[kind] = Out(AND(c, x.cond), x.st, x.val)
            else:
                st = self.merge(c, x.st, y.st)
                cond = TRUE if x.cond is TRUE and y.cond is TRUE else OR(AND(c, x.cond), AND(NOT(c), y.cond))
                st.pc = AND(pc, cond)
                val = None if x.val is None and y.val is None else ITE(c, x.val, y.val)
                outs[kind] = Out(cond, st, val)
        return outs

    # -- loops
    def exec_for(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        pre = {}
        ok = self.flush(st, pre, TRUE)
        seq = self.iterate(st, it, s)
        outs = self.run_loop(seq, lambda s2, v: self.assign(s.target, v, s2, fr), s.body, s.orelse, st, fr, s)
        if pre:
            for kind, x in outs.items():
                self.add_out(pre, kind, AND(ok, x.cond), x.st, x.val)
            return pre
        return outs

    def run_loop(self, seq, bind, body, orelse, st, fr, node):
        outs = {}  # abnormal outcomes: return / raise / (break collected as exits)
        rel = TRUE
        exits = {}
        cur = st
        alive = True
        for g, v in seq:
            if v.op == "splat":
                o = self.sym_loop(v, bind, body, cur, fr, node)
            else:
                g = self.simp(g, cur.pc)
                if g is FALSE:
                    continue

                def one(s2):
                    s2.pending = []
                    bind(s2, v)
                    s2.pending = []
                    return self.exec_block(body, s2, fr)

                if g is TRUE:
                    o = one(cur)
                else:
                    a, b = cur.copy(), cur.copy()
                    a.pc, b.pc = AND(cur.pc, g), AND(cur.pc, NOT(g))
                    o = self.join(g, one(a), {"normal": Out(TRUE, b)}, cur.pc)
            nxt = {}
            for kind, x in o.items():
                if kind in ("normal", "continue"):
                    self.add_out(nxt, "normal", x.cond, x.st)
                elif kind == "break":
                    self.add_out(exits, "normal", AND(rel, x.cond), x.st)
                else:
                    self.add_out(outs, kind, AND(rel, x.cond), x.st, x.val)
            n = nxt.get("normal")
            if n is None:
                alive = False
                break
            rel = AND(rel, n.cond)
            cur = n.st
        if alive:
            if orelse:
                o = self.exec_block(orelse, cur, fr)
                for kind, x in o.items():
                    if kind == "normal":
                        self.add_out(exits, "normal", AND(rel, x.cond), x.st)
                    elif kind in ("break", "continue"):
                        self.add_out(exits, "normal", AND(rel, x.cond), x.st)
                    else:
                        self.add_out(outs, kind, AND(rel, x.cond), x.st, x.val)
            else:
                self.add_out(exits, "normal", rel, cur)
        n = exits.get("normal")
        if n is not None:
            outs["normal"] = n
        return outs

    def exec_while(self, s, st, fr):
        outs, exits = {}, {}
        rel = TRUE
        cur = st
        start = st.copy()
        n_eff = len(self.effects)
        for it in range(4000):
            cur.pending = []
            try:
                c = self.truth(self.eval(s.test, cur, fr), cur, s.test)
            except Dead:
                ok = self.flush(cur, outs, rel)
                c = None
                break
            o2 = {}
            ok = self.flush(cur, o2, TRUE)
            for kind, x in o2.items():
                self.add_out(outs, kind, AND(rel, x.cond), x.st, x.val)
            rel = AND(rel, ok)
            c = self.simp(c, cur.pc)
            if c is FALSE:
                self.while_exit(s, exits, outs, rel, cur, fr)
                break
            if c is not TRUE:
                e = cur.copy()
                e.pc = AND(cur.pc, NOT(c))
                self.while_exit(s, exits, outs, AND(rel, NOT(c)), e, fr)
                b = cur.copy()
                b.pc = AND(cur.pc, c)
            else:
                b = cur
            rel = AND(rel, c)
            if (rel is not TRUE or c is not TRUE) and it >= self.while_limit:
                # give up: summarise
                self.note("loop summarised (no bound found)", s)
                del self.effects[n_eff:]
                o = self.sym_loop(mk("splat", mk("iters", self.fresh_loop())), lambda s2, v: None, s.body, start, fr, s, test=s.test)
                ex2 = {}
                for kind, x in o.items():
                    if kind in ("normal", "continue", "break"):
                        self.add_out(ex2, "normal", x.cond, x.st)
                    else:
                        self.add_out(ex2, kind, x.cond, x.st, x.val)
                return ex2
            o = self.exec_block(s.body, b, fr)
            nxt = {}
            for kind, x in o.items():
                if kind in ("normal", "continue"):
                    self.add_out(nxt, "normal", x.cond, x.st)
                elif kind == "break":
                    self.add_out(exits, "normal", AND(rel, x.cond), x.st)
                else:
                    self.add_out(outs, kind, AND(rel, x.cond), x.st, x.val)
            n = nxt.get("normal")
            if n is None:
                break
            rel = AND(rel, n.cond)
            cur = n.st
            if rel is FALSE:
                break
        else:
            raise Unsupported("while loop does not terminate in the analysis")
        n = exits.get("normal")
        if n is not None:
            outs["normal"] = n
        return outs

    def while_exit(self, s, exits, outs, cond, st, fr):
        if s.orelse:
            o = self.exec_block(s.orelse, st, fr)
            for kind, x in o.items():
                if kind == "normal":
                    self.add_out(exits, "normal", AND(cond, x.cond), x.st)
                else:
                    self.add_out(outs, kind, AND(cond, x.cond), x.st, x.val)
        else:
            self.add_out(exits, "normal", cond, st)

    def fresh_loop(self):
        self.loops += 1
        return self.loops

    def sym_loop(self, splat, bind, body, st, fr, node, test=None):
        """Summary of a loop over a collection of unknown size: cells written by the body become unconstrained."""
        lid = self.fresh_loop()
        src = splat.args[0]
        elem = mk("item", src, mk("idx", lid))
        ek = self.kinds.get(("elem", src))
        if ek is not None:
            elem = ek(self, st, src, lid)
        changed = {}
        self.quiet += 1
        outs = None
        known = set(st.objs)
        try:
            for rnd in range(8):
                s = st.copy()
                s.pc = st.pc
                self.havoc(s, changed, "pre", lid)
                s.pending = []
                outs = self._sym_body(elem, bind, body, s, fr, test)
                end = {}
                for kind, x in outs.items():
                    if kind in ("normal", "continue", "break"):
                        self.add_out(end, "normal", x.cond, x.st)
                if "normal" not in end:
                    break
                new = self.diff(st, end["normal"].st, known)
                grew = False
                for k, vals in new.items():
                    if k not in changed:
                        changed[k] = set()
                        grew = True
                    before = len(changed[k])
                    changed[k] |= vals
                if not grew and rnd > 0:
                    break
        finally:
            self.quiet -= 1
        # one visible pass for effects
        s = st.copy()
        s.pc = AND(st.pc, mk("inloop", lid))
        self.havoc(s, changed, "pre", lid)
        s.pending = []
        outs = self._sym_body(elem, bind, body, s, fr, test)
        res = {}
        after = st.copy()
        after.pc = st.pc
        self.havoc(after, changed, "post", lid)
        bind_names = []
        normal_cond = TRUE
        for kind in ("return", "raise"):
            x = outs.get(kind)
            if x is not None:
                c = mk("loopexit", kind, lid)
                if kind == "return":
                    rs = after.copy()
                    rs.pc = AND(st.pc, c)
                    res["return"] = Out(c, rs, mk("loopval", lid, x.val if x.val is not None else NONE))
                    normal_cond = AND(normal_cond, NOT(c))
                else:
                    rs = after.copy()
                    rs.pc = AND(st.pc, c)
                    res["raise"] = Out(AND(normal_cond, c), rs, x.val)
                    normal_cond = AND(normal_cond, NOT(c))
        after.pc = AND(st.pc, normal_cond)
        res["normal"] = Out(normal_cond, after)
        return res

    def _sym_body(self, elem, bind, body, s, fr, test):
        if test is not None:
            c = self.truth(self.eval(test, s, fr), s, test)
            s.pending = []
            s.pc = AND(s.pc, self.simp(c, s.pc))
        bind(s, elem)
        s.pending = []
        return self.exec_block(body, s, fr)

    def diff(self, a, b, known):
        """Cells of objects known before whose content differs: {cell: set of new values}."""
        out = {}
        for i in known:
            oa, ob = a.objs[i], b.objs.get(i)
            if oa is ob or ob is None:
                continue
            if isinstance(oa, Inst):
                for k, v in ob.fields.items():
                    if oa.fields.get(k) is not v:
                        out[(i, "f", k)] = {v, oa.fields.get(k, UNDEF)}
            elif isinstance(oa, Frame):
                for k, v in ob.vars.items():
                    if oa.vars.get(k) is not v:
                        out[(i, "v", k)] = {v, oa.vars.get(k, UNDEF)}
            elif isinstance(oa, Lst):
                if oa.items != ob.items:
                    app = ob.items[: len(oa.items)] == oa.items
                    out[(i, "l", "append" if app else "any")] = set()
            elif isinstance(oa, Dct):
                da = {k: (p, v) for k, p, v in oa.items}
                for k, p, v in ob.items:
                    if da.get(k) != (p, v):
                        out[(i, "d", k)] = {v, da.get(k, (FALSE, UNDEF))[1]}
        return out

    def havoc(self, st, changed, op, lid):
        for (i, what, k), vals in changed.items():
            if i not in st.objs:
                continue
            o = st.objs[i]
            nm = f"{k if isinstance(k, str) else show(k)}#{i}"
            s = mk(op, lid, nm)
            leaves = set()
            for v in vals:
                _leaves(v, leaves)
            leaves = {x for x in leaves if x.op not in ("pre", "post", "undef")}
            if leaves and all(x is TRUE or x is FALSE or is_boolop(x) for x in leaves):
                self.kinds[s] = "bool"
            elif leaves and all(self.is_numeric(x) for x in leaves):
                self.kinds[s] = "real"
            elif leaves and all(is_const(x) and isinstance(cval(x), str) for x in leaves):
                self.kinds[s] = "str"
            if what == "f":
                nf = dict(o.fields)
                nf[k] = s
                st.put(i, Inst(o.cls, nf))
            elif what == "v":
                nv = dict(o.vars)
                nv[k] = s
                st.put(i, Frame(nv, o.parent, o.func, o.module))
            elif what == "l":
                sp = mk("splat", mk(op, lid, f"list#{i}"))
                st.put(i, Lst((list(o.items) if k == "append" else []) + [(TRUE, sp)], o.kind))
            elif what == "d":
                items = []
                found = False
                for kk, p, v in o.items:
                    if kk is k:
                        found = True
                        items.append((kk, p if p is TRUE else mk("in", kk, s), s))
                    else:
                        items.append((kk, p, v))
                if not found:
                    items.append((k, mk("in", k, s), s))
                st.put(i, Dct(items, o.opaque, o.kind))

    # -- try / with
    def exc_matches(self, exc, handler, st, fr):
        """Condition under which exception term exc is caught by the handler type expression."""
        if handler is None:
            return TRUE
        if exc.op == "ite":
            return ITE(exc.args[0], self.exc_matches(exc.args[1], handler, st, fr), self.exc_matches(exc.args[2], handler, st, fr))
        types = self.eval(handler, st, fr)
        types = list(types.args) if types.op == "tuple" else [types]
        res = FALSE
        for t in types:
            if t.op == "ext":
                hn = t.args[0].split(".")[-1]
                hc = EXC.get(hn) if t.args[0].startswith("builtins.") else None
                if exc.op == "exc":
                    ec = EXC.get(exc.args[0])
                    if hc is None or ec is None:
                        if hn == exc.args[0]:
                            return TRUE
                        res = OR(res, mk("excmatch", exc, t)) if ec is None else res
                    elif issubclass(ec, hc):
                        return TRUE
                elif exc.op == "ref":
                    c = self.class_of(st, exc)
                    for b in c.external_bases():
                        bn = b.args[0].split(".")[-1]
                        if bn in EXC and hc is not None and issubclass(EXC[bn], hc):
                            return TRUE
                else:
                    if hn in ("Exception", "BaseException"):
                        return TRUE
                    res = OR(res, mk("excmatch", exc, t))
            elif t.op == "cls":
                if exc.op == "ref":
                    c = self.class_of(st, exc)
                    if t.args[0] in c.mro():
                        return TRUE
        return res

    def exec_try(self, s, st, fr):
        self.try_depth += 1
        try:
            o = self.exec_block(s.body, st, fr)
        finally:
            self.try_depth -= 1
        outs = {}
        r = o.pop("raise", None)
        n = o.pop("normal", None)
        for kind, x in o.items():
            self.add_out(outs, kind, x.cond, x.st, x.val)
        if n is not None:
            if s.orelse:
                oe = self.exec_block(s.orelse, n.st, fr)
                for kind, x in oe.items():
                    self.add_out(outs, kind, AND(n.cond, x.cond), x.st, x.val)
            else:
                self.add_out(outs, "normal", n.cond, n.st)
        if r is not None:
            remaining = TRUE
            exc = r.val
            rst = r.st
            for h in s.handlers:
                m = self.exc_matches(exc, h.type, rst, fr)
                c = AND(remaining, m)
                remaining = AND(remaining, NOT(m))
                if c is FALSE:
                    continue
                hs = rst.copy()
                hs.pc = AND(rst.pc, c)
                self.assign_name(hs, fr, "$exc", exc)
                if h.name:
                    self.assign_name(hs, fr, h.name, exc)
                oh = self.exec_block(h.body, hs, fr)
                for kind, x in oh.items():
                    self.add_out(outs, kind, AND(r.cond, c, x.cond), x.st, x.val)
                if remaining is FALSE:
                    break
            if remaining is not FALSE:
                self.add_out(outs, "raise", AND(r.cond, remaining), rst, exc)
        if s.finalbody:
            fin = {}
            for kind, x in outs.items():
                of = self.exec_block(s.finalbody, x.st, fr)
                for k2, y in of.items():
                    if k2 == "normal":
                        self.add_out(fin, kind, AND(x.cond, y.cond), y.st, x.val)
                    else:
                        self.add_out(fin, k2, AND(x.cond, y.cond), y.st, y.val)
            outs = fin
        return outs

    def exec_with(self, s, st, fr):
        ctxs = []
        for item in s.items:
            v = self.eval(item.context_expr, st, fr)
            target = v
            if v.op == "ref" and isinstance(self.obj(st, v), Inst):
                c = self.obj(st, v).cls
                m, _ = c.lookup("__enter__")
                if m is not None:
                    target = self.call_value(st, self.bind(st, m, v, c), [], {}, s)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, target, st, fr)
            ctxs.append(v)
        pre = {}
        ok = self.flush(st, pre, TRUE)
        outs = self.exec_block(s.body, st, fr)
        for v in reversed(ctxs):
            suppress = v.op == "call" and str(v.args[0]).endswith("contextlib.suppress")
            for kind, x in list(outs.items()):
                x.st.pending = []
                self.effect(x.st, "with.exit", [v], {}, s)
                if v.op == "ref" and isinstance(self.obj(x.st, v), Inst):
                    c = self.obj(x.st, v).cls
                    m, _ = c.lookup("__exit__")
                    if m is not None and m.op == "func":
                        self.call_value(x.st, self.bind(x.st, m, v, c), [NONE, NONE, NONE], {}, s)
            if suppress and "raise" in outs:
                r = outs.pop("raise")
                names = [a.args[0].split(".")[-1] for a in v.args[1:] if isinstance(a, T) and a.op == "ext"]
                m = OR(*[self._exc_is(r.val, n) for n in names])
                self.add_out(outs, "normal", AND(r.cond, m), r.st)
                if m is not TRUE:
                    self.add_out(outs, "raise", AND(r.cond, NOT(m)), r.st, r.val)
        if pre:
            for kind, x in outs.items():
                self.add_out(pre, kind, AND(ok, x.cond), x.st, x.val)
            return pre
        return outs

    def _exc_is(self, exc, name):
        if exc.op == "ite":
            return ITE(exc.args[0], self._exc_is(exc.args[1], name), self._exc_is(exc.args[2], name))
        if exc.op == "exc" and exc.args[0] in EXC and name in EXC:
            return TRUE if issubclass(EXC[exc.args[0]], EXC[name]) else FALSE
        return mk("excmatch", exc, mk("ext", name))

    def exec_match(self, s, st, fr):
        subj = self.eval(s.subject, st, fr)
        cases = list(s.cases)

        def go(i, st):
            if i == len(cases):
                return {"normal": Out(TRUE, st)}
            c = cases[i]
            cond = self.match_pattern(c.pattern, subj, st, fr)
            if c.guard is not None:
                cond = AND(cond, self.truth(self.eval(c.guard, st, fr), st))
            cond = self.simp(cond, st.pc)
            if cond is TRUE:
                return self.exec_block(c.body, st, fr)
            if cond is FALSE:
                return go(i + 1, st)
            a, b = st.copy(), st.copy()
            a.pc, b.pc = AND(st.pc, cond), AND(st.pc, NOT(cond))
            return self.join(cond, self.exec_block(c.body, a, fr), go(i + 1, b), st.pc)

        return go(0, st)

    def match_pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            return self.cmp_eq(v, self.eval(p.value, st, fr), st)
        if isinstance(p, ast.MatchSingleton):
            return self.cmp_is(v, const(p.value), st)
        if isinstance(p, ast.MatchOr):
            return OR(*[self.match_pattern(x, v, st, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.match_pattern(p.pattern, v, st, fr)
            if p.name:
                self.assign_name(st, fr, p.name, v)
            return c
        raise Unsupported("match pattern")

    # -- definitions
    def make_func(self, node, st, fr):
        f0 = st.objs[fr]
        m = f0.module
        isclass = "$class" in f0.vars
        outer = self.stack[-1].qualname if self.stack and self.stack[-1].qualname != "<module>" else ""
        if isclass:
            cq = f0.vars["$class"].args[0].qualname
            q = f"{cq}.{getattr(node, 'name', '<lambda>')}"
        else:
            q = (outer + ".<locals>." if outer else "") + getattr(node, "name", "<lambda>")
        frame = fr
        if isclass:  # methods do not see the class scope
            frame = f0.parent
        f = Func(node, m, q, frame, f0.vars["$class"].args[0] if isclass else None)
        a = node.args
        f.defaults = [self.eval(d, st, fr) for d in a.defaults]
        f.kw_defaults = {k.arg: self.eval(d, st, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return mk("func", f)

    def decorate(self, node, v, st, fr):
        for d in reversed(node.decorator_list):
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                v.args[0].kind = "static" if d.id == "staticmethod" else "class"
                continue
            if isinstance(d, ast.Name) and d.id == "property":
                v = mk("prop", v.args[0], None)
                continue
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                base = self.eval(d.value, st, fr)
                if base.op == "prop":
                    if d.attr == "setter":
                        v = mk("prop", base.args[0], v.args[0])
                    elif d.attr == "getter":
                        v = mk("prop", v.args[0], base.args[1])
                    else:
                        v = base
                    continue
            dv = self.eval(d, st, fr)
            nm = dv.args[0] if dv.op == "ext" else dv.args[0] if dv.op == "call" else None
            if nm in ("functools.lru_cache", "functools.cache", "functools.wraps", "functools.cached_property", "abc.abstractmethod", "typing.overload", "typing.final", "typing.override"):
                if nm == "functools.cached_property":
                    v = mk("prop", v.args[0], None)
                if nm in ("functools.lru_cache", "functools.cache") and v.op == "func":
                    v.args[0].memo = True
                continue
            if dv.op == "func" or dv.op == "bound":
                v = self.call_value(st, dv, [v], {}, node)
                continue
            v = mk("call", "decorator", dv, v)
        return v

    def make_class(self, node, st, fr):
        f0 = st.objs[fr]
        bases = []
        for b in node.bases:
            bv = self.eval(b, st, fr)
            bases.append(bv.args[0] if bv.op == "cls" else bv)
        outer = f0.vars["$class"].args[0].qualname + "." if "$class" in f0.vars else ""
        c = Cls(node.name, f0.module, outer + node.name, bases, node)
        fid = self.new_id()
        st.put(fid, Frame({"$class": mk("cls", c)}, fr, None, f0.module))
        # annotations in order for dataclasses / NamedTuples
        for s in node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.fields.append((s.target.id, s.value))
        outs = self.exec_block(node.body, st, fid)
        n = outs.get("normal")
        if n is not None and n.st is not st:
            self.adopt(st, n.st)
        c.ns = {k: v for k, v in st.objs[fid].vars.items() if k != "$class"}
        for d in node.decorator_list:
            dn = d.func if isinstance(d, ast.Call) else d
            dv = self.eval(dn, st, fr)
            if dv.op == "ext" and dv.args[0] == "dataclasses.dataclass":
                c.dataclass = True
        if any(isinstance(b, T) and b.op == "ext" and b.args[0] == "typing.NamedTuple" for b in bases):
            c.dataclass = "namedtuple"
        for k in c.mro()[1:]:
            if k.dataclass and not c.dataclass:
                pass
        return mk("cls", c)

    # -------------------------------------------------------------- assignment
    def assign(self, tg, v, st, fr):
        if isinstance(tg, ast.Name):
            self.assign_name(st, fr, tg.id, v)
        elif isinstance(tg, ast.Attribute):
            base = self.eval(tg.value, st, fr)
            self.setattr(st, base, tg.attr, v, tg)
        elif isinstance(tg, ast.Subscript):
            base = self.eval(tg.value, st, fr)
            key = self.eval(tg.slice, st, fr)
            r = self.setitem(st, base, key, v, tg)
            if r is not None:  # immutable representation (arrays): rebind
                self.assign(tg.value, r, st, fr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if stars:
                vals = self.exact_items(st, v)
                if vals is None:
                    raise Unsupported("starred unpacking of unknown length")
                i = stars[0]
                after = len(tg.elts) - i - 1
                for e, x in zip(tg.elts[:i], vals[:i]):
                    self.assign(e, x, st, fr)
                self.assign(tg.elts[i].value, self.new_list(st, vals[i: len(vals) - after]), st, fr)
                for e, x in zip(tg.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, st, fr)
                return
            vals = self.unpack(st, v, len(tg.elts))
            for e, x in zip(tg.elts, vals):
                self.assign(e, x, st, fr)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, st, v, n):
        v = self.simp_value(v, st.pc)
        if v.op == "ite":
            r = self.fork_value(st, v, lambda s, x: mk("tuple", *self.unpack(s, x, n)))

            def proj(t, i):
                return ITE(t.args[0], proj(t.args[1], i), proj(t.args[2], i)) if t.op == "ite" else t.args[i]

            return [proj(r, i) for i in range(n)]
        if v is NONE:
            self.pend(st, TRUE, mk("exc", "TypeError"))
        vals = self.exact_items(st, v)
        if vals is not None and len(vals) == n:
            return vals
        if vals is not None:
            self.pend(st, TRUE, mk("exc", "ValueError"))
        return [self.getitem(st, v, const(i), None) for i in range(n)]

    def exact_items(self, st, v):
        if v.op in ("tuple", "arr"):
            return list(v.args)
        if v.op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Lst) and all(g is TRUE and x.op != "splat" for g, x in o.items):
                return [x for _, x in o.items]
            if isinstance(o, Dct) and all(p is TRUE for _, p, _ in o.items) and o.opaque is None:
                return [k for k, _, _ in o.items]
            if isinstance(o, Inst) and o.cls.dataclass == "namedtuple":
                return [o.fields[f] for f, _ in o.cls.fields]
        if is_const(v) and isinstance(cval(v), str):
            return [const(ch) for ch in cval(v)]
        return None

    # -------------------------------------------------------------- iteration
    def iterate(self, st, v, node):
        """List of (guard, value); value may be a splat term for an unknown-size part."""
        v = self.simp_value(v, st.pc)
        if v.op in ("tuple", "arr"):
            return [(TRUE, x) for x in v.args]
        if v.op == "garr":
            return list(zip(v.args[::2], v.args[1::2]))
        if is_const(v) and isinstance(cval(v), str):
            return [(TRUE, const(ch)) for ch in cval(v)]
        if v.op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Lst):
                return list(o.items)
            if isinstance(o, Dct):
                out = [(p, k) for k, p, _ in o.items]
                if o.opaque is not None:
                    out.append((TRUE, mk("splat", o.opaque)))
                return out
            if isinstance(o, Inst):
                if o.cls.dataclass == "namedtuple":
                    return [(TRUE, o.fields[f]) for f, _ in o.cls.fields]
                m, _ = o.cls.lookup("__iter__")
                if m is not None and m.op == "func":
                    return self.iterate(st, self.call_value(st, m, [v], {}, node), node)
        if v.op == "ite":
            a = self.iterate(st, v.args[1], node)
            b = self.iterate(st, v.args[2], node)
            c = v.args[0]
            if len(a) == len(b) and all(x[1].op != "splat" and y[1].op != "splat" and x[0] is y[0] for x, y in zip(a, b)):
                return [(x[0], ITE(c, x[1], y[1])) for x, y in zip(a, b)]
            return [(AND(c, g), x) for g, x in a] + [(AND(NOT(c), g), x) for g, x in b]
        return [(TRUE, mk("splat", v))]

    # -------------------------------------------------------------- expressions
    def eval(self, n, st, fr):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, st, fr)

    def ev_Constant(self, n, st, fr):
        try:
            return const(n.value)
        except TypeError:
            return mk("sym", repr(n.value))

    def ev_Name(self, n, st, fr):
        return self.lookup(st, fr, n.id, n)

    def ev_Attribute(self, n, st, fr):
        return self.getattr(st, self.eval(n.value, st, fr), n.attr, n)

    def ev_Tuple(self, n, st, fr):
        vals = self.elts(n.elts, st, fr)
        return mk("tuple", *vals) if vals is not None else mk("call", "tuple?")

    def elts(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                x = self.exact_items(st, v)
                if x is None:
                    raise Unsupported("starred element of unknown length")
                out += x
            else:
                out.append(self.eval(e, st, fr))
        return out

    def ev_List(self, n, st, fr):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                items += self.iterate(st, self.eval(e.value, st, fr), n)
            else:
                items.append((TRUE, self.eval(e, st, fr)))
        return self.alloc(st, Lst(items))

    def ev_Set(self, n, st, fr):
        return self.new_list(st, _dedup(self.elts(n.elts, st, fr)), "set")

    def ev_Dict(self, n, st, fr):
        ref = self.alloc(st, Dct([]))
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(st, ref, self.eval(v, st, fr), n)
            else:
                kk = self.eval(k, st, fr)
                self.setitem(st, ref, kk, self.eval(v, st, fr), n)
        return ref

    def ev_JoinedStr(self, n, st, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v = self.eval(p.value, st, fr)
                if p.format_spec is not None or p.conversion not in (-1, None):
                    spec = self.eval(p.format_spec, st, fr) if p.format_spec is not None else const("")
                    parts.append(mk("fmt", v, spec, const(p.conversion)))
                else:
                    parts.append(v)
        return self.fstr(parts)

    def fstr(self, parts):
        out = []
        for p in parts:
            if p.op == "fstr":
                for q in p.args:
                    out.append(q)
                continue
            if is_const(p) and isinstance(cval(p), (str, int)) and not isinstance(cval(p), bool):
                s = str(cval(p))
                if out and is_const(out[-1]) and isinstance(cval(out[-1]), str):
                    out[-1] = const(cval(out[-1]) + s)
                else:
                    out.append(const(s))
            else:
                out.append(p)
        out = [p for p in out if not (is_const(p) and cval(p) == "")]
        if not out:
            return const("")
        if len(out) == 1 and is_const(out[0]) and isinstance(cval(out[0]), str):
            return out[0]
        return mk("fstr", *out)

    def ev_FormattedValue(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def ev_Lambda(self, n, st, fr):
        return self.make_func(n, st, fr)

    def ev_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def ev_Starred(self, n, st, fr):
        raise Unsupported("starred expression")

    def ev_Await(self, n, st, fr):
        raise Unsupported("await")

    def ev_Yield(self, n, st, fr):
        return self.do_yield(n, st, fr)

    def ev_YieldFrom(self, n, st, fr):
        return self.do_yield(n, st, fr)

    def do_yield(self, n, st, fr):
        acc = None
        fid = fr
        while fid is not None:
            f = st.objs[fid]
            if "$yield" in f.vars:
                acc = f.vars["$yield"]
                break
            fid = f.parent
        if acc is None:
            raise Unsupported("yield outside generator")
        if isinstance(n, ast.YieldFrom):
            self.list_extend(st, acc, self.eval(n.value, st, fr), n)
        else:
            v = self.eval(n.value, st, fr) if n.value is not None else NONE
            self.list_append(st, acc, v)
        return NONE

    def ev_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return NOT(self.truth(v, st, n))
        if isinstance(n.op, ast.USub):
            return self.unary(st, v, neg, "__neg__", n)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.invert(v)
        raise Unsupported("unary")

    def invert(self, v):
        if v.op == "arr":
            return mk("arr", *[self.invert(x) for x in v.args])
        if v.op == "garr":
            return mk("garr", *[x if i % 2 == 0 else self.invert(x) for i, x in enumerate(v.args)])
        if v.op == "sorted":
            k = v.args[0]
            return mk("sorted", k, *[x if i % 3 != 2 else self.invert(x) for i, x in enumerate(v.args[1:])])
        if is_boolop(v):
            return NOT(v)
        if self.kinds.get(v) == "bool":
            return NOT(v)
        if v.op == "ite":
            return ITE(v.args[0], self.invert(v.args[1]), self.invert(v.args[2]))
        return mk("invert", v)

    def unary(self, st, v, f, dunder, node):
        v = self.simp_value(v, st.pc)
        if v.op == "arr":
            return mk("arr", *[self.unary(st, x, f, dunder, node) for x in v.args])
        if v.op == "garr":
            return mk("garr", *[x if i % 2 == 0 else self.unary(st, x, f, dunder, node) for i, x in enumerate(v.args)])
        if v.op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Inst):
                m, _ = o.cls.lookup(dunder)
                if m is not None and m.op == "func":
                    return self.call_value(st, m, [v], {}, node)
        return f(v)

    def ev_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)

        def go(i, st):
            v = self.eval(n.values[i], st, fr)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v, st, n)
            c = self.simp(c, st.pc)
            if c is TRUE:
                return go(i + 1, st) if is_and else v
            if c is FALSE:
                return v if is_and else go(i + 1, st)
            a = st.copy()
            a.pc = AND(st.pc, c if is_and else NOT(c))
            a.pending = []
            objs0 = a.objs
            r = None
            try:
                r = go(i + 1, a)
            except Dead:
                pass
            g = c if is_and else NOT(c)
            b = st.copy()
            b.pc = AND(st.pc, NOT(g))
            if a.objs is objs0 and not a.pending and r is not None:
                res = r
            else:
                return self.join_fork(st, g, a, r, b, v)
            if is_boolop(res) and (is_boolop(v) or True):
                vb = v if is_boolop(v) else None
                if vb is not None:
                    return AND(c, res) if is_and else OR(c, res)
            return ITE(g, res, v)

        return go(0, st)

    def ev_IfExp(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st, n)
        c = self.simp(c, st.pc)
        if c is TRUE:
            return self.eval(n.body, st, fr)
        if c is FALSE:
            return self.eval(n.orelse, st, fr)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        o0 = st.objs
        ra = rb = None
        try:
            ra = self.eval(n.body, a, fr)
        except Dead:
            pass
        try:
            rb = self.eval(n.orelse, b, fr)
        except Dead:
            pass
        if ra is not None and rb is not None and a.objs is o0 and b.objs is o0 and not a.pending and not b.pending:
            return ITE(c, ra, rb)
        return self.join_fork(st, c, a, ra, b, rb)

    def ev_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        res = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            c = self.compare(st, op, left, right, n)
            if len(n.ops) == 1:
                return c
            res = AND(res, self.truth(c, st, n))
            left = right
        return res

    def compare(self, st, op, a, b, node):
        t = type(op)
        if t is ast.Is:
            return self.cmp_is(a, b, st)
        if t is ast.IsNot:
            return NOT(self.cmp_is(a, b, st))
        if t is ast.In:
            return self.contains(st, b, a, node)
        if t is ast.NotIn:
            return NOT(self.contains(st, b, a, node))
        a, b = self.simp_value(a, st.pc), self.simp_value(b, st.pc)
        if a.op in ("arr", "garr") or b.op in ("arr", "garr"):
            return self.broadcast(st, lambda x, y: self.truth(self.compare(st, op, x, y, node), st), a, b)
        if t is ast.Eq:
            return self.cmp_eq(a, b, st, node)
        if t is ast.NotEq:
            return NOT(self.cmp_eq(a, b, st, node))
        dn = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[t]
        if a.op == "ref" and isinstance(self.obj(st, a), Inst):
            m, _ = self.obj(st, a).cls.lookup(dn)
            if m is not None and m.op == "func":
                return self.call_value(st, m, [a, b], {}, node)
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return self.lex(st, t, a.args, b.args)
        if self.is_set(st, a) and self.is_set(st, b):
            if t in (ast.Gt, ast.GtE):
                a, b = b, a
            r = self.subset(st, a, b)
            return r if t in (ast.LtE, ast.GtE) else AND(r, NOT(self.subset(st, b, a)))
        # None compared with a number raises
        for x in (a, b):
            if x is NONE:
                self.pend(st, TRUE, mk("exc", "TypeError"))
        if t is ast.Lt:
            return self.cmp_lt(a, b)
        if t is ast.Gt:
            return self.cmp_lt(b, a)
        if t is ast.LtE:
            return NOT(self.cmp_lt(b, a))
        return NOT(self.cmp_lt(a, b))

    def is_set(self, st, v):
        if v.op != "ref":
            return False
        o = self.obj(st, v)
        return isinstance(o, Lst) and o.kind in SETS and all(x.op != "splat" for _, x in o.items)

    def subset(self, st, a, b):
        return AND(*[OR(NOT(g), self.contains(st, b, x, None)) for g, x in self.obj(st, a).items])

    def set_op(self, st, t, a, b):
        one, two = self.obj(st, a).items, self.obj(st, b).items
        has = lambda c, x: self.contains(st, c, x, None)  # noqa: E731
        if t is ast.Sub:
            out = [(AND(g, NOT(has(b, x))), x) for g, x in one]
        elif t is ast.BitAnd:
            out = [(AND(g, has(b, x)), x) for g, x in one]
        elif t is ast.BitOr:
            out = list(one) + [(AND(g, NOT(has(a, x))), x) for g, x in two]
        else:
            out = [(AND(g, NOT(has(b, x))), x) for g, x in one] + [(AND(g, NOT(has(a, x))), x) for g, x in two]
        return self.alloc(st, Lst([x for x in out if x[0] is not FALSE], "set"))

    def lex(self, st, t, xs, ys):
        if not xs:
            return TRUE if t in (ast.LtE, ast.GtE) else FALSE
        x, y = xs[0], ys[0]
        lt = self.cmp_lt(x, y) if t in (ast.Lt, ast.LtE) else self.cmp_lt(y, x)
        return OR(lt, AND(self.cmp_eq(x, y, st), self.lex(st, t, xs[1:], ys[1:])))

    def contains(self, st, cont, key, node):
        cont = self.simp_value(cont, st.pc)
        if cont.op == "ite":
            return ITE(cont.args[0], self.contains(st, cont.args[1], key, node), self.contains(st, cont.args[2], key, node))
        if cont.op == "tuple" or cont.op == "arr":
            return OR(*[self.cmp_eq(x, key, st, node) for x in cont.args])
        if cont.op == "ref":
            o = self.obj(st, cont)
            if isinstance(o, Lst):
                return OR(*[AND(g, mk("in", key, x.args[0]) if x.op == "splat" else self.cmp_eq(x, key, st, node)) for g, x in o.items])
            if isinstance(o, Dct):
                r = OR(*[AND(p, self.cmp_eq(k, key, st, node)) for k, p, _ in o.items])
                if o.opaque is not None:
                    if not any(k is key for k, _, _ in o.items):
                        r = OR(r, mk("in", key, o.opaque))
                return r
            if isinstance(o, Inst):
                m, _ = o.cls.lookup("__contains__")
                if m is not None and m.op == "func":
                    return self.truth(self.call_value(st, m, [cont, key], {}, node), st, node)
        if is_const(cont) and is_const(key) and isinstance(cval(cont), str) and isinstance(cval(key), str):
            return TRUE if cval(key) in cval(cont) else FALSE
        if cont.op == "keysview":
            return self.contains(st, cont.args[0], key, node)
        if self.chunks:
            r = strings.contains(self, cont, key)
            if r is not None:
                return r
        return mk("in", key, cont)

    # -- arithmetic
    DUNDER = {
        ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"),
        ast.Div: ("__truediv__", "__rtruediv__"), ast.Pow: ("__pow__", "__rpow__"), ast.Mod: ("__mod__", "__rmod__"),
        ast.FloorDiv: ("__floordiv__", "__rfloordiv__"), ast.BitOr: ("__or__", "__ror__"), ast.BitAnd: ("__and__", "__rand__"),
        ast.MatMult: ("__matmul__", "__rmatmul__"), ast.BitXor: ("__xor__", "__rxor__"), ast.LShift: ("__lshift__", "__rlshift__"), ast.RShift: ("__rshift__", "__rrshift__"),
    }

    def ev_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.binop(st, n.op, a, b, n)

    def needs_fork(self, st, v):
        return v.op == "ite" and not self.is_numeric(v) and self._has_obj_leaf(v)

    def _has_obj_leaf(self, v):
        leaves = set()
        _leaves(v, leaves)
        return any(x.op in ("ref", "tuple", "arr", "garr") for x in leaves)

    def binop(self, st, op, a, b, node):
        a, b = self.simp_value(a, st.pc), self.simp_value(b, st.pc)
        if self.needs_fork(st, a):
            return self.fork_value(st, a, lambda s, x: self.binop(s, op, x, b, node))
        if self.needs_fork(st, b):
            return self.fork_value(st, b, lambda s, x: self.binop(s, op, a, x, node))
        t = type(op)
        ia = a.op == "ref" and isinstance(self.obj(st, a), Inst)
        ib = b.op == "ref" and isinstance(self.obj(st, b), Inst)
        if ia or ib:
            d, rd = self.DUNDER[t]
            if ia:
                m, _ = self.obj(st, a).cls.lookup(d)
                if m is not None and m.op == "func":
                    return self.call_value(st, m, [a, b], {}, node)
            if ib:
                m, _ = self.obj(st, b).cls.lookup(rd)
                if m is not None and m.op == "func":
                    return self.call_value(st, m, [b, a], {}, node)
            if a.op in ("arr", "garr") or b.op in ("arr", "garr"):
                pass
            self.note("operator on object without a matching method", node)
            return mk("call", "binop", const(t.__name__), a, b)
        if t in (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor) and self.is_set(st, a) and self.is_set(st, b):
            return self.set_op(st, t, a, b)
        la = a.op == "ref" and isinstance(self.obj(st, a), Lst)
        lb = b.op == "ref" and isinstance(self.obj(st, b), Lst)
        if t is ast.Add:
            if la and lb:
                return self.alloc(st, Lst(self.obj(st, a).items + self.obj(st, b).items, self.obj(st, a).kind))
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.args + b.args))
            if self.shape(a, st) == "str" or self.shape(b, st) == "str":
                return self.fstr([a, b])
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if x.op == "ref" and isinstance(self.obj(st, x), Lst) and is_num(y) and isinstance(cval(y), int):
                    return self.alloc(st, Lst(self.obj(st, x).items * cval(y)))
                if is_const(x) and isinstance(cval(x), str):
                    if is_num(y) and isinstance(cval(y), int):
                        return const(cval(x) * cval(y))
                    return mk("call", "strmul", x, y)
        if t is ast.Mod and self.shape(a, st) == "str":
            return mk("fstr", a, b)
        if t is ast.BitOr and a.op == "ref" and b.op == "ref" and isinstance(self.obj(st, a), Dct) and isinstance(self.obj(st, b), Dct):
            r = self.alloc(st, self.obj(st, a))
            self.dict_update(st, r, b, node)
            return r
        if (a.op in ("arr", "garr") or b.op in ("arr", "garr")) and not (t is ast.MatMult):
            if la:
                a = self.as_array(st, a)
            if lb:
                b = self.as_array(st, b)
            return self.broadcast(st, lambda x, y: self.scalar(st, t, x, y, node), a, b)
        if la or lb:
            d = self.obj(st, a if la else b)
            if t is ast.Div or t is ast.Mult or t is ast.Sub:
                # list (op) numpy scalar: numpy coerces when the other operand is a numpy value
                other = b if la else a
                if self.is_numeric(other) or other.op not in ("ref", "const"):
                    arr = self.as_array(st, a if la else b)
                    return self.broadcast(st, lambda x, y: self.scalar(st, t, x, y, node), arr if la else a, b if la else arr)
        if t is ast.MatMult:
            return self.np_dot(st, a, b)
        return self.scalar(st, t, a, b, node)

    def scalar(self, st, t, a, b, node):
        if a is NONE or b is NONE:
            self.pend(st, TRUE, mk("exc", "TypeError"))
        a, b = self.num(a), self.num(b)
        if t is ast.Add:
            return add(a, b)
        if t is ast.Sub:
            return sub(a, b)
        if t is ast.Mult:
            return mul(a, b)
        if t is ast.Div:
            if is_num(b) and cval(b) == 0:
                if self.try_depth:
                    self.pend(st, TRUE, mk("exc", "ZeroDivisionError"))
                return mk("/", a, b)
            if st.pending is not None and self.try_depth and not is_num(b):
                pass
            return div(a, b)
        if t is ast.Pow:
            return power(a, b)
        if is_num(a) and is_num(b):
            x, y = cval(a), cval(b)
            try:
                if t is ast.Mod:
                    return const(x % y)
                if t is ast.FloorDiv:
                    return const(x // y)
                if t is ast.BitOr:
                    return const(x | y)
                if t is ast.BitAnd:
                    return const(x & y)
            except (ZeroDivisionError, TypeError):
                pass
        if t is ast.BitAnd and is_boolop(a) and is_boolop(b):
            return AND(a, b)
        if t is ast.BitOr and is_boolop(a) and is_boolop(b):
            return OR(a, b)
        if t is ast.BitXor and is_boolop(a) and is_boolop(b):
            return ITE(a, NOT(b), b)
        name = {ast.Mod: "mod", ast.FloorDiv: "floordiv"}.get(t)
        if name:
            return mk(name, a, b)
        if t is ast.Div and False:
            return UNDEF
        return mk("call", "binop", const(t.__name__), a, b)

    def num(self, v):
        if v is TRUE:
            return const(1)
        if v is FALSE:
            return const(0)
        if is_boolop(v):
            return ITE(v, const(1), const(0))
        return v

    def broadcast(self, st, f, a, b):
        if a.op == "garr" or b.op == "garr":
            if a.op == "garr" and b.op == "garr":
                return mk("garr", *[x for g1, v1, v2 in zip(a.args[::2], a.args[1::2], b.args[1::2]) for x in (g1, self.broadcast(st, f, v1, v2))])
            if a.op == "garr":
                return mk("garr", *[x for g, v in zip(a.args[::2], a.args[1::2]) for x in (g, self.broadcast(st, f, v, b))])
            return mk("garr", *[x for g, v in zip(b.args[::2], b.args[1::2]) for x in (g, self.broadcast(st, f, a, v))])
        if a.op == "ref":
            a2 = self.as_array(st, a)
            a = a2 if a2.op == "arr" else a
        if b.op == "ref":
            b2 = self.as_array(st, b)
            b = b2 if b2.op == "arr" else b
        if a.op == "tuple":
            a = mk("arr", *a.args)
        if b.op == "tuple":
            b = mk("arr", *b.args)
        if a.op == "arr" and b.op == "arr":
            da, db = len(np_shape(a)), len(np_shape(b))
            if da > db:
                return mk("arr", *[self.broadcast(st, f, x, b) for x in a.args])
            if db > da:
                return mk("arr", *[self.broadcast(st, f, a, x) for x in b.args])
            if len(a.args) == len(b.args):
                return mk("arr", *[self.broadcast(st, f, x, y) for x, y in zip(a.args, b.args)])
            if len(a.args) == 1:
                return mk("arr", *[self.broadcast(st, f, a.args[0], y) for y in b.args])
            if len(b.args) == 1:
                return mk("arr", *[self.broadcast(st, f, x, b.args[0]) for x in a.args])
            raise Unsupported("array shapes do not match")
        if a.op == "arr":
            return mk("arr", *[self.broadcast(st, f, x, b) for x in a.args])
        if b.op == "arr":
            return mk("arr", *[self.broadcast(st, f, a, y) for y in b.args])
        return f(a, b)

    # -- subscripts
    def ev_Slice(self, n, st, fr):
        return mk("slice", *[self.eval(x, st, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def ev_Subscript(self, n, st, fr):
        base = self.eval(n.value, st, fr)
        key = self.eval(n.slice, st, fr)
        return self.getitem(st, base, key, n)

    def getitem(self, st, v, key, node):
        v = self.simp_value(v, st.pc)
        key = self.simp_value(key, st.pc)
        if v.op == "ite":
            return self.fork_value(st, v, lambda s, x: self.getitem(s, x, key, node))
        if key.op == "ite" and v.op in ("ref", "tuple", "arr"):
            return self.fork_value(st, key, lambda s, k: self.getitem(s, v, k, node))
        if v is NONE:
            self.pend(st, TRUE, mk("exc", "TypeError"))
        if v.op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Dct):
                return self.dict_get(st, v, key, None, node)
            if isinstance(o, Lst):
                return self.seq_get(st, list(o.items), key, node, v)
            if isinstance(o, Inst):
                m, _ = o.cls.lookup("__getitem__")
                if m is not None and m.op == "func":
                    return self.call_value(st, m, [v, key], {}, node)
                if o.cls.dataclass == "namedtuple" and is_num(key):
                    return o.fields[o.cls.fields[cval(key)][0]]
        if v.op == "tuple":
            return self.seq_get(st, [(TRUE, x) for x in v.args], key, node, v)
        if v.op in ("arr", "garr", "sorted"):
            return self.np_index(st, v, key, node)
        if is_const(v) and isinstance(cval(v), str):
            if is_num(key):
                try:
                    return const(cval(v)[cval(key)])
                except IndexError:
                    self.pend(st, TRUE, mk("exc", "IndexError"))
            if key.op == "slice" and all(x is NONE or is_num(x) for x in key.args):
                return const(cval(v)[slice(*[None if x is NONE else cval(x) for x in key.args])])
        if v.op == "rematch":
            r = strings.match_method(self, st, v, "group", [key], node)
            if r is not None:
                return r
        if self.chunks and (v in self.chunks or v.op == "fstr" or is_const(v)):
            r = None
            if key.op == "slice" and key.args[2] is NONE:
                r = strings.cut(self, v, key.args[0], key.args[1])
            elif key.op != "slice" and strings.lin(self, key) is not None:
                r = strings.cut(self, v, key, add(key, const(1)))
                if r is const(""):
                    r = None
            if r is not None:
                return r
        if v.op == "ext" and v.args[0] == "numpy.r_":
            from .models import as_array
            parts = [as_array(self, st, x) for x in (key.args if key.op == "tuple" else (key,))]
            if all(x.op == "arr" or self.is_numeric(x) for x in parts):
                return mk("arr", *[y for x in parts for y in (x.args if x.op == "arr" else (x,))])
            return mk("item", v, key)
        if v.op == "cls" or v.op == "ext":
            return v  # generic alias
        return mk("item", v, key)

    def seq_get(self, st, items, key, node, v):
        exact = all(g is TRUE and x.op != "splat" for g, x in items)
        if key.op == "slice":
            lo, hi, step = key.args
            if exact and all(x is NONE or is_num(x) for x in key.args):
                part = items[slice(*[None if x is NONE else int(cval(x)) for x in key.args])]
                if v.op == "tuple":
                    return mk("tuple", *[x for _, x in part])
                return self.alloc(st, Lst(part, "list"))
            if lo is NONE and hi is NONE:
                its = items if step is NONE else list(reversed(items))
                return self.alloc(st, Lst(its))
            # symbolic start: guard by position
            if exact and step is NONE and not any(v < 0 for x in (lo, hi) for v in (const_leaves(x) or ())):
                out = []
                for i, (g, x) in enumerate(items):
                    c = TRUE
                    if lo is not NONE:
                        c = AND(c, NOT(self.cmp_lt(const(i), lo)))
                    if hi is not NONE:
                        c = AND(c, self.cmp_lt(const(i), hi))
                    if c is not FALSE:
                        out.append((c, x))
                return self.alloc(st, Lst(out))
            if step is NONE and hi is NONE and is_num(lo) and cval(lo) >= 0:
                # drop the first k of a guarded list
                out = []
                for i, (g, x) in enumerate(items):
                    before = [g2 for g2, _ in items[:i]]
                    if x.op == "splat":
                        out = None
                        break
                    c = AND(g, self.at_least(before, int(cval(lo))))
                    if c is not FALSE:
                        out.append((c, x))
                if out is not None:
                    return self.alloc(st, Lst(out))
            return mk("item", v if v.op == "ref" else v, key)
        if is_num(key) and not isinstance(cval(key), bool):
            i = int(cval(key))
            if exact:
                if -len(items) <= i < len(items):
                    return items[i][1]
                self.pend(st, TRUE, mk("exc", "IndexError"))
            if i < 0:
                # i-th from the end among present entries
                return self.nth(st, list(reversed(items)), -i - 1, node, v)
            return self.nth(st, items, i, node, v)
        if exact and items and (self.is_numeric(key) or key.op in ("sym", "pre", "post", "item", "+", "call")):
            r = UNDEF
            n = len(items)
            inr = FALSE
            for i, (g, x) in enumerate(items):
                c = self.cmp_eq(key, const(i), st)
                cn = self.cmp_eq(key, const(i - n), st)
                r = ITE(OR(c, cn), x, r)
                inr = OR(inr, c, cn)
            return r
        return mk("item", v, key)

    def at_least(self, guards, k):
        if k == 0:
            return TRUE
        # number of true guards >= k
        dp = [TRUE] + [FALSE] * k
        for g in guards:
            for j in range(k, 0, -1):
                dp[j] = OR(dp[j], AND(g, dp[j - 1]))
        return dp[k]

    def nth(self, st, items, i, node, v):
        r = UNDEF
        present = FALSE
        chain = []
        seen = []
        for g, x in items:
            if x.op == "splat":
                c = self.exactly(seen, i) if i else NOT(OR(*seen)) if seen else TRUE
                chain.append((c, mk("last" if True else "", x.args[0], const(i))))
                break
            c = AND(g, self.exactly(seen, i))
            chain.append((c, x))
            present = OR(present, c)
            seen.append(g)
            if c is TRUE:
                break
        else:
            missing = NOT(self.at_least(seen, i + 1))
            missing = self.simp(missing, st.pc)
            if missing is not FALSE:
                self.pend(st, missing, mk("exc", "IndexError"))
        for c, x in reversed(chain):
            c = self.simp(c, st.pc)
            r = ITE(c, x, r)
        return r

    def exactly(self, guards, k):
        return AND(self.at_least(guards, k), NOT(self.at_least(guards, k + 1))) if guards else (TRUE if k == 0 else FALSE)

    def dict_get(self, st, ref, key, default, node):
        o = self.obj(st, ref)
        if key.op == "keyerr":
            pass
        r = None
        miss = TRUE
        chain = []
        for k, p, v in o.items:
            c = AND(p, self.cmp_eq(k, key, st))
            c = self.simp(c, st.pc)
            if c is FALSE:
                continue
            chain.append((c, v))
            miss = AND(miss, NOT(c))
            if c is TRUE:
                break
        if o.opaque is not None and miss is not FALSE:
            tail = mk("item", o.opaque, key)
            if default is not None:
                tail = ITE(mk("in", key, o.opaque), tail, default)
        elif default is not None:
            tail = default
        else:
            tail = UNDEF
            miss = self.simp(miss, st.pc)
            if miss is TRUE:
                self.pend(st, TRUE, mk("exc", "KeyError"))
            elif miss is not FALSE:
                self.pend(st, miss, mk("exc", "KeyError"))
        r = tail
        for c, v in reversed(chain):
            r = ITE(c, v, r)
        return r

    def setitem(self, st, v, key, val, node):
        v = self.simp_value(v, st.pc)
        key = self.simp_value(key, st.pc)
        if v.op == "ite" or key.op == "ite":
            w = v if v.op == "ite" else key
            c = w.args[0]
            a, b = st.copy(), st.copy()
            a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
            if v.op == "ite":
                self.setitem(a, v.args[1], key, val, node)
                self.setitem(b, v.args[2], key, val, node)
            else:
                self.setitem(a, v, key.args[1], val, node)
                self.setitem(b, v, key.args[2], val, node)
            self.adopt(st, self.merge(c, a, b))
            return None
        if v.op == "ref":
            o = self.obj(st, v)
            if self.writes is not None:
                self.writes.append(("item", v, key, val, st.pc, node, self.stack[-1] if self.stack else None))
            if isinstance(o, Dct):
                items = []
                found = FALSE
                for k, p, x in o.items:
                    c = self.cmp_eq(k, key, st)
                    if c is FALSE:
                        items.append((k, p, x))
                    else:
                        items.append((k, OR(p, c) if c is not TRUE else TRUE, ITE(c, val, x) if p is not FALSE else val))
                        found = OR(found, c)
                if found is not TRUE:
                    if found is FALSE or key.op != "const":
                        if found is FALSE:
                            items.append((key, TRUE, val))
                        else:
                            items.append((key, NOT(found), val))
                    else:
                        items.append((key, NOT(found), val))
                st.put(v.args[0], Dct(items, o.opaque, o.kind))
                return None
            if isinstance(o, Lst):
                if is_num(key) and all(g is TRUE and x.op != "splat" for g, x in o.items):
                    i = int(cval(key))
                    if -len(o.items) <= i < len(o.items):
                        items = list(o.items)
                        items[i] = (TRUE, val)
                        st.put(v.args[0], Lst(items, o.kind))
                        return None
                    self.pend(st, TRUE, mk("exc", "IndexError"))
                if is_num(key) and cval(key) == -1:
                    items = list(o.items)
                    later = FALSE
                    for j in range(len(items) - 1, -1, -1):
                        g, x = items[j]
                        if x.op == "splat":
                            break
                        items[j] = (g, ITE(AND(g, NOT(later)), val, x))
                        later = OR(later, g)
                    st.put(v.args[0], Lst(items, o.kind))
                    return None
                if all(g is TRUE and x.op != "splat" for g, x in o.items):
                    items = [(TRUE, ITE(self.cmp_eq(key, const(i), st), val, x)) for i, (g, x) in enumerate(o.items)]
                    st.put(v.args[0], Lst(items, o.kind))
                    return None
                self.note("store at unknown list position", node)
                st.put(v.args[0], Lst([(TRUE, mk("splat", mk("call", "stored", v, key, val)))], o.kind))
                return None
            if isinstance(o, Inst):
                m, _ = o.cls.lookup("__setitem__")
                if m is not None and m.op == "func":
                    self.call_value(st, m, [v, key, val], {}, node)
                    return None
        if v.op == "arr":
            return self.np_store(st, v, key, val)
        self.effect(st, "setitem", [v, key, val], {}, node)
        return None

    def delitem(self, st, v, key, node):
        if v.op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Dct):
                st.put(v.args[0], Dct([(k, AND(p, NOT(self.cmp_eq(k, key, st))), x) for k, p, x in o.items if self.cmp_eq(k, key, st) is not TRUE], o.opaque, o.kind))
                return
            if isinstance(o, Lst) and is_num(key):
                items = list(o.items)
                try:
                    del items[int(cval(key))]
                    st.put(v.args[0], Lst(items, o.kind))
                except IndexError:
                    self.pend(st, TRUE, mk("exc", "IndexError"))
                return
        self.note("del not modelled", node)

    # -- comprehensions
    def ev_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, "list")

    def ev_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, "set")

    def ev_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, "gen")

    def ev_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, "dict")

    def comp(self, n, st, fr, kind):
        f0 = st.objs[fr]
        # comprehension scope: a frame whose parent is the current one
        parent = fr
        if "$class" in f0.vars:
            parent = fr
        fid = self.new_id()
        ff = Func(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Constant(None)), f0.module, self.stack[-1].qualname if self.stack else "?")
        ff.nonlocals = {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
        st.put(fid, Frame({}, parent, ff, f0.module))
        out = []
        dref = self.alloc(st, Dct([])) if kind == "dict" else None

        def gen(i, st, guard):
            if i == len(n.generators):
                if kind == "dict":
                    k = self.eval(n.key, st, fid)
                    v = self.eval(n.value, st, fid)
                    if guard is TRUE:
                        self.setitem(st, dref, k, v, n)
                    else:
                        a, b = st.copy(), st.copy()
                        self.setitem(a, dref, k, v, n)
                        self.adopt(st, self.merge(guard, a, b))
                else:
                    out.append((guard, self.eval(n.elt, st, fid)))
                return
            g = n.generators[i]
            it = self.eval(g.iter, st, fr if i == 0 else fid)
            for gd, v in self.iterate(st, it, n):
                if v.op == "splat":
                    lid = self.fresh_loop()
                    ek = self.kinds.get(("elem", v.args[0]))
                    el = ek(self, st, v.args[0], lid) if ek else mk("item", v.args[0], mk("idx", lid))
                    self.assign(g.target, el, st, fid)
                    c = TRUE
                    for cond in g.ifs:
                        c = AND(c, self.truth(self.eval(cond, st, fid), st, n))
                    if i == len(n.generators) - 1 and kind != "dict":
                        val = self.eval(n.elt, st, fid)
                        out.append((guard, mk("splat", mk("mapped", v.args[0], mk("idx", lid), val, c))))
                    else:
                        self.note("nested comprehension over unknown collection", n)
                        out.append((guard, mk("splat", mk("mapped", v.args[0], mk("idx", lid), NONE, c))))
                    continue
                gd2 = self.simp(gd, st.pc)
                if gd2 is FALSE:
                    continue
                pc0 = st.pc
                st.pc = AND(pc0, gd2)
                self.assign(g.target, v, st, fid)
                c = gd2
                for cond in g.ifs:
                    x = self.truth(self.eval(cond, st, fid), st, n)
                    x = self.simp(x, st.pc)
                    c = AND(c, x)
                    st.pc = AND(st.pc, x)
                    if c is FALSE:
                        break
                if c is not FALSE:
                    gen(i + 1, st, AND(guard, c))
                st.pc = pc0

        gen(0, st, TRUE)
        if kind == "dict":
            return dref
        items = [x for x in out if x[0] is not FALSE]
        if kind == "set" and all(g is TRUE for g, _ in items):
            items = [(TRUE, x) for x in _dedup([v for _, v in items])]
        return self.alloc(st, Lst(items, "set" if kind == "set" else "list"))

    # -------------------------------------------------------------- calls
    def ev_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = self.stack[-1]
            fid = fr
            while fid is not None and st.objs[fid].func is not None and st.objs[fid].func.cls is None:
                fid = st.objs[fid].parent
            frame = st.objs[fid] if fid is not None else None
            if frame is not None and frame.func is not None and frame.func.cls is not None:
                fn = frame.func
                first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
                return mk("super", fn.cls, frame.vars[first])
            raise Unsupported("super()")
        f = self.eval(n.func, st, fr)
        args, kwargs = [], {}
        extra = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                v = self.simp_value(v, st.pc)
                x = self.exact_items(st, v)
                if x is None and v.op == "ite":
                    extra = (len(args), v)
                    continue
                if x is None:
                    if f.op in ("ext", "extbound", "attr"):
                        args.append(mk("starred", v))
                        continue
                    raise Unsupported("*args of unknown length")
                args += x
            else:
                args.append(self.eval(a, st, fr))
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                if v.op == "ref" and isinstance(self.obj(st, v), Dct):
                    for kk, p, x in self.obj(st, v).items:
                        if is_const(kk):
                            kwargs[cval(kk)] = x
                else:
                    raise Unsupported("**kwargs of unknown content")
            else:
                kwargs[k.arg] = v
        if extra is not None:
            def go(s2, v):
                x = self.exact_items(s2, v)
                if x is None:
                    x = [mk("starred", v)]
                return self.call_value(s2, f, args[: extra[0]] + x + args[extra[0]:], kwargs, n)

            return self.fork_value(st, extra[1], go)
        return self.call_value(st, f, args, kwargs, n)

    def call_value(self, st, f, args, kwargs, node):
        f = self.simp_value(f, st.pc)
        op = f.op
        self.callsites += 1
        if op == "ite":
            return self.fork_value(st, f, lambda s, x: self.call_value(s, x, args, kwargs, node))
        if op == "func":
            return self.call_func(st, f.args[0], args, kwargs, node)
        if op == "bound":
            return self.call_value(st, f.args[0], [f.args[1]] + list(args), kwargs, node)
        if op == "cls":
            return self.instantiate(st, f.args[0], args, kwargs, node)
        if op == "extbound":
            return self.call_builtin_method(st, f.args[0], f.args[1], args, kwargs, node)
        if op == "ext":
            return self.call_ext(st, f.args[0], args, kwargs, node)
        if op == "partial":
            return self.call_value(st, f.args[0], list(f.args[1]) + list(args), {**dict(f.args[2]), **kwargs}, node)
        if op == "ref":
            o = self.obj(st, f)
            if isinstance(o, Inst):
                m, _ = o.cls.lookup("__call__")
                if m is not None and m.op == "func":
                    return self.call_value(st, m, [f] + list(args), kwargs, node)
        if op == "attr":
            # method of an opaque object
            return self.call_opaque_method(st, f.args[0], f.args[1], args, kwargs, node)
        if f is NONE:
            self.pend(st, TRUE, mk("exc", "TypeError"))
        self.effect(st, "opaque-call", [f] + list(args), kwargs, node)
        return mk("call", "opaque", f, *args)

    def call_method(self, st, v, name, args, kwargs, node):
        return self.call_value(st, self.getattr(st, v, name, node), args, kwargs, node)

    def call_opaque_method(self, st, obj, name, args, kwargs, node):
        ov = self.method_overrides.get(name)
        if ov is not None:
            return ov(self, st, obj, args, kwargs, node)
        r = mk("call", "." + name, obj, *args, *[mk("kw", k, v) for k, v in sorted(kwargs.items())])
        self.effect(st, "." + name, [obj] + list(args), kwargs, node, r)
        return r

    def bind_args(self, st, f, args, kwargs, node):
        """Parameter binding; a mismatch is a TypeError."""
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        kwargs = dict(kwargs)
        if len(args) > len(params) and not a.vararg:
            return None, f"takes {len(params)} positional arguments but {len(args)} were given"
        for p, v in zip(params, args):
            vars[p] = v
        if a.vararg:
            vars[a.vararg.arg] = mk("tuple", *args[len(params):])
        for k in list(kwargs):
            if k in [x.arg for x in a.args] or k in [x.arg for x in a.kwonlyargs]:
                if k in vars:
                    return None, f"got multiple values for argument {k}"
                vars[k] = kwargs.pop(k)
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            vars.setdefault(p, d)
        for k, d in f.kw_defaults.items():
            vars.setdefault(k, d)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in vars:
                return None, f"missing argument {p}"
        if a.kwarg:
            vars[a.kwarg.arg] = self.alloc(st, Dct([(const(k), TRUE, v) for k, v in kwargs.items()]))
        elif kwargs:
            return None, f"got an unexpected keyword argument {sorted(kwargs)[0]}"
        return vars, None

    def call_func(self, st, f, args, kwargs, node):
        for key in (f"{f.module.name}.{f.qualname}", f.qualname, f.name):
            ov = self.overrides.get(key)
            if ov is not None:
                r = ov(self, st, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
        if f.memo:
            key = (f, tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0])))
            if key in self.memo:
                return self.memo[key]
            f.memo = False
            try:
                r = self.memo[key] = self.call_func(st, f, args, kwargs, node)
            finally:
                f.memo = True
            return r
        vars, err = self.bind_args(st, f, args, kwargs, node)
        if vars is None:
            self.note(f"call of {f.qualname} {err}", node)
            self.pend(st, TRUE, mk("exc", "TypeError", const(err)))
        if len(self.stack) > self.max_depth or sum(1 for g in self.stack if g is f) > 6:
            self.note(f"recursion in {f.qualname} cut off", node)
            return mk("call", "recursion:" + f.qualname, *args)
        self.visited.add(f"{f.module.name}.{f.qualname}")
        fid = self.new_id()
        if f.is_gen:
            vars["$yield"] = self.alloc(st, Lst([]))
        st.put(fid, Frame(vars, f.frame if f.frame is not None else None, f, f.module))
        if isinstance(f.node, ast.Lambda):
            self.stack.append(f)
            try:
                return self.eval(f.node.body, st, fid)
            finally:
                self.stack.pop()
        saved = st.pending
        self.stack.append(f)
        try:
            outs = self.exec_block(f.node.body, st_enter(st), fid)
        finally:
            self.stack.pop()
        res = {}
        for kind in ("return", "normal"):
            x = outs.get(kind)
            if x is not None:
                self.add_out(res, "ret", x.cond, x.st, x.val if x.val is not None else NONE)
        st.pending = saved
        r = outs.get("raise")
        if r is not None:
            st.pending.append((r.cond, r.st, r.val))
        ret = res.get("ret")
        if ret is None:
            raise Dead()
        self.adopt(st, ret.st)
        if ret.cond is not TRUE and r is not None:
            st.pc = AND(st.pc, NOT(r.cond))
        if f.is_gen:
            return st.objs[fid].vars["$yield"]
        return ret.val

    def instantiate(self, st, c, args, kwargs, node):
        for key in (c.qualname, c.name):
            ov = self.overrides.get("new:" + key)
            if ov is not None:
                r = ov(self, st, c, args, kwargs, node)
                if r is not NotImplemented:
                    return r
        ref = self.alloc(st, Inst(c, {}))
        init, owner = c.lookup("__init__")
        if init is not None and init.op == "func":
            self.call_func(st, init.args[0], [ref] + list(args), kwargs, node)
            return ref
        dcs = [k for k in c.mro() if k.dataclass]
        if dcs:
            fields = {}
            order = []
            for k in reversed(dcs):
                for nm, default in k.fields:
                    if nm not in [o[0] for o in order]:
                        order.append((nm, default, k))
            kw = dict(kwargs)
            if len(args) > len(order):
                self.pend(st, TRUE, mk("exc", "TypeError"))
            for i, (nm, default, k) in enumerate(order):
                if i < len(args):
                    fields[nm] = args[i]
                elif nm in kw:
                    fields[nm] = kw.pop(nm)
                elif default is not None:
                    if isinstance(default, ast.Call) and any(x.arg == "default_factory" for x in default.keywords):
                        fac = [x.value for x in default.keywords if x.arg == "default_factory"][0]
                        fv = self.eval(fac, st, self.modframes[k.module.name])
                        fields[nm] = self.call_value(st, fv, [], {}, node)
                    elif isinstance(default, ast.Call) and any(x.arg == "default" for x in default.keywords):
                        fields[nm] = self.eval([x.value for x in default.keywords if x.arg == "default"][0], st, self.modframes[k.module.name])
                    else:
                        fields[nm] = k.ns.get(nm, NONE)
                else:
                    self.note(f"missing argument {nm} for {c.name}", node)
                    self.pend(st, TRUE, mk("exc", "TypeError"))
            st.put(ref.args[0], Inst(c, fields))
            pi, _ = c.lookup("__post_init__")
            if pi is not None and pi.op == "func":
                self.call_func(st, pi.args[0], [ref], {}, node)
            return ref
        if args or kwargs:
            if not c.external_bases():
                self.note(f"{c.name}() takes no arguments", node)
                self.pend(st, TRUE, mk("exc", "TypeError"))
            else:
                st.put(ref.args[0], Inst(c, {"args": mk("tuple", *args)}))
        return ref

    # -- containers
    def list_append(self, st, ref, v):
        o = self.obj(st, ref)
        if self.writes is not None:
            self.writes.append(("append", ref, v, None, st.pc, None, self.stack[-1] if self.stack else None))
        st.put(ref.args[0], Lst(o.items + ((TRUE, v),), o.kind))

    def list_extend(self, st, ref, v, node):
        items = self.iterate(st, v, node)
        o = self.obj(st, ref)
        if self.writes is not None:
            self.writes.append(("append", ref, v, None, st.pc, node, self.stack[-1] if self.stack else None))
        st.put(ref.args[0], Lst(o.items + tuple(items), o.kind))

    def pair(self, st, x):
        """The two members of an element that is a pair, else None."""
        x = self.simp_value(x, st.pc)
        if x.op == "ite":
            a, b = self.pair(st, x.args[1]), self.pair(st, x.args[2])
            if a is None or b is None:
                return None
            return ITE(x.args[0], a[0], b[0]), ITE(x.args[0], a[1], b[1])
        if x.op in ("tuple", "arr") and len(x.args) == 2:
            return x.args
        if x.op == "ref" and isinstance(self.obj(st, x), Lst):
            its = self.obj(st, x).items
            if len(its) == 2 and all(g is TRUE and y.op != "splat" for g, y in its):
                return its[0][1], its[1][1]
        return None

    def dict_update(self, st, ref, v, node):
        v = self.simp_value(v, st.pc)
        if v.op == "ite":
            c = v.args[0]
            a, b = st.copy(), st.copy()
            self.dict_update(a, ref, v.args[1], node)
            self.dict_update(b, ref, v.args[2], node)
            self.adopt(st, self.merge(c, a, b))
            return
        if v.op == "ref" and isinstance(self.obj(st, v), Dct):
            src = self.obj(st, v)
            for k, p, x in src.items:
                if p is TRUE:
                    self.setitem(st, ref, k, x, node)
                elif p is not FALSE:
                    a, b = st.copy(), st.copy()
                    self.setitem(a, ref, k, x, node)
                    self.adopt(st, self.merge(p, a, b))
            if src.opaque is not None:
                o = self.obj(st, ref)
                if o.opaque is None and not o.items:
                    st.put(ref.args[0], Dct(o.items + src.items, src.opaque, o.kind))
                else:
                    st.put(ref.args[0], Dct(o.items, mk("call", "merged", o.opaque or NONE, src.opaque), o.kind))
            return
        items = self.iterate(st, v, node) if v.op in ("tuple", "ref") else None
        if items is not None:
            pairs = [(g, self.pair(st, x)) for g, x in items]
            if all(q is not None for _, q in pairs):
                for g, (k, x) in pairs:
                    if g is TRUE:
                        self.setitem(st, ref, k, x, node)
                    elif g is not FALSE:
                        a, b = st.copy(), st.copy()
                        a.pc, b.pc = AND(st.pc, g), AND(st.pc, NOT(g))
                        self.setitem(a, ref, k, x, node)
                        pc = st.pc
                        self.adopt(st, self.merge(g, a, b))
                        st.pc = pc
                return
        o = self.obj(st, ref)
        st.put(ref.args[0], Dct(o.items, mk("call", "merged", o.opaque or NONE, v), o.kind))

    def length(self, st, v):
        v = self.simp_value(v, st.pc)
        if v.op == "ite":
            return ITE(v.args[0], self.length(st, v.args[1]), self.length(st, v.args[2]))
        if v.op in ("tuple", "arr"):
            return const(len(v.args))
        if v.op == "garr":
            return _count(v.args[::2])
        if is_const(v) and isinstance(cval(v), str):
            return const(len(cval(v)))
        if v.op == "ref":
            o = self.obj(st, v)
            if isinstance(o, Lst):
                gs = [g for g, x in o.items if x.op != "splat"]
                r = _count(gs)
                for g, x in o.items:
                    if x.op == "splat":
                        s = mk("len", x.args[0])
                        r = add(r, s if g is TRUE else ITE(g, s, const(0)))
                return r
            if isinstance(o, Dct) and o.opaque is None:
                return _count([p for _, p, _ in o.items])
            if isinstance(o, Inst):
                m, _ = o.cls.lookup("__len__")
                if m is not None and m.op == "func":
                    return self.call_value(st, m, [v], {}, None)
                if o.cls.dataclass == "namedtuple":
                    return const(len(o.cls.fields))
        if v.op == "sorted":
            return _count(v.args[1::3])
        if self.chunks:
            r = strings.length(self, v)
            if r is not None:
                return r
        return mk("len", v)



def st_enter(st):
    st.pending = []
    return st


def _count(gs):
    n = sum(1 for g in gs if g is TRUE)
    r = const(n)
    for g in gs:
        if g is not TRUE and g is not FALSE:
            r = add(r, ITE(g, const(1), const(0)))
    return r


def _dedup(vals):
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out


def _leaves(v, out):
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack += [x.args[1], x.args[2]]
        else:
            out.add(x)


def _as_load(t):
    import copy

    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def np_shape(v):
    sh = []
    while v.op == "arr":
        sh.append(len(v.args))
        if not v.args:
            break
        v = v.args[0]
    return tuple(sh)


def _install():
    from . import models

    for n in ("call_ext", "call_builtin_method", "np_dot", "np_index", "np_store", "np_transpose", "as_array", "np_norm",
              "np_reduce", "np_map", "type_of", "isinstance_", "sum_", "minmax", "str_method", "list_method", "dict_method",
              "arr_method", "num_method"):
        setattr(Engine, n, getattr(models, n))


_install()
