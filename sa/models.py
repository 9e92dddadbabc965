"""Models of the builtins, math, numpy and the standard library used by the value-flow engine.

Every function takes the Engine as `self`.  A library call without a model is an opaque value and an effect.
"""
import ast
from fractions import Fraction

from .terms import (
    T, mk, const, sym, is_const, is_num, cval, TRUE, FALSE, NONE, UNDEF, AND, OR, NOT, ITE, is_boolop, show,
)
from . import strings
from . import engine as E


class _Shape(Exception):
    pass


def _lst(self, st, v):
    return v.op == "ref" and isinstance(self.obj(st, v), E.Lst)


def _dct(self, st, v):
    return v.op == "ref" and isinstance(self.obj(st, v), E.Dct)


def _inst(self, st, v):
    return v.op == "ref" and isinstance(self.obj(st, v), E.Inst)


def gate(self, st, v, fn):
    """Apply a pure function below gates."""
    v = self.simp_value(v, st.pc)
    if v.op == "ite":
        return ITE(v.args[0], gate(self, st, v.args[1], fn), gate(self, st, v.args[2], fn))
    return fn(v)


# ------------------------------------------------------------------ types
PYT = {"int": "builtins.int", "float": "builtins.float", "str": "builtins.str", "bool": "builtins.bool"}


def tname(self, st, v):
    """Type name of a term, or None when unknown."""
    if is_const(v):
        x = cval(v)
        if x is None:
            return "NoneType"
        if isinstance(x, bool):
            return "bool"
        if isinstance(x, int):
            return "int"
        if isinstance(x, Fraction):
            return "float"
        if isinstance(x, str):
            return "str"
        if isinstance(x, bytes):
            return "bytes"
        return None
    k = self.kinds.get(v)
    if v.op in ("sym", "pre", "post", "item", "attr") and isinstance(k, str):
        return {"int": "int", "real": "float", "pos": "float", "nonneg": "float", "neg": "float", "nz": "float", "str": "str", "bool": "bool", "npfloat": "float64", "path": "Path"}.get(k)
    if is_boolop(v):
        return "bool"
    if v.op == "len":
        return "int"
    if v.op in ("fstr",):
        return "str"
    if v.op == "tuple":
        return "tuple"
    if v.op in ("arr", "garr"):
        return "ndarray"
    if v.op == "ref":
        o = self.obj(st, v)
        if isinstance(o, E.Lst):
            return {"list": "list", "set": "set", "gen": "generator"}.get(o.kind, o.kind)
        if isinstance(o, E.Dct):
            return "dict"
    if self.is_numeric(v):
        return "float"
    return None


def type_of(self, st, v):
    v = self.simp_value(v, st.pc)
    if v.op == "ite":
        return ITE(v.args[0], type_of(self, st, v.args[1]), type_of(self, st, v.args[2]))
    if _inst(self, st, v):
        return mk("cls", self.obj(st, v).cls)
    n = tname(self, st, v)
    if n is None:
        return mk("call", "type", v)
    if n == "ndarray":
        return mk("ext", "numpy.ndarray")
    if n == "float64":
        return mk("ext", "numpy.float64")
    if n == "Path":
        return mk("ext", "pathlib.Path")
    return mk("ext", "builtins." + n)


ABC = {
    "list": {"Sequence", "Iterable", "Collection", "Sized", "Container", "MutableSequence", "Reversible"},
    "tuple": {"Sequence", "Iterable", "Collection", "Sized", "Container", "Reversible"},
    "str": {"Sequence", "Iterable", "Collection", "Sized", "Container", "Reversible"},
    "dict": {"Mapping", "MutableMapping", "Iterable", "Collection", "Sized", "Container"},
    "set": {"Set", "MutableSet", "Iterable", "Collection", "Sized", "Container"},
    "int": {"Number", "Real", "Integral", "Rational", "Complex", "SupportsFloat"},
    "bool": {"Number", "Real", "Integral", "Rational", "Complex"},
    "float": {"Number", "Real", "Complex"},
    "float64": {"Number", "Real", "Complex"},
    "ndarray": {"Iterable", "Sized", "Container", "Collection"},
}


def isinstance_(self, st, v, t, node=None):
    v = self.simp_value(v, st.pc)
    if v.op == "ite":
        return ITE(v.args[0], isinstance_(self, st, v.args[1], t), isinstance_(self, st, v.args[2], t))
    if t.op == "tuple":
        return OR(*[isinstance_(self, st, v, x) for x in t.args])
    if t.op == "call" and t.args and t.args[0] == "binop":  # X | Y
        return OR(*[isinstance_(self, st, v, x) for x in t.args[2:]])
    if _inst(self, st, v):
        c = self.obj(st, v).cls
        if t.op == "cls":
            return TRUE if t.args[0] in c.mro() else FALSE
        if t.op == "ext":
            if t.args[0] == "builtins.object":
                return TRUE
            if c.dataclass == "namedtuple" and t.args[0] in ("builtins.tuple",):
                return TRUE
            for b in c.external_bases():
                if b is t:
                    return TRUE
                bn, tn = b.args[0].split(".")[-1], t.args[0].split(".")[-1]
                if bn in E.EXC and tn in E.EXC and issubclass(E.EXC[bn], E.EXC[tn]):
                    return TRUE
            short = t.args[0].split(".")[-1]
            need = {"Iterable": "__iter__", "Sized": "__len__", "Sequence": "__getitem__"}.get(short)
            if need and c.lookup(need)[0] is not None and short != "Sequence":
                return TRUE
            return FALSE
    n = tname(self, st, v)
    if v.op in ("func", "bound", "cls", "mod", "ext"):
        return FALSE if t.op in ("cls", "ext") and t.args[0] not in ("builtins.object", "builtins.type") else TRUE
    if t.op == "cls":
        if n is not None:
            return FALSE
        return mk("isinst", v, t)
    if t.op == "ext":
        tn = t.args[0].split(".")[-1]
        if t.args[0] == "builtins.object":
            return TRUE
        if n is not None:
            if n == tn:
                return TRUE
            if n == "bool" and tn == "int":
                return TRUE
            if n == "float64" and tn in ("float", "floating", "number", "generic"):
                return TRUE
            if n == "Path" and tn in ("PurePath", "PathLike", "PosixPath"):
                return TRUE
            if tn in ABC.get(n, ()):
                return TRUE
            return FALSE
        if v.op == "exc":
            a, b = E.EXC.get(v.args[0]), E.EXC.get(tn)
            if a and b:
                return TRUE if issubclass(a, b) else FALSE
    return mk("isinst", v, t)


# ------------------------------------------------------------------ arrays
def as_array(self, st, v):
    """Nested array term for list/tuple/vector values of known shape; v itself when unknown."""
    v = self.simp_value(v, st.pc)
    if v.op in ("arr", "garr", "sorted"):
        return v
    if v.op == "tuple":
        return mk("arr", *[as_array(self, st, x) for x in v.args])
    if v.op == "ite":
        a, b = as_array(self, st, v.args[1]), as_array(self, st, v.args[2])
        return arr_ite(v.args[0], a, b)
    if v.op == "ref":
        o = self.obj(st, v)
        if isinstance(o, E.Lst):
            if all(g is TRUE and x.op != "splat" for g, x in o.items):
                return mk("arr", *[as_array(self, st, x) for _, x in o.items])
            if all(x.op != "splat" for g, x in o.items):
                r = []
                for g, x in o.items:
                    r += [g, as_array(self, st, x)]
                return mk("garr", *r)
            return mk("call", "array", v, *[y for g, x in o.items for y in (g, x)])
        if isinstance(o, E.Inst):
            for nm in ("__array__",):
                m, _ = o.cls.lookup(nm)
                if m is not None and m.op == "func":
                    return as_array(self, st, self.call_value(st, m, [v], {}, None))
            if o.cls.dataclass == "namedtuple":
                return mk("arr", *[as_array(self, st, o.fields[f]) for f, _ in o.cls.fields])
            m, _ = o.cls.lookup("__iter__")
            if m is not None and m.op == "func":
                return as_array(self, st, self.call_value(st, m, [v], {}, None))
    return v


def arr_ite(c, a, b):
    if a is b:
        return a
    if a.op == "arr" and b.op == "arr" and len(a.args) == len(b.args):
        return mk("arr", *[arr_ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "garr" and b.op == "garr" and a.args[::2] == b.args[::2]:
        r = []
        for g, x, y in zip(a.args[::2], a.args[1::2], b.args[1::2]):
            r += [g, arr_ite(c, x, y)]
        return mk("garr", *r)
    return ITE(c, a, b)


def np_map(self, st, f, v):
    v = as_array(self, st, v)
    if v.op == "arr":
        return mk("arr", *[np_map(self, st, f, x) for x in v.args])
    if v.op == "garr":
        return mk("garr", *[x if i % 2 == 0 else np_map(self, st, f, x) for i, x in enumerate(v.args)])
    if v.op == "ite" and any(x.op in ("arr", "garr") for x in v.args[1:]):
        return arr_ite(v.args[0], np_map(self, st, f, v.args[1]), np_map(self, st, f, v.args[2]))
    return f(self.num(v) if is_boolop(v) else v)


def flat(v):
    if v.op == "arr":
        return [y for x in v.args for y in flat(x)]
    if v.op == "garr":
        raise _Shape()
    return [v]


def np_transpose(self, v):
    if v.op == "arr" and v.args and all(x.op == "arr" and len(x.args) == len(v.args[0].args) for x in v.args):
        return mk("arr", *[mk("arr", *[r.args[i] for r in v.args]) for i in range(len(v.args[0].args))])
    if v.op == "garr":
        rows = list(zip(v.args[::2], v.args[1::2]))
        if rows and all(x.op == "arr" and len(x.args) == len(rows[0][1].args) for _, x in rows):
            return mk("arr", *[mk("garr", *[y for g, x in rows for y in (g, x.args[i])]) for i in range(len(rows[0][1].args))])
    if v.op == "sorted":
        raise E.Unsupported("transpose of sorted table")
    return v


def np_dot(self, st, a, b):
    a, b = as_array(self, st, a), as_array(self, st, b)
    if a.op == "arr" and b.op == "arr":
        if a.args and a.args[0].op == "arr":
            return mk("arr", *[np_dot(self, st, r, b) for r in a.args])
        if b.args and b.args[0].op == "arr":
            bt = np_transpose(self, b)
            return mk("arr", *[np_dot(self, st, a, c) for c in bt.args])
        if len(a.args) != len(b.args):
            self.pend(st, TRUE, mk("exc", "ValueError"))
        r = const(0)
        for x, y in zip(a.args, b.args):
            r = E.add(r, E.mul(x, y))
        return r
    if a.op != "arr" and b.op != "arr":
        return E.mul(a, b)
    return self.broadcast(st, E.mul, a, b)


def np_norm(self, st, v, axis=None):
    v = as_array(self, st, v)
    if v.op == "ite":
        return ITE(v.args[0], np_norm(self, st, v.args[1], axis), np_norm(self, st, v.args[2], axis))
    if v.op == "arr":
        if axis is not None and v.args and v.args[0].op == "arr":
            if axis in (1, -1):
                return mk("arr", *[np_norm(self, st, r) for r in v.args])
            if axis == 0:
                return mk("arr", *[np_norm(self, st, r) for r in np_transpose(self, v).args])
        r = const(0)
        for x in flat(v):
            r = E.add(r, E.mul(x, x))
        return E.sqrt(r)
    if v.op == "garr" and axis in (1, -1):
        return mk("garr", *[x if i % 2 == 0 else np_norm(self, st, x) for i, x in enumerate(v.args)])
    if v.op == "garr":
        r = const(0)
        for g, x in zip(v.args[::2], v.args[1::2]):
            q = np_norm(self, st, x) if x.op == "arr" else x
            r = E.add(r, ITE(g, E.mul(q, q), const(0)))
        return E.sqrt(r)
    if self.is_numeric(v):
        return E.absolute(v)
    return mk("call", "norm", v)


def minmax(self, st, op, guarded):
    """guarded: list of (guard, value)"""
    guarded = [(g, v) for g, v in guarded if g is not FALSE]
    if not guarded:
        self.pend(st, TRUE, mk("exc", "ValueError"))
    if all(g is TRUE for g, _ in guarded):
        vals = []
        for _, v in guarded:
            v = self.num(v)
            if v not in vals:
                vals.append(v)
        nums = [v for v in vals if is_num(v)]
        if len(nums) > 1:
            m = (min if op == "min" else max)(nums, key=cval)
            vals = [v for v in vals if not is_num(v)] + [m]
        if self.chunks and len(vals) > 1:
            keep = []
            for v in vals:
                worse = lambda x, y: strings.less(self, *((x, y) if op == "min" else (y, x))) is TRUE  # noqa: E731
                if any(worse(k, v) or strings.equal(self, k, v) is TRUE for k in keep):
                    continue
                keep = [k for k in keep if not worse(v, k)] + [v]
            vals = keep
        # flatten
        fl = []
        for v in vals:
            fl += v.args if v.op == op else [v]
        vals = []
        for v in fl:
            if v not in vals:
                vals.append(v)
        if len(vals) == 1:
            return vals[0]
        return E._n(mk(op, *vals))
    empty = NOT(OR(*[g for g, _ in guarded]))
    self.pend(st, empty, mk("exc", "ValueError"))
    out = []
    for g, v in guarded:
        out += [g, v]
    return mk("g" + op, *out)


def np_reduce(self, st, name, v, axis=None):
    v = as_array(self, st, v)
    if v.op == "ite":
        return ITE(v.args[0], np_reduce(self, st, name, v.args[1], axis), np_reduce(self, st, name, v.args[2], axis))
    if v.op not in ("arr", "garr"):
        if self.is_numeric(v) or is_boolop(v):
            return v
        return mk("call", name, v)
    dims = len(E.np_shape(v)) if v.op == "arr" else 1 + len(E.np_shape(v.args[1])) if v.args else 1
    if axis is not None and axis < 0:
        axis += dims
    if axis is not None and dims > 1:
        if axis == 0:
            t = np_transpose(self, v)
            return mk("arr", *[np_reduce(self, st, name, r) for r in t.args])
        if v.op == "garr":
            return mk("garr", *[x if i % 2 == 0 else np_reduce(self, st, name, x) for i, x in enumerate(v.args)])
        return mk("arr", *[np_reduce(self, st, name, r, None if axis == 1 else axis - 1) for r in v.args])
    if v.op == "garr":
        its = []
        for g, x in zip(v.args[::2], v.args[1::2]):
            its += [(g, y) for y in flat(x)]
    else:
        try:
            its = [(TRUE, x) for x in flat(v)]
        except _Shape:
            its = []
            for x in v.args:
                if x.op == "garr":
                    its += [(g, y) for g, q in zip(x.args[::2], x.args[1::2]) for y in flat(q)]
                else:
                    its += [(TRUE, y) for y in flat(x)]
    if name in ("min", "max"):
        return minmax(self, st, name, its)
    if name == "sum":
        return sum_(self, st, its)
    if name == "mean":
        return E.div(sum_(self, st, its), E._count([g for g, _ in its]))
    if name == "prod":
        r = const(1)
        for g, x in its:
            r = E.mul(r, ITE(g, x, const(1)))
        return r
    if name == "any":
        return OR(*[AND(g, self.truth(x, st)) for g, x in its])
    if name == "all":
        return AND(*[OR(NOT(g), self.truth(x, st)) for g, x in its])
    if name == "count_nonzero":
        return E._count([AND(g, self.truth(x, st)) for g, x in its])
    raise E.Unsupported(name)


def sum_(self, st, its, start=None):
    r = start if start is not None else const(0)
    for g, x in its:
        if x.op == "splat":
            x = mk("call", "sumof", x.args[0])
            r = E.add(r, x if g is TRUE else ITE(g, x, const(0)))
            continue
        x = self.num(x)
        if g is not TRUE:
            x = ITE(g, x, const(0))
        if r.op == "ref" or x.op == "ref":
            import ast

            r = x if is_num(r) and cval(r) == 0 and False else self.binop(st, ast.Add(), r, x, None)
        else:
            r = self.broadcast(st, E.add, r, x) if "arr" in (r.op, x.op) else E.add(r, x)
    return r


def np_index(self, st, v, key, node):
    if key.op == "tuple":
        ks = list(key.args)
        if len(ks) == 1:
            return np_index(self, st, v, ks[0], node)
        k0, rest = ks[0], ks[1:]
        if k0.op == "slice":
            part = np_index(self, st, v, k0, node)
            rk = rest[0] if len(rest) == 1 else mk("tuple", *rest)
            if part.op == "arr":
                return mk("arr", *[np_index(self, st, r, rk, node) for r in part.args])
            if part.op == "garr":
                return mk("garr", *[x if i % 2 == 0 else np_index(self, st, x, rk, node) for i, x in enumerate(part.args)])
            return mk("item", part, key)
        part = np_index(self, st, v, k0, node)
        rk = rest[0] if len(rest) == 1 else mk("tuple", *rest)
        return self.getitem(st, part, rk, node)
    if key.op == "slice":
        if v.op == "arr" and all(x is NONE or is_num(x) for x in key.args):
            return mk("arr", *v.args[slice(*[None if x is NONE else int(cval(x)) for x in key.args])])
        if key.args[0] is NONE and key.args[1] is NONE and key.args[2] is NONE:
            return v
        if v.op == "garr":
            l = self.alloc(st, E.Lst(list(zip(v.args[::2], v.args[1::2]))))
            r = self.getitem(st, l, key, node)
            return as_array(self, st, r)
        return mk("item", v, key)
    if v.op == "arr":
        if is_num(key):
            return self.seq_get(st, [(TRUE, x) for x in v.args], key, node, v)
        key = as_array(self, st, key)
        if key.op == "arr":
            if all(is_boolop(x) for x in key.args) and len(key.args) == len(v.args):  # mask
                out = []
                for g, x in zip(key.args, v.args):
                    if g is not FALSE:
                        out += [g, x]
                if all(g is TRUE for g in out[::2]):
                    return mk("arr", *out[1::2])
                return mk("garr", *out)
            return mk("arr", *[np_index(self, st, v, k, node) for k in key.args])
        if self.is_numeric(key) or key.op in ("sym", "item", "call"):
            return self.seq_get(st, [(TRUE, x) for x in v.args], key, node, v)
    if v.op == "garr":
        if is_num(key):
            return self.seq_get(st, list(zip(v.args[::2], v.args[1::2])), key, node, v)
        key = as_array(self, st, key)
        if key.op == "garr" and key.args[::2] == v.args[::2]:
            out = []
            for g, k, x in zip(v.args[::2], key.args[1::2], v.args[1::2]):
                out += [AND(g, self.truth(k, st)), x]
            return mk("garr", *out)
        if key.op == "perm":
            # key = argsort of a column of the same rows
            return mk("sorted", key.args[0], *[z for g, k, x in zip(v.args[::2], key.args[1:], v.args[1::2]) for z in (g, k, x)])
    if v.op == "arr" and key.op == "perm":
        net = sort_net(self, [(TRUE, k, x) for k, x in zip(key.args[1:], v.args)], FALSE)
        if net is not None:
            return mk("arr", *net)
        return mk("sorted", key.args[0], *[z for k, x in zip(key.args[1:], v.args) for z in (TRUE, k, x)])
    return mk("item", v, key)


def np_store(self, st, v, key, val):
    if key.op == "tuple" and len(key.args) >= 1:
        k0 = key.args[0]
        rest = key.args[1:]
        if not rest:
            return np_store(self, st, v, k0, val)
        rk = rest[0] if len(rest) == 1 else mk("tuple", *rest)
        if is_num(k0):
            rows = list(v.args)
            rows[int(cval(k0))] = np_store(self, st, rows[int(cval(k0))], rk, val)
            return mk("arr", *rows)
        if k0.op == "slice" and all(x is NONE or is_num(x) for x in k0.args):
            idx = range(len(v.args))[slice(*[None if x is NONE else int(cval(x)) for x in k0.args])]
            rows = list(v.args)
            val = as_array(self, st, val)
            for n, i in enumerate(idx):
                rows[i] = np_store(self, st, rows[i], rk, val.args[n] if val.op == "arr" else val)
            return mk("arr", *rows)
        raise E.Unsupported("array store")
    if v.op == "garr":
        raise E.Unsupported("store into guarded array")
    rows = list(v.args)
    if is_num(key):
        i = int(cval(key))
        if not -len(rows) <= i < len(rows):
            self.pend(st, TRUE, mk("exc", "IndexError"))
        x = as_array(self, st, val)
        rows[i] = x
        return mk("arr", *rows)
    if key.op == "slice" and all(x is NONE or is_num(x) for x in key.args):
        idx = range(len(rows))[slice(*[None if x is NONE else int(cval(x)) for x in key.args])]
        x = as_array(self, st, val)
        for n, i in enumerate(idx):
            rows[i] = x.args[n] if x.op == "arr" else x
        return mk("arr", *rows)
    k = as_array(self, st, key)
    if k.op == "arr" and len(k.args) == len(rows) and all(is_boolop(x) for x in k.args):
        x = as_array(self, st, val)
        return mk("arr", *[ITE(g, x, r) for g, r in zip(k.args, rows)])
    if self.is_numeric(key):
        return mk("arr", *[ITE(self.cmp_eq(key, const(i), st), val, r) for i, r in enumerate(rows)])
    raise E.Unsupported("array store")


def _stack_cols(self, st, parts):
    cols = [as_array(self, st, p) for p in parts]
    guards = None
    for c in cols:
        if c.op == "garr":
            guards = c.args[::2]
    if guards is not None:
        rows = []
        for i, g in enumerate(guards):
            r = []
            for c in cols:
                x = c.args[2 * i + 1] if c.op == "garr" else c.args[i]
                r += list(x.args) if x.op == "arr" else [x]
            rows += [g, mk("arr", *r)]
        return mk("garr", *rows)
    if all(c.op == "arr" for c in cols):
        n = len(cols[0].args)
        rows = []
        for i in range(n):
            r = []
            for c in cols:
                if len(c.args) != n:
                    self.pend(st, TRUE, mk("exc", "ValueError"))
                x = c.args[i]
                r += list(x.args) if x.op == "arr" else [x]
            rows.append(mk("arr", *r))
        return mk("arr", *rows)
    return mk("call", "column_stack", *cols)


def arr_method(self, st, v, name, args, kwargs, node):
    ax = kwargs.get("axis", args[0] if args and name in ("min", "max", "sum", "mean", "any", "all", "prod") else None)
    ax = int(cval(ax)) if ax is not None and is_num(ax) else None
    if name in ("min", "max", "sum", "mean", "any", "all", "prod"):
        return np_reduce(self, st, name, v, ax)
    if name in ("copy", "astype", "squeeze", "view"):
        return v
    if name == "dot":
        return np_dot(self, st, v, args[0])
    if name == "tolist":
        if v.op == "arr":
            return self.new_list(st, [arr_method(self, st, x, "tolist", [], {}, node) if x.op == "arr" else x for x in v.args])
        if v.op == "garr":
            return self.alloc(st, E.Lst([(g, arr_method(self, st, x, "tolist", [], {}, node) if x.op == "arr" else x) for g, x in zip(v.args[::2], v.args[1::2])]))
    if name in ("flatten", "ravel"):
        return mk("arr", *flat(v))
    if name == "item" and not args:
        return flat(v)[0]
    if name == "transpose":
        return np_transpose(self, v)
    if name == "reshape":
        return np_reshape(self, st, v, args[0] if len(args) == 1 else mk("tuple", *args))
    if name == "argsort":
        return argsort(self, st, v)
    if name == "__array__":
        return v
    if name == "nonzero":
        return mk("tuple", np_where(self, st, v))
    if name == "append" and v.op == "arr":
        self.note("append on array", node)
        return mk("call", ".append", v, *args)
    self.note(f"array method {name} not modelled", node)
    return mk("call", "." + name, v, *args)


def np_sort(self, st, v, node):
    """Sorted copy of a one-dimensional array."""
    if v.op == "garr":
        rows = list(zip(v.args[::2], v.args[1::2]))
    elif v.op == "arr":
        rows = [(TRUE, x) for x in v.args]
    else:
        return mk("call", "sort", v)
    if any(x.op == "arr" for _, x in rows):
        return mk("call", "sort", v)
    l = self.alloc(st, E.Lst(rows))
    return as_array(self, st, list_sort(self, st, l, {}, node))


def argsort(self, st, v):
    if v.op == "garr":
        return mk("perm", "asc", *v.args[1::2])
    if v.op == "arr":
        return mk("perm", "asc", *v.args)
    return mk("call", "argsort", v)


def np_reshape(self, st, v, shape):
    v = as_array(self, st, v)
    shape = [int(cval(x)) for x in shape.args] if shape.op in ("tuple", "arr") else [int(cval(x[1])) for x in self.obj(st, shape).items] if shape.op == "ref" else [int(cval(shape))]
    if v.op == "garr":
        return mk("call", "reshape", v)
    f = flat(v)
    n = 1
    for s in shape:
        if s != -1:
            n *= s
    shape = [s if s != -1 else len(f) // n for s in shape]

    def build(f, shape):
        if len(shape) == 1:
            return mk("arr", *f)
        if shape[0] == 0:
            return mk("arr")
        k = len(f) // shape[0]
        return mk("arr", *[build(f[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])])

    return build(f, shape)


def np_where(self, st, c):
    c = as_array(self, st, c)
    if c.op == "arr":
        out = []
        for i, x in enumerate(c.args):
            g = self.truth(x, st)
            if g is not FALSE:
                out += [g, const(i)]
        if all(g is TRUE for g in out[::2]):
            return mk("arr", *out[1::2])
        return mk("garr", *out)
    return mk("call", "where", c)


def isclose(self, st, a, b, kwargs=None, kind="np"):
    kwargs = kwargs or {}
    tol = {k: v for k, v in kwargs.items() if k in ("atol", "rtol", "rel_tol", "abs_tol")}

    def f(x, y):
        x, y = self.num(x), self.num(y)
        if x is y:
            return TRUE
        if x.op == "ite" and y.op == "ite" and x.args[0] is y.args[0]:
            return ITE(x.args[0], f(x.args[1], y.args[1]), f(x.args[2], y.args[2]))
        if x.op == "ite":
            return ITE(x.args[0], f(x.args[1], y), f(x.args[2], y))
        if y.op == "ite":
            return ITE(y.args[0], f(x, y.args[1]), f(x, y.args[2]))
        if x is NONE or y is NONE:
            self.pend(st, TRUE, mk("exc", "TypeError"))
        if is_num(x) and is_num(y):
            r, a_ = (Fraction(1, 10**5), Fraction(1, 10**8)) if kind == "np" else (Fraction(1, 10**9), 0)
            try:
                r = Fraction(cval(tol["rtol" if kind == "np" else "rel_tol"])) if ("rtol" if kind == "np" else "rel_tol") in tol else r
                a_ = Fraction(cval(tol["atol" if kind == "np" else "abs_tol"])) if ("atol" if kind == "np" else "abs_tol") in tol else a_
            except Exception:
                return mk("isclose", x, y)
            dx = abs(Fraction(cval(x)) - Fraction(cval(y)))
            return TRUE if dx <= (a_ + r * abs(Fraction(cval(y))) if kind == "np" else max(r * max(abs(cval(x)), abs(cval(y))), a_)) else FALSE
        return mk("isclose", x, y, *[mk("kw", k, v) for k, v in sorted(tol.items())], *([const("math")] if kind != "np" else []))

    a, b = as_array(self, st, a), as_array(self, st, b)
    return self.broadcast(st, f, a, b) if "arr" in (a.op, b.op) or "garr" in (a.op, b.op) else f(a, b)


# ------------------------------------------------------------------ external functions
def _seq(self, st, v, node):
    return self.iterate(st, v, node)


def _key_call(self, st, key, x, node):
    return x if key is None or key is NONE else self.call_value(st, key, [x], {}, node)


UNARY_NP = {
    "sqrt": E.sqrt, "abs": E.absolute, "absolute": E.absolute, "fabs": E.absolute, "square": lambda a: mk("*", a, a) if not is_num(a) else const(cval(a) ** 2),
    "negative": E.neg, "float64": lambda a: a, "float32": lambda a: a, "asanyarray": lambda a: a,
}
TRANS = {"sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "exp", "log", "log10", "log2", "degrees", "radians", "deg2rad", "rad2deg", "ceil", "floor", "trunc", "sinh", "cosh", "tanh", "cbrt", "rint"}


def trans(self, st, name, v):
    name = {"arcsin": "asin", "arccos": "acos", "arctan": "atan", "deg2rad": "radians", "rad2deg": "degrees"}.get(name, name)

    def f(x):
        if name in ("degrees", "radians"):
            pi = self.ext_attr("math.pi")
            return E.div(E.mul(x, const(180)), pi) if name == "degrees" else E.div(E.mul(x, pi), const(180))
        if is_num(x):
            if cval(x) == 0 and name in ("sin", "tan", "asin", "atan"):
                return const(Fraction(0))
            if cval(x) == 0 and name in ("cos", "exp"):
                return const(Fraction(1))
            import math
            if name in ("ceil", "floor", "trunc"):
                return const(getattr(math, name)(cval(x)))
            if name == "rint":
                return const(round(cval(x)))
            if name in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "log2", "sinh", "cosh", "tanh", "cbrt"):
                try:
                    return const(Fraction(getattr(math, name)(float(cval(x)))))
                except (ValueError, OverflowError):
                    return mk("fn", name, x)
        return mk("fn", name, x)

    return np_map(self, st, f, v)


BINARY_NP = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "float_power": "Pow", "mod": "Mod"}
CMP_NP = {"greater": "Gt", "less": "Lt", "greater_equal": "GtE", "less_equal": "LtE", "equal": "Eq", "not_equal": "NotEq"}


def _axis(kwargs, args, i):
    a = kwargs.get("axis", args[i] if len(args) > i else None)
    return int(cval(a)) if a is not None and is_num(a) else None


def call_numpy(self, st, name, args, kwargs, node):
    import ast

    if name in ("asarray", "array", "ascontiguousarray", "asanyarray", "copy"):
        a = as_array(self, st, args[0])
        return a
    if name in ("float64", "float32", "float_", "double"):
        return conv_float(self, st, args[0], node)
    if name == "linalg.norm":
        ax = _axis(kwargs, args, 2)
        ordv = kwargs.get("ord", args[1] if len(args) > 1 else NONE)
        if ordv is not NONE and not (is_num(ordv) and cval(ordv) == 2):
            return mk("call", "numpy.linalg.norm", *args)
        return np_norm(self, st, args[0], ax)
    if name in UNARY_NP:
        def f1(x):
            if name == "sqrt" and self.sqrt_hook is not None:
                self.sqrt_hook(st, x, node)
            return UNARY_NP[name](x)
        return np_map(self, st, f1, args[0])
    if name in TRANS:
        return trans(self, st, name, args[0])
    if name in ("arctan2", "fmod", "copysign"):
        return self.broadcast(st, lambda x, y: mk("fn", {"arctan2": "atan2"}.get(name, name), x, y), as_array(self, st, args[0]), as_array(self, st, args[1]))
    if name == "hypot":
        return self.broadcast(st, lambda x, y: E.sqrt(E.add(E.mul(x, x), E.mul(y, y))), as_array(self, st, args[0]), as_array(self, st, args[1]))
    if name in BINARY_NP:
        op = getattr(ast, BINARY_NP[name])
        a, b = as_array(self, st, args[0]), as_array(self, st, args[1])
        return self.broadcast(st, lambda x, y: self.scalar(st, op, x, y, node), a, b)
    if name in CMP_NP:
        a, b = as_array(self, st, args[0]), as_array(self, st, args[1])
        op = getattr(ast, CMP_NP[name])()
        return self.broadcast(st, lambda x, y: self.truth(self.compare(st, op, x, y, node), st), a, b)
    if name in ("maximum", "minimum", "fmax", "fmin"):
        o = "max" if "max" in name else "min"
        a, b = as_array(self, st, args[0]), as_array(self, st, args[1])
        return self.broadcast(st, lambda x, y: minmax(self, st, o, [(TRUE, x), (TRUE, y)]), a, b)
    if name in ("amax", "amin", "max", "min", "nanmax", "nanmin"):
        return np_reduce(self, st, "max" if "max" in name else "min", args[0], _axis(kwargs, args, 1))
    if name in ("sum", "mean", "any", "all", "prod", "count_nonzero", "average", "nansum"):
        return np_reduce(self, st, {"average": "mean", "nansum": "sum"}.get(name, name), args[0], _axis(kwargs, args, 1))
    if name in ("isclose", "allclose"):
        pos = dict(kwargs)
        for k, v in zip(("rtol", "atol"), args[2:]):
            pos[k] = v
        r = isclose(self, st, args[0], args[1], pos)
        return np_reduce(self, st, "all", r) if name == "allclose" and r.op in ("arr", "garr") else r
    if name in ("dot", "inner", "vdot", "matmul"):
        return np_dot(self, st, args[0], args[1])
    if name == "cross":
        a, b = as_array(self, st, args[0]), as_array(self, st, args[1])
        if a.op == b.op == "arr" and len(a.args) == len(b.args) == 3:
            x, y = a.args, b.args
            return mk("arr", *[E.sub(E.mul(x[i], y[j]), E.mul(x[j], y[i])) for i, j in ((1, 2), (2, 0), (0, 1))])
    if name in ("zeros", "ones", "full", "empty"):
        sh = args[0]
        fill = const(Fraction(0)) if name in ("zeros", "empty") else const(Fraction(1)) if name == "ones" else args[1]
        dims = list(sh.args) if sh.op == "tuple" else [x for _, x in self.obj(st, sh).items] if sh.op == "ref" else [sh]
        if all(is_num(d) for d in dims):
            def build(ds):
                if not ds:
                    return fill
                return mk("arr", *[build(ds[1:])] * int(cval(ds[0])))
            return build(dims)
    if name in ("zeros_like", "ones_like", "full_like"):
        a = as_array(self, st, args[0])
        fill = const(Fraction(0)) if name == "zeros_like" else const(Fraction(1)) if name == "ones_like" else args[1]
        if a.op in ("arr", "garr"):
            return np_map(self, st, lambda x: fill, a)
        return fill
    if name == "reshape":
        return np_reshape(self, st, args[0], args[1])
    if name in ("ravel",):
        return mk("arr", *flat(as_array(self, st, args[0])))
    if name == "transpose":
        return np_transpose(self, as_array(self, st, args[0]))
    if name == "sort" and len(args) == 1 and not kwargs:
        return np_sort(self, st, as_array(self, st, args[0]), node)
    if name == "argsort":
        return argsort(self, st, as_array(self, st, args[0]))
    if name in ("column_stack",):
        parts = self.exact_items(st, args[0])
        if parts is not None:
            return _stack_cols(self, st, parts)
    if name in ("concatenate", "hstack", "append", "r_"):
        parts = self.exact_items(st, args[0]) if name in ("concatenate", "hstack") else list(args[:2])
        if parts is not None:
            out, guarded = [], False
            for p in parts:
                a = as_array(self, st, p)
                if a.op == "arr":
                    out += [(TRUE, x) for x in a.args]
                elif a.op == "garr":
                    guarded = True
                    out += list(zip(a.args[::2], a.args[1::2]))
                elif self.is_numeric(a) or is_const(a):
                    out.append((TRUE, a))
                else:
                    return mk("call", "numpy.concatenate", *parts)
            if guarded:
                return mk("garr", *[y for x in out for y in x])
            return mk("arr", *[x for _, x in out])
    if name in ("vstack", "stack") and args:
        parts = self.exact_items(st, args[0])
        if parts is not None:
            out = []
            for p in parts:
                a = as_array(self, st, p)
                if a.op == "arr" and a.args and a.args[0].op == "arr" and name == "vstack":
                    out += a.args
                else:
                    out.append(a)
            return mk("arr", *out)
    if name == "clip":
        lo = kwargs.get("a_min", args[1] if len(args) > 1 else NONE)
        hi = kwargs.get("a_max", args[2] if len(args) > 2 else NONE)

        def f(x):
            if lo is not NONE:
                x = minmax(self, st, "max", [(TRUE, x), (TRUE, lo)])
            if hi is not NONE:
                x = minmax(self, st, "min", [(TRUE, x), (TRUE, hi)])
            return x

        return np_map(self, st, f, args[0])
    if name == "where" and len(args) == 3:
        c = as_array(self, st, args[0])
        a, b = as_array(self, st, args[1]), as_array(self, st, args[2])
        if c.op == "arr":
            out = []
            for i, x in enumerate(c.args):
                out.append(ITE(self.truth(x, st), a.args[i] if a.op == "arr" else a, b.args[i] if b.op == "arr" else b))
            return mk("arr", *out)
        return arr_ite(self.truth(c, st), a, b)
    if name in ("where", "nonzero") and len(args) == 1:
        return mk("tuple", np_where(self, st, args[0]))
    if name == "sign":
        return np_map(self, st, lambda x: ITE(self.cmp_lt(const(0), x), const(1), ITE(self.cmp_lt(x, const(0)), const(-1), const(0))), args[0])
    if name in ("ediff1d", "diff"):
        a = as_array(self, st, args[0])
        if a.op == "arr":
            d = [self.broadcast(st, E.sub, y, x) for x, y in zip(a.args, a.args[1:])]
            if "to_begin" in kwargs:
                d = [kwargs["to_begin"]] + d
            if "to_end" in kwargs:
                d = d + [kwargs["to_end"]]
            return mk("arr", *d)
    if name == "arange" and all(is_num(a) and isinstance(cval(a), int) for a in args):
        return mk("arr", *[const(i) for i in range(*[cval(a) for a in args])])
    if name == "linspace" and len(args) >= 2:
        n = kwargs.get("num", args[2] if len(args) > 2 else const(50))
        end = kwargs.get("endpoint", args[3] if len(args) > 3 else TRUE)
        if is_num(n) and 0 < cval(n) <= 64 and is_const(end) and set(kwargs) <= {"num", "endpoint"} and len(args) <= 4:
            k = int(cval(n))
            d = E.sub(args[1], args[0])
            m = k - 1 if cval(end) else k
            return mk("arr", *[E.add(args[0], E.mul(const(Fraction(i, m)), d)) if i else args[0] for i in range(k)])
    if name in ("isnan", "isinf"):
        return np_map(self, st, lambda x: FALSE if self.is_numeric(x) else mk("call", "numpy." + name, x), args[0])
    if name == "isfinite":
        return np_map(self, st, lambda x: TRUE if self.is_numeric(x) else mk("call", "numpy." + name, x), args[0])
    if name in ("size", "shape", "ndim"):
        return self.getattr(st, as_array(self, st, args[0]), name, node)
    if name == "array_equal":
        a, b = as_array(self, st, args[0]), as_array(self, st, args[1])
        if a.op == b.op == "arr" and E.np_shape(a) == E.np_shape(b):
            return AND(*[self.cmp_eq(x, y, st) for x, y in zip(flat(a), flat(b))])
    if name == "interp" and len(args) == 3:
        r = mk("call", "numpy.interp", *[as_array(self, st, a) for a in args])
        return r
    return None


def conv_float(self, st, v, node):
    def f(x):
        if is_num(x):
            return const(Fraction(cval(x)))
        if x is TRUE or x is FALSE or is_boolop(x):
            return self.num(x)
        if is_const(x) and isinstance(cval(x), str):
            try:
                r = float(cval(x))
                return const(r)
            except ValueError:
                return "err"
        if self.kinds.get(x) == "bool":
            return ITE(x, const(1), const(0))
        if self.is_numeric(x) or x.op in ("arr",):
            return x
        if self.chunks:
            r = strings.number(self, x)
            if r == "bad":
                return "err"
            if r is not None:
                return r
        if self.shape(x, st) == "str":
            return mk("call", "float", x)
        if x is NONE:
            return "err"
        if x.op == "meth" or x.op == "call" or x.op == "item" or x.op == "attr":
            h = self.float_hook(st, x, node) if self.float_hook else None
            return h if h is not None else mk("call", "float", x)
        return mk("call", "float", x)

    v = self.simp_value(v, st.pc)
    if v.op == "ite":
        return self.fork_value(st, v, lambda s, x: conv_float(self, s, x, node))
    r = f(v)
    if r == "err":
        self.pend(st, TRUE, mk("exc", "TypeError" if v is NONE else "ValueError"))
    if r.op == "call" and r.args[0] == "float" and self.try_depth:
        self.pend(st, mk("badfloat", r.args[1]), mk("exc", "ValueError"))
    return r


def conv_int(self, st, v, node):
    v = self.simp_value(v, st.pc)
    if v.op == "ite":
        return ITE(v.args[0], conv_int(self, st, v.args[1], node), conv_int(self, st, v.args[2], node))
    if is_num(v):
        return const(int(cval(v)))
    if is_boolop(v):
        return ITE(v, const(1), const(0))
    if is_const(v) and isinstance(cval(v), str):
        try:
            return const(int(cval(v)))
        except ValueError:
            self.pend(st, TRUE, mk("exc", "ValueError"))
    if self.kinds.get(v) == "bool":
        return ITE(v, const(1), const(0))
    if self.kinds.get(v) == "int" or v.op == "len":
        return v
    if v is NONE:
        self.pend(st, TRUE, mk("exc", "TypeError"))
    r = mk("fn", "int", v)
    if self.try_depth and not self.is_numeric(v):
        self.pend(st, mk("badint", v), mk("exc", "ValueError"))
    return r


def conv_str(self, st, v, node):
    v = self.simp_value(v, st.pc)
    if v.op == "ite":
        return ITE(v.args[0], conv_str(self, st, v.args[1], node), conv_str(self, st, v.args[2], node))
    if self.shape(v, st) == "str":
        return v
    if _inst(self, st, v):
        c = self.obj(st, v).cls
        m, _ = c.lookup("__str__")
        if m is None:
            m, _ = c.lookup("__repr__")
        if m is not None and m.op == "func":
            return self.call_value(st, m, [v], {}, node)
    if v is NONE:
        return const("None")
    if is_const(v) and isinstance(cval(v), (bool, int)):
        return const(str(cval(v)))
    return mk("fstr", v)


def call_ext(self, st, full, args, kwargs, node):
    import ast

    mod, _, name = full.rpartition(".")
    ov = self.ext_overrides.get(full)
    if ov is not None:
        r = ov(self, st, args, kwargs, node)
        if r is not NotImplemented:
            return r
    if full.startswith("numpy.") or full.startswith("np."):
        r = call_numpy(self, st, full.split(".", 1)[1], args, kwargs, node)
        if r is not None:
            return r
        self.note(f"{full} not modelled", node)
        r = mk("call", full, *args, *[mk("kw", k, v) for k, v in sorted(kwargs.items())])
        self.effect(st, full, args, kwargs, node, r)
        return r
    if mod == "re":
        r = strings.call_re(self, st, name, args, kwargs, node)
        if r is not None:
            return r
        if any(strings.parts(self, a) is not None for a in args):
            raise E.Unsupported(f"re.{name} on partly unknown text")
    if mod == "math":
        if name in ("sqrt",):
            if self.sqrt_hook is not None:
                self.sqrt_hook(st, args[0], node)
            return gate(self, st, args[0], E.sqrt)
        if name == "fabs":
            return gate(self, st, args[0], E.absolute)
        if name == "pow":
            return E.power(args[0], args[1])
        if name == "hypot":
            r = const(0)
            for a in args:
                r = E.add(r, E.mul(a, a))
            return E.sqrt(r)
        if name == "dist":
            return np_norm(self, st, self.broadcast(st, E.sub, as_array(self, st, args[0]), as_array(self, st, args[1])))
        if name == "isclose":
            return isclose(self, st, args[0], args[1], kwargs, "math")
        if name in ("fsum", "sumprod"):
            return sum_(self, st, _seq(self, st, args[0], node)) if name == "fsum" else np_dot(self, st, args[0], args[1])
        if name in TRANS:
            return trans(self, st, name, args[0])
        if name in ("isnan", "isinf") and self.is_numeric(args[0]):
            return FALSE
        if name == "isfinite" and self.is_numeric(args[0]):
            return TRUE
        if name == "copysign":
            a = E.absolute(args[0])
            return ITE(self.cmp_lt(args[1], const(0)), E.neg(a), a)
    if mod == "builtins":
        r = call_builtin(self, st, name, args, kwargs, node)
        if r is not None:
            return r
    if mod in ("builtins.str", "builtins.list", "builtins.dict", "builtins.set", "builtins.float", "builtins.int") and args and name not in ("fromkeys", "fromhex", "maketrans", "from_bytes", "__new__"):
        return self.call_value(st, self.getattr(st, args[0], name, node), list(args[1:]), kwargs, node)
    if full == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
    if full in ("operator.add", "operator.sub", "operator.mul", "operator.truediv"):
        return self.binop(st, {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div}[name](), args[0], args[1], node)
    if full in ("operator.lt", "operator.gt", "operator.le", "operator.ge", "operator.eq", "operator.ne"):
        return self.compare(st, {"lt": ast.Lt, "gt": ast.Gt, "le": ast.LtE, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}[name](), args[0], args[1], node)
    if full in ("operator.itemgetter", "operator.attrgetter"):
        return mk("getter", name, *args)
    if full == "functools.reduce":
        its = _seq(self, st, args[1], node)
        if all(g is TRUE and x.op != "splat" for g, x in its):
            vals = [x for _, x in its]
            acc = args[2] if len(args) > 2 else vals.pop(0)
            for x in vals:
                acc = self.call_value(st, args[0], [acc, x], {}, node)
            return acc
    if full in ("copy.copy", "copy.deepcopy"):
        return deep_copy(self, st, args[0], full.endswith("deepcopy"))
    if mod == "itertools":
        r = call_itertools(self, st, name, args, kwargs, node)
        if r is not None:
            return r
    if full in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
        r = mk("call", "Path", *[a.args[1] if a.op == "call" and a.args[0] == "Path" and len(a.args) == 2 else a for a in args])
        self.kinds[r] = "path"
        if len(args) == 1 and (self.kinds.get(args[0]) == "path"):
            return args[0]
        return r
    if full in ("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys"):
        return from_keys(self, st, args, kwargs, node)
    if full == "itertools.chain.from_iterable" and len(args) == 1:
        r = flatten(self, st, args[0], node)
        if r is not None:
            return r
    if full == "collections.Counter" and len(args) <= 1 and not kwargs:
        r = counter(self, st, args, node)
        if r is not None:
            return r
    if full == "collections.defaultdict":
        d = self.alloc(st, E.Dct([], None, "defaultdict"))
        self.kinds[("default", d)] = args[0] if args else NONE
        return d
    if full in ("collections.OrderedDict",):
        return call_builtin(self, st, "dict", args, kwargs, node)
    if full in ("collections.deque",):
        return call_builtin(self, st, "list", args[:1], {}, node)
    if full in ("typing.cast",):
        return args[1]
    if full.startswith("typing."):
        return mk("call", full, *args)
    if full == "bisect.bisect_left" or full == "bisect.bisect_right" or full == "bisect.bisect" or full == "numpy.searchsorted":
        its = self.exact_items(st, args[0])
        key = kwargs.get("key")
        if its is not None:
            r = const(0)
            for x in its:
                if key is not None and key is not NONE:
                    x = self.call_value(st, key, [x], {}, node)
                c = self.cmp_lt(x, args[1]) if full.endswith("left") else NOT(self.cmp_lt(args[1], x))
                r = E.add(r, ITE(c, const(1), const(0)))
            return r
    r = mk("call", full, *args, *[mk("kw", k, v) for k, v in sorted(kwargs.items())])
    self.effect(st, full, args, kwargs, node, r)
    return r


def deep_copy(self, st, v, deep, memo=None):
    memo = {} if memo is None else memo
    v = self.simp_value(v, st.pc)
    if v.op == "ite":
        return ITE(v.args[0], deep_copy(self, st, v.args[1], deep, memo), deep_copy(self, st, v.args[2], deep, memo))
    if v.op == "tuple" and deep:
        return mk("tuple", *[deep_copy(self, st, x, deep, memo) for x in v.args])
    if v.op != "ref":
        return v
    if v in memo:
        return memo[v]
    o = self.obj(st, v)
    r = self.alloc(st, o)
    memo[v] = r
    if isinstance(o, E.Inst):
        m, _ = o.cls.lookup("__deepcopy__" if deep else "__copy__")
        if m is not None and m.op == "func":
            return self.call_value(st, m, [v] + ([NONE] if deep else []), {}, None)
    f = (lambda x: deep_copy(self, st, x, deep, memo)) if deep else (lambda x: x)
    if isinstance(o, E.Inst):
        n = E.Inst(o.cls, {k: f(x) for k, x in o.fields.items()})
    elif isinstance(o, E.Lst):
        n = E.Lst([(g, x if x.op == "splat" else f(x)) for g, x in o.items], o.kind)
    else:
        n = E.Dct([(k, p, f(x)) for k, p, x in o.items], o.opaque, o.kind)
    st.put(r.args[0], n)
    return r


def from_keys(self, st, args, kwargs, node):
    """dict.fromkeys: every element once, in order of first appearance, with the same value."""
    val = args[1] if len(args) > 1 else kwargs.get("value", NONE)
    r = self.alloc(st, E.Dct([]))
    for g, k in _seq(self, st, args[0], node):
        if k.op == "splat":
            raise E.Unsupported("dict.fromkeys on a collection of unknown length")
        pc0 = st.pc
        st.pc = AND(pc0, g)
        if st.pc is not FALSE:
            self.setitem(st, r, k, val, node)
        st.pc = pc0
    return r


def flatten(self, st, v, node):
    """itertools.chain.from_iterable: the elements of the elements."""
    out = []
    for g, x in _seq(self, st, v, node):
        if x.op == "splat":
            return None
        for h, z in _seq(self, st, x, node):
            if AND(g, h) is not FALSE:
                out.append((AND(g, h), z))
    return self.alloc(st, E.Lst(out))


def counter(self, st, args, node):
    """collections.Counter: how often each element occurs; looking up an absent one gives 0."""
    its = _seq(self, st, args[0], node) if args else []
    if any(x.op == "splat" for _, x in its):
        return None
    d = self.alloc(st, E.Dct([], None, "defaultdict"))
    self.kinds[("default", d)] = mk("ext", "builtins.int")
    out = []
    for i, (g, x) in enumerate(its):
        same = [AND(h, self.cmp_eq(x, y, st)) for h, y in its]
        if any(c is not TRUE and c is not FALSE and not is_const(x) for c in same):
            return None
        if any(k is x for k, _, _ in out):
            continue
        out.append((x, OR(*same), E._count(same)))
    st.put(d.args[0], E.Dct(out, None, "defaultdict"))
    return d


def call_itertools(self, st, name, args, kwargs, node):
    if name in ("chain",):
        out = []
        for a in args:
            out += _seq(self, st, a, node)
        return self.alloc(st, E.Lst(out))
    if name in ("pairwise",):
        its = _seq(self, st, args[0], node)
        if all(g is TRUE and x.op != "splat" for g, x in its):
            vals = [x for _, x in its]
            return self.new_list(st, [mk("tuple", a, b) for a, b in zip(vals, vals[1:])])
    if name == "islice":
        its = _seq(self, st, args[0], node)
        if all(g is TRUE and x.op != "splat" for g, x in its) and all(is_num(a) or a is NONE for a in args[1:]):
            return self.new_list(st, [x for _, x in its][slice(*[None if a is NONE else cval(a) for a in args[1:]])])
    if name == "accumulate":
        its = _seq(self, st, args[0], node)
        if all(g is TRUE and x.op != "splat" for g, x in its):
            import ast
            acc, out = kwargs.get("initial"), []
            if acc is not None:
                out.append(acc)
            for _, x in its:
                acc = x if acc is None else (self.call_value(st, args[1], [acc, x], {}, node) if len(args) > 1 else self.binop(st, ast.Add(), acc, x, node))
                out.append(acc)
            return self.new_list(st, out)
    if name == "product" and not kwargs:
        seqs = [self.exact_items(st, a) for a in args]
        if all(s is not None for s in seqs):
            import itertools as it
            return self.new_list(st, [mk("tuple", *c) for c in it.product(*seqs)])
    if name == "repeat" and len(args) == 2 and is_num(args[1]):
        return self.new_list(st, [args[0]] * cval(args[1]))
    if name == "count":
        return mk("counter", args[0] if args else const(0))
    if name in ("takewhile", "dropwhile"):
        its = _seq(self, st, args[1], node)
        if all(x.op != "splat" for g, x in its):
            alive, out = TRUE, []
            for g, x in its:
                c = self.truth(self.call_value(st, args[0], [x], {}, node), st)
                alive = AND(alive, OR(NOT(g), c))
                out.append((AND(g, alive if name == "takewhile" else NOT(alive)), x))
            return self.alloc(st, E.Lst([x for x in out if x[0] is not FALSE]))
    return None


def call_builtin(self, st, name, args, kwargs, node):
    import ast

    ov = self.ext_overrides.get(name)
    if ov is not None:
        r = ov(self, st, args, kwargs, node)
        if r is not NotImplemented:
            return r
    if name == "len":
        return self.length(st, args[0])
    if name == "abs":
        v = self.simp_value(args[0], st.pc)
        if v.op == "arr":
            return np_map(self, st, E.absolute, v)
        return self.unary(st, v, E.absolute, "__abs__", node)
    if name == "isinstance":
        return isinstance_(self, st, args[0], args[1], node)
    if name == "issubclass" and args[0].op == "cls" and args[1].op == "cls":
        return TRUE if args[1].args[0] in args[0].args[0].mro() else FALSE
    if name == "type" and len(args) == 1:
        return type_of(self, st, args[0])
    if name == "float":
        if not args:
            return const(Fraction(0))
        return conv_float(self, st, args[0], node)
    if name == "int":
        if not args:
            return const(0)
        return conv_int(self, st, args[0], node)
    if name == "bool":
        return self.truth(args[0], st, node) if args else FALSE
    if name == "str":
        return conv_str(self, st, args[0], node) if args else const("")
    if name in ("repr", "format", "ascii"):
        return mk("fstr", *args)
    if name == "range":
        a = [self.simp_value(x, st.pc) for x in args]
        if all(is_num(x) for x in a):
            r = range(*[int(cval(x)) for x in a])
            if len(r) > 3000:
                raise E.Unsupported("long range")
            return self.new_list(st, [const(i) for i in r])
        # range from one of several constants
        if len(a) == 2 and a[0].op == "ite":
            ls = E.const_leaves(a[0])
            ub = count_bound(a[1])
            if ls is not None and ub is not None and all(isinstance(x, int) for x in ls) and ub - min(ls) <= 64:
                out = [(AND(NOT(self.cmp_lt(const(i), a[0])), self.cmp_lt(const(i), a[1])), const(i)) for i in range(min(ls), ub)]
                return self.alloc(st, E.Lst([x for x in out if x[0] is not FALSE]))
        # range up to a guarded count
        lo = cval(a[0]) if len(a) > 1 and is_num(a[0]) else 0
        hi = a[1] if len(a) > 1 else a[0]
        if len(a) <= 2 and (len(a) == 1 or is_num(a[0])):
            ub = count_bound(hi)
            if ub is not None and ub - lo <= 64:
                return self.alloc(st, E.Lst([(self.cmp_lt(const(i), hi), const(i)) for i in range(lo, ub)]))
        return mk("call", "range", *args)
    if name in ("list", "tuple", "set", "frozenset", "iter", "sorted", "reversed", "enumerate", "zip", "map", "filter"):
        return call_seq(self, st, name, args, kwargs, node)
    if name == "dict":
        r = self.alloc(st, E.Dct([]))
        if args:
            self.dict_update(st, r, args[0], node)
        for k, v in kwargs.items():
            self.setitem(st, r, const(k), v, node)
        return r
    if name in ("min", "max"):
        key = kwargs.get("key")
        if len(args) == 1:
            its = _seq(self, st, args[0], node)
        else:
            its = [(TRUE, a) for a in args]
        if any(x.op == "splat" for _, x in its):
            if len(its) == 1:
                return mk("call", name, its[0][1].args[0], *( [key] if key is not None else []))
            return mk("call", name, *[y for g, x in its for y in (g, x)])
        if key is not None and key is not NONE:
            if not its:
                if "default" in kwargs:
                    return kwargs["default"]
                self.pend(st, TRUE, mk("exc", "ValueError"))
            best = bk = None
            have = FALSE
            for g, x in its:
                k = self.call_value(st, key, [x], {}, node)
                if best is None:
                    best, bk, have = x, k, g
                    continue
                better = self.cmp_lt(k, bk) if name == "min" else self.cmp_lt(bk, k)
                c = AND(g, OR(NOT(have), better))
                best, bk = ITE(c, x, best), ITE(c, k, bk)
                have = OR(have, g)
            if have is not TRUE and "default" not in kwargs:
                self.pend(st, NOT(have), mk("exc", "ValueError"))
            return ITE(have, best, kwargs["default"]) if "default" in kwargs else best
        if "default" in kwargs and len(args) == 1:
            if not its:
                return kwargs["default"]
            have = OR(*[g for g, _ in its])
            if have is not TRUE:
                out = []
                for g, x in its:
                    out += [g, x]
                return ITE(have, mk("g" + name, *out), kwargs["default"])
        if all(x.op == "ref" for _, x in its) and its:
            best = its[0][1]
            for _, x in its[1:]:
                op = ast.Lt() if name == "min" else ast.Gt()
                best = ITE(self.truth(self.compare(st, op, x, best, node), st), x, best)
            return best
        return minmax(self, st, name, its)
    if name == "sum":
        its = _seq(self, st, args[0], node)
        return sum_(self, st, its, args[1] if len(args) > 1 else kwargs.get("start"))
    if name in ("any", "all"):
        v = self.simp_value(args[0], st.pc)
        if v.op == "ite":
            return ITE(v.args[0], call_builtin(self, st, name, [v.args[1]], {}, node), call_builtin(self, st, name, [v.args[2]], {}, node))
        its = _seq(self, st, v, node)
        cs = []
        for g, x in its:
            if x.op == "splat":
                c = mk("truthy", mk("call", name, x.args[0]))
            else:
                c = self.truth(x, st, node)
            cs.append(AND(g, c) if name == "any" else OR(NOT(g), c))
        return OR(*cs) if name == "any" else AND(*cs)
    if name == "round":
        nd = args[1] if len(args) > 1 else kwargs.get("ndigits", NONE)
        if is_num(args[0]) and (nd is NONE or is_num(nd)):
            return const(round(cval(args[0]), None if nd is NONE else cval(nd)))
        return mk("fn", "round", args[0], nd)
    if name == "pow":
        return self.binop(st, ast.Pow(), args[0], args[1], node)
    if name == "divmod":
        return mk("tuple", self.binop(st, ast.FloorDiv(), args[0], args[1], node), self.binop(st, ast.Mod(), args[0], args[1], node))
    if name == "getattr":
        if is_const(args[1]):
            v = self.simp_value(args[0], st.pc)
            if len(args) == 3:
                h = hasattr_(self, st, v, cval(args[1]))
                if h is FALSE:
                    return args[2]
                if h is not TRUE and h is not None:
                    return ITE(h, mk("attr", v, cval(args[1])), args[2])
            return self.getattr(st, v, cval(args[1]), node)
        if args[1].op == "ite":
            return self.fork_value(st, args[1], lambda s, x: call_builtin(self, s, name, [args[0], x] + list(args[2:]), kwargs, node))
        return mk("call", "getattr", *args)
    if name == "hasattr" and is_const(args[1]):
        h = hasattr_(self, st, self.simp_value(args[0], st.pc), cval(args[1]))
        return h if h is not None else mk("truthy", mk("call", "hasattr", *args))
    if name == "setattr":
        if is_const(args[1]):
            self.setattr(st, args[0], cval(args[1]), args[2], node)
            return NONE
        self.effect(st, "setattr", args, kwargs, node)
        return NONE
    if name == "callable":
        return TRUE if args[0].op in ("func", "bound", "cls", "ext", "extbound", "partial") else FALSE
    if name == "id":
        return mk("call", "id", *args)
    if name == "hash":
        return mk("call", "hash", *args)
    if name == "next":
        v = self.simp_value(args[0], st.pc)
        if v.op == "ref" and isinstance(self.obj(st, v), E.Lst):
            o = self.obj(st, v)
            its = list(o.items)
            if not any(x.op == "splat" for _, x in its):
                # consume the first present item
                present = OR(*[g for g, _ in its]) if its else FALSE
                r = args[1] if len(args) > 1 else UNDEF
                seen = FALSE
                rest = []
                chain = []
                for g, x in its:
                    first = AND(g, NOT(seen))
                    chain.append((first, x))
                    if AND(g, seen) is not FALSE:
                        rest.append((AND(g, seen), x))
                    seen = OR(seen, g)
                for c, x in reversed(chain):
                    r = ITE(c, x, r)
                st.put(v.args[0], E.Lst(rest, o.kind))
                if len(args) < 2:
                    self.pend(st, NOT(present), mk("exc", "StopIteration"))
                return r
        r = mk("call", "next", *args)
        return r
    if name == "print":
        self.effect(st, "print", args, kwargs, node)
        return NONE
    if name in ("open", "input", "exit", "quit", "eval", "exec", "compile", "__import__"):
        r = mk("call", name, *args)
        self.effect(st, name, args, kwargs, node, r)
        if name in ("exit", "quit"):
            self.pend(st, TRUE, mk("exc", "SystemExit", *args))
        return r
    if name in ("object",):
        return mk("call", "object", const(self.new_id()))
    if name in E.EXC:
        return mk("exc", name, *args)
    if name == "slice":
        a = list(args)
        return mk("slice", *( [NONE, a[0], NONE] if len(a) == 1 else a + [NONE] * (3 - len(a))))
    if name == "vars" and args and _inst(self, st, args[0]):
        return self.alloc(st, E.Dct([(const(k), TRUE, x) for k, x in self.obj(st, args[0]).fields.items()]))
    if name in ("chr", "ord") and is_const(args[0]):
        return const((chr if name == "chr" else ord)(cval(args[0])))
    return None


def hasattr_(self, st, v, name):
    if _inst(self, st, v):
        o = self.obj(st, v)
        if name in o.fields or o.cls.lookup(name)[0] is not None:
            return TRUE
        if o.cls.external_bases():
            return None
        return FALSE
    if v.op == "ref":
        return TRUE if name in (dir(list) if isinstance(self.obj(st, v), E.Lst) else dir(dict)) else FALSE
    if is_const(v) and cval(v) is not None:
        return TRUE if hasattr(cval(v), name) else FALSE
    if v is NONE:
        return TRUE if hasattr(None, name) else FALSE
    return None


def count_bound(t):
    """Largest value of a sum of 0/1 gates and constants."""
    if is_num(t) and isinstance(cval(t), int):
        return cval(t)
    if t.op == "+":
        a, b = count_bound(t.args[0]), count_bound(t.args[1])
        return None if a is None or b is None else a + b
    if t.op == "ite":
        a, b = count_bound(t.args[1]), count_bound(t.args[2])
        return None if a is None or b is None else max(a, b)
    return None


def call_seq(self, st, name, args, kwargs, node):
    if name in ("list", "tuple", "set", "frozenset", "iter"):
        if not args:
            return mk("tuple") if name == "tuple" else self.new_list(st, [], "set" if "set" in name else "list")
        v = self.simp_value(args[0], st.pc)
        if v.op == "ite":
            return self.fork_value(st, v, lambda s, x: call_seq(self, s, name, [x], kwargs, node))
        if v.op == "keysview":
            v = v.args[0]
        its = _seq(self, st, v, node)
        if name == "tuple":
            if all(g is TRUE and x.op != "splat" for g, x in its):
                return mk("tuple", *[x for _, x in its])
            if len(its) == 1 and its[0][1].op == "splat" and not _lst(self, st, v):
                return v
            return self.alloc(st, E.Lst(its, "list"))
        if "set" in name and all(g is TRUE for g, _ in its):
            its = [(TRUE, x) for x in E._dedup([x for _, x in its])]
        return self.alloc(st, E.Lst(its, "set" if "set" in name else "list"))
    if name == "enumerate":
        start = kwargs.get("start", args[1] if len(args) > 1 else const(0))
        its = _seq(self, st, args[0], node)
        out, i, sym_i = [], start, None
        for g, x in its:
            if x.op == "splat":
                out.append((g, mk("splat", mk("enum", x.args[0], i))))
                i = E.add(i, mk("len", x.args[0]))
                continue
            out.append((g, mk("tuple", i, x)))
            i = E.add(i, const(1) if g is TRUE else ITE(g, const(1), const(0)))
        return self.alloc(st, E.Lst(out))
    if name == "zip":
        seqs = [_seq(self, st, a, node) for a in args]
        counters = [i for i, a in enumerate(args) if a.op == "counter"]
        if counters:
            n = max((len(s) for i, s in enumerate(seqs) if i not in counters), default=0)
            for i in counters:
                seqs[i] = [(TRUE, E.add(args[i].args[0], const(k))) for k in range(n)]
        # same guards everywhere or exact
        n = min(len(s) for s in seqs) if seqs else 0
        if all(x.op != "splat" for s in seqs for _, x in s):
            if all(g is TRUE for s in seqs for g, _ in s) or all([g for g, _ in s][:n] == [g for g, _ in seqs[0]][:n] and len(s) == n for s in seqs):
                return self.alloc(st, E.Lst([(seqs[0][i][0], mk("tuple", *[s[i][1] for s in seqs])) for i in range(n)]))
            # guarded vs exact: i-th present element
            nmax = min(len(s) for s in seqs)
            refs = [self.alloc(st, E.Lst(s)) for s in seqs]
            out = []
            for i in range(nmax):
                g = AND(*[self.at_least([q for q, _ in s], i + 1) for s in seqs])
                if g is FALSE:
                    break
                vals = []
                for s in seqs:
                    pc0, p0 = st.pc, list(st.pending)
                    st.pc = AND(st.pc, g)
                    vals.append(self.nth(st, s, i, node, NONE))
                    st.pc, st.pending = pc0, p0
                out.append((g, mk("tuple", *vals)))
            return self.alloc(st, E.Lst(out))
        if all(len(s) == 1 and s[0][1].op == "splat" for s in seqs):
            return self.alloc(st, E.Lst([(TRUE, mk("splat", mk("zip", *[s[0][1].args[0] for s in seqs])))]))
        return mk("call", "zip", *args)
    if name == "reversed":
        its = _seq(self, st, args[0], node)
        out = []
        for g, x in reversed(its):
            out.append((g, mk("splat", mk("rev", x.args[0])) if x.op == "splat" else x))
        return self.alloc(st, E.Lst(out))
    if name in ("map", "filter"):
        seqs = [_seq(self, st, a, node) for a in args[1:]]
        if name == "filter":
            out = []
            for g, x in seqs[0]:
                if x.op == "splat":
                    return mk("call", "filter", *args)
                c = self.truth(x if args[0] is NONE else self.call_value(st, args[0], [x], {}, node), st)
                out.append((AND(g, c), x))
            return self.alloc(st, E.Lst([x for x in out if x[0] is not FALSE]))
        if all(x.op != "splat" for s in seqs for _, x in s):
            n = min(len(s) for s in seqs)
            return self.alloc(st, E.Lst([(AND(*[s[i][0] for s in seqs]), self.call_value(st, args[0], [s[i][1] for s in seqs], {}, node)) for i in range(n)]))
        if len(seqs) == 1:
            out = []
            for g, x in seqs[0]:
                if x.op == "splat":
                    lid = self.fresh_loop()
                    el = mk("item", x.args[0], mk("idx", lid))
                    out.append((g, mk("splat", mk("mapped", x.args[0], mk("idx", lid), self.call_value(st, args[0], [el], {}, node), TRUE))))
                else:
                    out.append((g, self.call_value(st, args[0], [x], {}, node)))
            return self.alloc(st, E.Lst(out))
        return mk("call", "map", *args)
    if name == "sorted":
        return list_sort(self, st, args[0], kwargs, node)
    return None


def list_sort(self, st, v, kwargs, node):
    """Sorted copy.  Known keys are ordered; symbolic keys give a `sorted` table (direction, guard, key, value)*."""
    its = _seq(self, st, v, node)
    key = kwargs.get("key")
    rev = kwargs.get("reverse", FALSE)
    if any(x.op == "splat" for _, x in its):
        return mk("call", "sorted", v, *([key] if key is not None else []), rev)
    rows = []
    for g, x in its:
        k = x if key is None or key is NONE else key_of(self, st, key, x, node)
        rows.append((g, k, x))
    if all(is_const(k) for _, k, _ in rows):
        try:
            rows.sort(key=lambda r: cval(r[1]), reverse=(rev is TRUE))
            return self.alloc(st, E.Lst([(g, x) for g, _, x in rows]))
        except TypeError:
            pass
    if len(rows) <= 1:
        return self.alloc(st, E.Lst([(g, x) for g, _, x in rows]))
    net = sort_net(self, rows, rev)
    if net is not None:
        return self.alloc(st, E.Lst([(TRUE, x) for x in net]))
    if key is None and all(g is TRUE and x.op == "sym" and self.kinds.get(x) == "path" for g, _, x in rows):
        return self.alloc(st, E.Lst([(TRUE, x) for _, _, x in rows]))  # distinct paths nothing is known about: any naming of them is as good
    d = "asc" if rev is FALSE else "desc" if rev is TRUE else "?"
    return self.alloc(st, E.Lst([(TRUE, mk("splat", mk("sorted", d, *[y for r in rows for y in r])))]))


def sort_net(self, rows, rev):
    """Values of (guard, key, value) rows in the order of their numeric keys, as a network of comparisons; None if too many."""
    if len(rows) > 6 or rev not in (TRUE, FALSE) or any(g is not TRUE for g, _, _ in rows) or not all(self.is_numeric(k) for _, k, _ in rows):
        return None
    rows = [(k, x) for _, k, x in rows]

    def pick(c, a, b):
        return arr_ite(c, a, b) if a.op == "arr" and b.op == "arr" else ITE(c, a, b)

    for n in range(len(rows) - 1, 0, -1):
        for i in range(n):
            (k0, x0), (k1, x1) = rows[i], rows[i + 1]
            c = self.cmp_lt(k0, k1) if rev is TRUE else self.cmp_lt(k1, k0)
            if c is FALSE:
                continue
            rows[i], rows[i + 1] = (pick(c, k1, k0), pick(c, x1, x0)), (pick(c, k0, k1), pick(c, x0, x1))
    return [x for _, x in rows]


def key_of(self, st, key, x, node):
    if key.op == "getter":
        if key.args[0] == "itemgetter":
            r = [self.getitem(st, x, k, node) for k in key.args[1:]]
        else:
            r = [self.getattr(st, x, cval(k), node) for k in key.args[1:]]
        return r[0] if len(r) == 1 else mk("tuple", *r)
    return self.call_value(st, key, [x], {}, node)


# ------------------------------------------------------------------ methods of builtin values
def call_builtin_method(self, st, v, name, args, kwargs, node):
    v = self.simp_value(v, st.pc)
    if v.op == "ite":
        return self.fork_value(st, v, lambda s, x: call_builtin_method(self, s, x, name, args, kwargs, node))
    if v.op == "ref":
        o = self.obj(st, v)
        if isinstance(o, E.Dct):
            return dict_method(self, st, v, name, args, kwargs, node)
        if isinstance(o, E.Lst):
            return list_method(self, st, v, name, args, kwargs, node)
        if isinstance(o, E.Inst):
            if o.cls.dataclass == "namedtuple":
                if name == "_replace":
                    f = dict(o.fields)
                    f.update(kwargs)
                    return self.alloc(st, E.Inst(o.cls, f))
                if name == "_asdict":
                    return self.new_dict(st, [(k, o.fields[k]) for k, _ in o.cls.fields])
            if name == "__init__":
                st.put(v.args[0], E.Inst(o.cls, {**o.fields, "args": mk("tuple", *args)}))
                return NONE
            if name in ("__setattr__",):
                f = dict(o.fields)
                f[cval(args[0])] = args[1]
                st.put(v.args[0], E.Inst(o.cls, f))
                return NONE
            if name == "__eq__":
                return self.cmp_is(v, args[0], st)
            if name in ("__str__", "__repr__"):
                return mk("fstr", v)
            self.effect(st, "." + name, [v] + list(args), kwargs, node)
            return mk("call", "." + name, v, *args)
    if v.op in ("arr", "garr", "sorted"):
        return arr_method(self, st, v, name, args, kwargs, node)
    if v.op == "tuple":
        if name == "index":
            r = UNDEF
            for i in range(len(v.args) - 1, -1, -1):
                r = ITE(self.cmp_eq(v.args[i], args[0], st), const(i), r)
            miss = NOT(OR(*[self.cmp_eq(x, args[0], st) for x in v.args]))
            self.pend(st, miss, mk("exc", "ValueError"))
            return r
        if name == "count":
            return E._count([self.cmp_eq(x, args[0], st) for x in v.args])
    if self.shape(v, st) == "str" or v.op in ("meth",):
        return str_method(self, st, v, name, args, kwargs, node)
    if self.is_numeric(v) or is_num(v):
        return num_method(self, st, v, name, args, kwargs, node)
    if v.op == "keysview":
        return dict_method(self, st, v.args[0], name, args, kwargs, node)
    if v.op == "rematch":
        r = strings.match_method(self, st, v, name, args, node)
        return r if r is not None else mk("call", "." + name, v, *args)
    if v.op == "repat":
        r = strings.call_re(self, st, name, [v] + list(args), kwargs, node)
        if r is None and any(strings.parts(self, a) is not None for a in args):
            raise E.Unsupported(f"pattern.{name} on partly unknown text")
        return r if r is not None else mk("call", "." + name, v, *args)
    return self.call_opaque_method(st, v, name, args, kwargs, node)


def num_method(self, st, v, name, args, kwargs, node):
    if name in ("item", "copy", "astype", "conjugate", "squeeze", "__float__"):
        return v
    if name == "is_integer" and is_num(v):
        return TRUE if Fraction(cval(v)).denominator == 1 else FALSE
    if name == "tolist":
        return v
    if name in ("__add__", "__sub__", "__mul__", "__truediv__"):
        import ast
        return self.scalar(st, {"__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult, "__truediv__": ast.Div}[name], v, args[0], node)
    return mk("call", "." + name, v, *args)


def str_method(self, st, v, name, args, kwargs, node):
    ov = self.method_overrides.get(name)
    if ov is not None and name == "splitlines":
        r = ov(self, st, v, args, kwargs, node)
        if r is not NotImplemented:
            return r
    if self.chunks and not (is_const(v) and all(is_const(a) for a in args)):
        r = strings.method(self, st, v, name, args, kwargs, node)
        if r is not None:
            return r
    if is_const(v) and all(is_const(a) for a in [*args, *kwargs.values()]) and name not in ("format", "join"):
        f = getattr(cval(v), name, None)
        if f is not None:
            try:
                r = f(*[cval(a) for a in args], **{k: cval(a) for k, a in kwargs.items()})
            except Exception as e:
                self.pend(st, TRUE, mk("exc", type(e).__name__))
                return UNDEF
            if isinstance(r, list):
                return self.new_list(st, [const(x) for x in r])
            if isinstance(r, tuple):
                return mk("tuple", *[const(x) for x in r])
            if isinstance(r, bool):
                return TRUE if r else FALSE
            return const(r)
    if name == "join" and is_const(v):
        its = self.exact_items(st, args[0])
        if its is not None:
            parts = []
            for i, x in enumerate(its):
                if i:
                    parts.append(v)
                parts.append(x)
            return self.fstr(parts) if parts else const("")
        a = args[0]
        if a.op == "ref" and isinstance(self.obj(st, a), E.Lst):  # the content, not the list object
            its = self.obj(st, a).items
            if len(its) == 1 and its[0][0] is TRUE and its[0][1].op == "splat":
                args = [its[0][1].args[0]]
    if name == "format":
        return mk("fstr", v, *args, *[mk("kw", k, x) for k, x in sorted(kwargs.items())])
    r = mk("meth", name, v, *args, *[mk("kw", k, x) for k, x in sorted(kwargs.items())])
    if name in ("startswith", "endswith", "isdigit", "isalpha", "isascii", "isspace", "isnumeric"):
        return mk("truthy", r)
    return r


def file_method(self, st, v, name, args, kwargs, node):
    """Reading a text file, whose remaining lines are the content of a list."""
    o = self.obj(st, v)
    if name == "close":
        return NONE
    if name in ("__enter__", "__iter__"):
        return v
    if name == "readlines" and not args:
        r = self.alloc(st, E.Lst(o.items, "list"))
        st.put(v.args[0], E.Lst([], o.kind))
        return r
    its = self.exact_items(st, v)
    if its is None:
        return None
    if name == "read" and not args:
        st.put(v.args[0], E.Lst([], o.kind))
        return self.fstr(its) if its else const("")
    if name in ("readline", "__next__") and not args:
        if its:
            st.put(v.args[0], E.Lst(o.items[1:], o.kind))
            return its[0]
        if name == "readline":
            return const("")
        self.pend(st, TRUE, mk("exc", "StopIteration"))
    return None


def list_method(self, st, v, name, args, kwargs, node):
    o = self.obj(st, v)
    if v in self.files:
        r = file_method(self, st, v, name, args, kwargs, node)
        if r is not None:
            return r
    if name == "append" or name == "appendleft":
        if name == "appendleft":
            st.put(v.args[0], E.Lst(((TRUE, args[0]),) + o.items, o.kind))
        else:
            self.list_append(st, v, args[0])
        return NONE
    if name == "add":
        if any(x is args[0] for _, x in o.items):
            return NONE
        self.list_append(st, v, args[0])
        return NONE
    if name in ("extend", "update"):
        for a in args:
            self.list_extend(st, v, a, node)
        return NONE
    if name in ("pop", "popleft"):
        i = const(0) if name == "popleft" else args[0] if args else const(-1)
        if is_num(i):
            its = list(o.items)
            exact = all(g is TRUE and x.op != "splat" for g, x in its)
            if exact:
                try:
                    x = its.pop(int(cval(i)))
                except IndexError:
                    self.pend(st, TRUE, mk("exc", "IndexError"))
                st.put(v.args[0], E.Lst(its, o.kind))
                return x[1]
            if cval(i) == -1:
                r = self.nth(st, list(reversed(its)), 0, node, v)
                seen = FALSE
                out = []
                for g, x in reversed(its):
                    if x.op == "splat":
                        self.note("pop from list of unknown content", node)
                        out.append((g, x))
                        continue
                    out.append((AND(g, seen), x))
                    seen = OR(seen, g)
                st.put(v.args[0], E.Lst([x for x in reversed(out) if x[0] is not FALSE], o.kind))
                return r
            if cval(i) == 0:
                r = self.nth(st, its, 0, node, v)
                seen = FALSE
                out = []
                for g, x in its:
                    out.append((AND(g, seen) if x.op != "splat" else g, x))
                    seen = OR(seen, g if x.op != "splat" else FALSE)
                st.put(v.args[0], E.Lst([x for x in out if x[0] is not FALSE], o.kind))
                return r
        self.note("pop at unknown position", node)
        return mk("item", v, i)
    if name == "insert":
        its = list(o.items)
        if is_num(args[0]) and (cval(args[0]) == 0 or all(g is TRUE and x.op != "splat" for g, x in its)):
            its.insert(int(cval(args[0])), (TRUE, args[1]))
            st.put(v.args[0], E.Lst(its, o.kind))
            return NONE
    if name == "copy":
        return self.alloc(st, E.Lst(o.items, o.kind))
    if name == "clear":
        st.put(v.args[0], E.Lst([], o.kind))
        return NONE
    if name == "reverse":
        st.put(v.args[0], E.Lst([(g, mk("splat", mk("rev", x.args[0])) if x.op == "splat" else x) for g, x in reversed(o.items)], o.kind))
        return NONE
    if name == "sort":
        r = list_sort(self, st, v, kwargs, node)
        if r.op == "ref":
            st.put(v.args[0], E.Lst(self.obj(st, r).items, o.kind))
        else:
            st.put(v.args[0], E.Lst([(TRUE, mk("splat", r))], o.kind))
        return NONE
    if name == "index":
        its = o.items
        if all(x.op != "splat" for _, x in its):
            r, miss = UNDEF, TRUE
            pos = const(0)
            chain = []
            for g, x in its:
                c = AND(g, self.cmp_eq(x, args[0], st))
                chain.append((c, pos))
                miss = AND(miss, NOT(c))
                pos = E.add(pos, const(1) if g is TRUE else ITE(g, const(1), const(0)))
            for c, p in reversed(chain):
                r = ITE(c, p, r)
            self.pend(st, miss, mk("exc", "ValueError"))
            return r
    if name == "count":
        if all(x.op != "splat" for _, x in o.items):
            return E._count([AND(g, self.cmp_eq(x, args[0], st)) for g, x in o.items])
    if name in ("remove", "discard"):
        out = []
        gone = FALSE
        for g, x in o.items:
            c = AND(g, self.cmp_eq(x, args[0], st), NOT(gone))
            out.append((AND(g, NOT(c)), x))
            gone = OR(gone, c)
        st.put(v.args[0], E.Lst([x for x in out if x[0] is not FALSE], o.kind))
        if name == "remove":
            self.pend(st, NOT(gone), mk("exc", "ValueError"))
        return NONE
    if name in ("difference", "symmetric_difference", "union", "intersection", "issubset", "issuperset", "__iter__"):
        if name == "__iter__":
            return v
        if not args or len(args) > 1:
            raise E.Unsupported(f"set.{name} with {len(args)} arguments")
        other = self.exact_items(st, args[0])
        mine = self.exact_items(st, v)
        if (other is None or mine is None) and self.is_set(st, v):
            its = _seq(self, st, args[0], node)
            if all(x.op != "splat" for _, x in its):
                b = self.alloc(st, E.Lst(its, "set"))
                if name in ("issubset", "issuperset"):
                    return self.subset(st, v, b) if name == "issubset" else self.subset(st, b, v)
                return self.set_op(st, {"difference": ast.Sub, "intersection": ast.BitAnd, "union": ast.BitOr, "symmetric_difference": ast.BitXor}[name], v, b)
        if other is not None and mine is not None and all(is_const(x) for x in other + mine):
            if name == "difference":
                return self.new_list(st, [x for x in mine if x not in other], "set")
            if name == "intersection":
                return self.new_list(st, [x for x in mine if x in other], "set")
            if name == "union":
                return self.new_list(st, E._dedup(mine + other), "set")
            if name == "issubset":
                return TRUE if all(x in other for x in mine) else FALSE
            if name == "issuperset":
                return TRUE if all(x in mine for x in other) else FALSE
        if other is not None and self.is_set(st, v):
            b = self.new_list(st, other, "set")
            if name in ("issubset", "issuperset"):
                return self.subset(st, v, b) if name == "issubset" else self.subset(st, b, v)
            return self.set_op(st, {"difference": ast.Sub, "intersection": ast.BitAnd, "union": ast.BitOr, "symmetric_difference": ast.BitXor}[name], v, b)
    if name == "__len__":
        return self.length(st, v)
    if name == "__getitem__":
        return self.getitem(st, v, args[0], node)
    if name == "__contains__":
        return self.compare(st, ast.In(), args[0], v, node)
    self.note(f"list method {name} not modelled", node)
    self.effect(st, "." + name, [v] + list(args), kwargs, node)
    return mk("call", "." + name, v, *args)


def dict_method(self, st, v, name, args, kwargs, node):
    o = self.obj(st, v)
    if name == "get":
        return self.dict_get(st, v, args[0], args[1] if len(args) > 1 else kwargs.get("default", NONE), node)
    if name == "keys":
        if o.opaque is None:
            return self.alloc(st, E.Lst([(p, k) for k, p, _ in o.items], "set"))
        return mk("keysview", v)
    if name in ("values", "items"):
        out = []
        for k, p, x in o.items:
            out.append((p, x if name == "values" else mk("tuple", k, x)))
        if o.opaque is not None:
            out.append((TRUE, mk("splat", mk("attr", o.opaque, name))))
        return self.alloc(st, E.Lst(out))
    if name == "update":
        if args:
            self.dict_update(st, v, args[0], node)
        for k, x in kwargs.items():
            self.setitem(st, v, const(k), x, node)
        return NONE
    if name == "copy":
        return self.alloc(st, E.Dct(o.items, o.opaque, o.kind))
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        c = self.contains(st, v, args[0], node)
        c = self.simp(c, st.pc)
        if c is FALSE:
            self.setitem(st, v, args[0], d, node)
            return d
        if c is TRUE:
            return self.dict_get(st, v, args[0], None, node)
        r = self.dict_get(st, v, args[0], d, node)
        self.setitem(st, v, args[0], r, node)
        return r
    if name == "pop":
        r = self.dict_get(st, v, args[0], args[1] if len(args) > 1 else None, node)
        self.delitem(st, v, args[0], node)
        return r
    if name == "clear":
        st.put(v.args[0], E.Dct([], None, o.kind))
        return NONE
    if name == "fromkeys":
        return from_keys(self, st, args, kwargs, node)
    if name == "__len__":
        return self.length(st, v)
    if name == "__getitem__":
        return self.getitem(st, v, args[0], node)
    if name == "__contains__":
        return self.compare(st, ast.In(), args[0], v, node)
    self.note(f"dict method {name} not modelled", node)
    return mk("call", "." + name, v, *args)
