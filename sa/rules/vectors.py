"""L01: componentwise, immutable 4D vector arithmetic."""
from fractions import Fraction

from ..engine import add, sub, mul, div, sqrt, absolute, Inst
from ..terms import mk, const, TRUE, FALSE, NONE, AND, OR, NOT, is_boolop
from ..lab import exc_name

AX = "xyze"


def made(sc, cls, vals):
    return sc.call(sc.name("utils", cls), *vals)


def snapshot(sc, *refs):
    """Fields of the given objects as terms."""
    out = []
    for r in refs:
        o = sc.obj(r) if r.op == "ref" else None
        if isinstance(o, Inst):
            out.append(dict(o.fields))
        elif o is not None:
            out.append(tuple(o.items))
        else:
            out.append(r)
    return out


def arithmetic(lab):
    for cls in ("position", "velocity"):
        for op, f in (("__add__", add), ("__sub__", sub)):
            for kind in ("vector", "list", "tuple", "array"):
                binary(lab, cls, op, f, kind)
        for op, f in (("__mul__", mul), ("__truediv__", div)):
            for kind in ("real", "npfloat", "int"):
                scalar(lab, cls, op, f, kind)
        equality(lab, cls)
        norms(lab, cls)
        construct(lab, cls)
    distances(lab)


def operand(sc, cls, kind, vals):
    if kind == "vector":
        return made(sc, cls, vals)
    if kind == "tuple":
        return mk("tuple", *vals)
    if kind == "array":
        return mk("arr", *vals)
    return sc.list(vals)


def binary(lab, cls, op, f, kind):
    sc = lab.scene()
    where = lab.where(f"utils.vector_4D.{op}")
    name = f"{cls}.{op}({kind})"
    a, b = sc.syms("a1 a2 a3 a4"), sc.syms("b1 b2 b3 b4")

    def go():
        u, w = made(sc, cls, a), operand(sc, cls, kind, b)
        before = snapshot(sc, u, w)
        r = sc.meth(u, op, w)
        if not sc.no_raise(name + " defined", where) or r is None:
            return
        result(lab, sc, cls, name, where, r, [f(x, y) for x, y in zip(a, b)], [u, w])
        lab.structural(name + " leaves operands unchanged", snapshot(sc, u, w) == before or unchanged(sc, u, a, w, b, kind), where, f"{name} writes an operand")

    lab.attempt(name, where, go)


def unchanged(sc, u, a, w, b, kind):
    ok = all(sc.get(u, k) is x for k, x in zip(AX, a))
    if kind == "vector":
        ok = ok and all(sc.get(w, k) is x for k, x in zip(AX, b))
    elif kind == "list":
        ok = ok and [v for g, v in sc.items(w)] == b
    return ok


def result(lab, sc, cls, name, where, r, want, operands):
    k = sc.name("utils", cls)
    o = sc.obj(r) if r.op == "ref" else None
    lab.structural(f"{name} returns the same kind", isinstance(o, Inst) and o.cls is k.args[0] if o is not None else None, where, f"{name} returns another kind of object")
    lab.structural(f"{name} returns a new object", r not in operands if o is not None else None, where, f"{name} returns one of its operands")
    if o is None:
        return
    for ax, x in zip(AX, want):
        sc.prove(f"{name} component {ax}", eq=(sc.get(r, ax), x), where=where)


def scalar(lab, cls, op, f, kind):
    sc = lab.scene()
    where = lab.where(f"utils.vector_4D.{op}")
    name = f"{cls}.{op}({kind})"
    a = sc.syms("a1 a2 a3 a4")
    s = sc.sym("s", kind)
    if op == "__truediv__":
        sc.assume.append(NOT(mk("eq", const(0), s)))

    def go():
        u = made(sc, cls, a)
        r = sc.meth(u, op, s)
        if not sc.no_raise(name + " defined", where) or r is None:
            return
        result(lab, sc, cls, name, where, r, [f(x, s) for x in a], [u])
        lab.structural(name + " leaves operands unchanged", unchanged(sc, u, a, None, None, None), where, f"{name} writes an operand")

    lab.attempt(name, where, go)


def equality(lab, cls):
    where = lab.where("utils.vector_4D.__eq__")
    for kind in ("vector", "list", "tuple", "array"):
        name = f"{cls}.__eq__({kind})"
        for i in range(4):
            def go(i=i):
                sc = lab.scene()
                a, b = sc.syms("a1 a2 a3 a4"), sc.syms("b1 b2 b3 b4")
                w = operand(sc, cls, kind, b)
                r = sc.meth(made(sc, cls, a), "__eq__", w)
                if not sc.no_raise(name + " defined", where):
                    return
                t = sc.e.truth(r, sc.st)
                # a clear difference in one component makes the vectors unequal
                far = mk("lt", add(const(1), absolute(mul(const(2), b[i]))), a[i])
                sc.prove(f"{name} differs in {AX[i]}", cond=NOT(t), assume=[far], where=where)
            lab.attempt(name, where, go)

        def go2():
            sc = lab.scene()
            a = sc.syms("a1 a2 a3 a4")
            w = operand(sc, cls, kind, a)
            r = sc.meth(made(sc, cls, a), "__eq__", w)
            sc.prove(f"{name} reflexive", cond=sc.e.truth(r, sc.st), where=where)

        lab.attempt(name, where, go2)


def norms(lab, cls):
    where = lab.where("utils.vector_4D.get_norm")
    for ext in (FALSE, TRUE, None):
        def go():
            sc = lab.scene()
            a = sc.syms("a1 a2 a3 a4")
            u = made(sc, cls, a)
            kw = {} if ext is None else {"withExtrusion": ext}
            n = sc.meth(u, "get_norm", **kw)
            vec = sc.meth(u, "get_vec", **kw)
            if not sc.no_raise(f"{cls}.get_norm defined", where):
                return
            k = 4 if ext is TRUE else 3
            t = const(0)
            for x in a[:k]:
                t = add(t, mul(x, x))
            tag = {None: "default", TRUE: "with extrusion", FALSE: "without extrusion"}[ext]
            sc.prove(f"{cls}.get_norm {tag}", eq=(n, sqrt(t)), where=where)
            got = [v for g, v in sc.items(vec)]
            if vec.op == "ref":  # the caller owns the list
                sc._run(sc.e.setitem, vec, const(0), sc.sym("other"), None)
                again = [v for g, v in sc.items(sc.meth(u, "get_vec", **kw))]
                for i, (p, q) in enumerate(zip(again, a)):
                    sc.prove(f"{cls}.get_vec {tag} [{i}] after an earlier result was changed", eq=(p, q), where=lab.where("utils.vector_4D.get_vec"))
            lab.structural(f"{cls}.get_vec {tag} length", len(got) == k, lab.where("utils.vector_4D.get_vec"), "get_vec returns the wrong number of components")
            for i, (p, q) in enumerate(zip(got, a)):
                sc.prove(f"{cls}.get_vec {tag} [{i}]", eq=(p, q), where=lab.where("utils.vector_4D.get_vec"))

        lab.attempt("get_norm", where, go)


def construct(lab, cls):
    where = lab.where("utils.vector_4D.__init__")
    for kind in ("args", "list", "tuple", "array"):
        def go():
            sc = lab.scene()
            a = sc.syms("a1 a2 a3 a4")
            k = sc.name("utils", cls)
            r = sc.call(k, *a) if kind == "args" else sc.call(k, operand(sc, cls, kind, a))
            if not sc.no_raise(f"{cls}({kind}) defined", where):
                return
            for ax, x in zip(AX, a):
                sc.prove(f"{cls}({kind}) {ax}", eq=(sc.get(r, ax), x), where=where)

        lab.attempt(f"{cls}({kind})", where, go)


def distances(lab):
    where = lab.where("utils.position.get_t_distance")

    def go():
        for ext in (None, FALSE, TRUE):
            for other in (True, False):
                sc = lab.scene()
                a, b = sc.syms("a1 a2 a3 a4"), sc.syms("b1 b2 b3 b4")
                u, w = made(sc, "position", a), made(sc, "position", b)
                kw = {} if ext is None else {"withExtrusion": ext}
                if other:
                    kw["other"] = w
                d = sc.meth(u, "get_t_distance", **kw)
                if not sc.no_raise("get_t_distance defined", where):
                    continue
                t = const(0)
                for x, y in list(zip(a, b if other else [const(0)] * 4))[: 4 if ext is TRUE else 3]:
                    t = add(t, mul(sub(x, y), sub(x, y)))
                sc.prove(f"get_t_distance other={other} extrusion={ext is TRUE}", eq=(d, sqrt(t)), where=where)
        # travel and extrusion predicates
        sc = lab.scene()
        a, b = sc.syms("a1 a2 a3 a4"), sc.syms("b1 b2 b3 b4")
        u, w = made(sc, "position", a), made(sc, "position", b)
        eqs = [mk("eq", *sorted((x, y), key=lambda t: t.id)) for x, y in zip(a, b)]
        tr = sc.e.truth(sc.meth(u, "is_travel", w), sc.st)
        sc.prove("is_travel", eq=(tr, NOT(AND(*eqs[:3]))), where=lab.where("utils.position.is_travel"))
        ex = sc.e.truth(sc.meth(u, "is_extruding", w), sc.st)
        sc.prove("is_extruding", eq=(ex, mk("lt", a[3], b[3])), where=lab.where("utils.position.is_extruding"))
        ex = sc.e.truth(sc.meth(u, "is_extruding", w, ignore_retract=FALSE), sc.st)
        sc.prove("is_extruding with retracts", eq=(ex, NOT(eqs[3])), where=lab.where("utils.position.is_extruding"))
        sc.no_raise("predicates defined", where)

    lab.attempt("get_t_distance", where, go)
