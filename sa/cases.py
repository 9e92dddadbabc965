"""Deciding obligations over gated value graphs.

An obligation is `assumptions => claim` over terms.  The claim is evaluated in the exact algebra; every gate whose
condition is not decided by the sign facts splits the obligation into the cases of that gate (case distinction over the
gates of the value graph, not over program paths), infeasible combinations are pruned by linear arithmetic.

 PROVED   the claim normalises to true in every feasible case
 REFUTED  in some case it does not, and a concrete valuation of the input symbols confirms that the value computed by
          the source differs from the value required
 UNKNOWN  neither: recorded, never reported as a violation
"""
import math
import random
import time
from fractions import Fraction

from .algebra import Ctx, NeedAtom, NotNumeric, Undef, TooBig, Infeasible, feasible, contradictory, _fact, p_is_const, p_cval
from .terms import T, mk, const, is_num, cval, TRUE, FALSE, NONE, AND, OR, NOT, ITE, subterms, show


class Opaque(Exception):
    pass


class EvalUndef(Exception):
    pass


# ------------------------------------------------------------------ evaluation at a point
class Point:
    def __init__(self, vals, kinds=None):
        self.vals, self.kinds = vals, kinds or {}
        self.memo = {}

    def ev(self, t):
        if t in self.memo:
            r = self.memo[t]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._ev(t)
        except (Opaque, EvalUndef) as e:
            self.memo[t] = e
            raise
        self.memo[t] = r
        return r

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, float, Fraction)):
            raise Opaque(t)
        return v

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, tuple) and v and v[0] == "ref":
            raise Opaque(t)
        return bool(v)

    def _ev(self, t):
        op, a = t.op, t.args
        if t in self.vals:
            return self.vals[t]
        if op == "const":
            return a[0]
        if op == "sym" and a[0] == "pi":
            return math.pi
        if op == "sym" and a[0] == "inf":
            return math.inf
        if op == "+":
            return _x(self.num(a[0]), self.num(a[1]), lambda x, y: x + y)
        if op == "*":
            return _x(self.num(a[0]), self.num(a[1]), lambda x, y: x * y)
        if op == "/":
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0 or (isinstance(y, float) and abs(y) < 1e-13):
                raise EvalUndef("division by zero")
            if isinstance(x, int) and isinstance(y, int):
                return Fraction(x, y)
            return _x(x, y, lambda x, y: x / y)
        if op == "pow":
            x, y = self.num(a[0]), self.num(a[1])
            try:
                r = x ** y if isinstance(y, int) and not (x == 0 and y < 0) else float(x) ** float(y)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise EvalUndef("power")
            if isinstance(r, complex):
                raise EvalUndef("power")
            return r
        if op == "sqrt":
            x = self.num(a[0])
            if x < 0:
                if isinstance(x, float) and x > -1e-9:
                    return 0.0
                raise EvalUndef("sqrt of a negative number")
            if isinstance(x, (int, Fraction)):
                fx = Fraction(x)
                n, d = math.isqrt(fx.numerator), math.isqrt(fx.denominator)
                if n * n == fx.numerator and d * d == fx.denominator:
                    return Fraction(n, d)
            return math.sqrt(x)
        if op == "abs":
            return abs(self.num(a[0]))
        if op in ("min", "max"):
            vs = [self.num(x) for x in a]
            return (min if op == "min" else max)(vs)
        if op in ("gmin", "gmax"):
            vs = [self.num(v) for g, v in zip(a[::2], a[1::2]) if self.truth(g)]
            if not vs:
                raise EvalUndef("extremum of an empty sequence")
            return (min if op == "gmin" else max)(vs)
        if op == "ite":
            return self.ev(a[1] if self.truth(a[0]) else a[2])
        if op == "not":
            return not self.truth(a[0])
        if op == "and":
            exc = None
            for x in a:
                try:
                    if not self.truth(x):
                        return False
                except (Opaque, EvalUndef) as e:
                    exc = exc or e
            if exc:
                raise exc
            return True
        if op == "or":
            exc = None
            for x in a:
                try:
                    if self.truth(x):
                        return True
                except (Opaque, EvalUndef) as e:
                    exc = exc or e
            if exc:
                raise exc
            return False
        if op == "lt":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, str) and isinstance(y, str):
                return x < y
            x, y = self.num(a[0]), self.num(a[1])
            if _tie(x, y):
                return False
            return x < y
        if op == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)):
                return _tie(x, y)
            if isinstance(x, tuple) or isinstance(y, tuple):
                if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == y[:1] == ("ref",):
                    return x == y
                raise Opaque(t)
            return x == y
        if op == "is":
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                return x is y
            if isinstance(x, tuple) and isinstance(y, tuple):
                return x == y
            raise Opaque(t)
        if op == "isnone":
            return self.ev(a[0]) is None
        if op == "truthy":
            v = self.ev(a[0])
            if isinstance(v, tuple):
                raise Opaque(t)
            return bool(v)
        if op == "isclose":
            x, y = self.num(a[0]), self.num(a[1])
            rt, at = 1e-5, 1e-8
            np_kind = True
            for k in a[2:]:
                if k.op == "kw":
                    if k.args[0] in ("rtol", "rel_tol"):
                        rt = float(self.num(k.args[1]))
                    else:
                        at = float(self.num(k.args[1]))
                elif k.op == "const":
                    np_kind = False
            if not np_kind:
                rt = 1e-9 if rt == 1e-5 else rt
                at = 0 if at == 1e-8 else at
                return math.isclose(x, y, rel_tol=rt, abs_tol=at)
            return abs(float(x) - float(y)) <= at + rt * abs(float(y))
        if op == "fn":
            n = a[0]
            if n == "int":
                return int(self.num(a[1]))
            if n == "round":
                nd = self.ev(a[2])
                return round(self.num(a[1]), nd) if nd is not None else round(self.num(a[1]))
            f = getattr(math, n, None)
            if f is None:
                raise Opaque(t)
            try:
                return f(*[float(self.num(x)) for x in a[1:]])
            except (ValueError, OverflowError):
                raise EvalUndef(n)
        if op in ("mod", "floordiv"):
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0:
                raise EvalUndef("modulo by zero")
            return x % y if op == "mod" else x // y
        if op == "fstr":
            out = []
            for x in a:
                v = self.ev(x)
                if isinstance(v, (Fraction, float)):
                    v = float(v)
                if isinstance(v, tuple):
                    raise Opaque(t)
                out.append(str(v))
            return "".join(out)
        if op == "meth":
            s = self.ev(a[1])
            if not isinstance(s, str):
                raise Opaque(t)
            args = [self.ev(x) for x in a[2:]]
            try:
                return getattr(s, a[0])(*args)
            except Exception:
                raise Opaque(t)
        if op == "call" and a[0] == "float":
            s = self.ev(a[1])
            try:
                return Fraction(repr(float(s)))
            except (ValueError, TypeError):
                raise EvalUndef("float()")
        if op == "badfloat":
            try:
                float(self.ev(a[0]))
                return False
            except (ValueError, TypeError):
                return True
        if op == "in":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, str) and isinstance(y, str):
                return x in y
            raise Opaque(t)
        if op in ("tuple", "arr"):
            return ("seq",) + tuple(self.ev(x) for x in a)
        if op == "ref":
            return ("ref", a[0])
        if op == "undef":
            raise EvalUndef("undefined value")
        raise Opaque(t)


def _x(x, y, f):
    if isinstance(x, float) or isinstance(y, float):
        x, y = float(x), float(y)
    try:
        return f(x, y)
    except OverflowError:
        raise EvalUndef("overflow")


def _tie(x, y):
    if isinstance(x, float) or isinstance(y, float):
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(x)), abs(float(y)))
    return x == y


def differs(x, y):
    """Do two evaluated values really differ?"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(y, bool):
        y = int(y)
    if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)):
        return abs(float(x) - float(y)) > 1e-6 * max(1.0, abs(float(x)), abs(float(y)))
    if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == ("seq",) and y[:1] == ("seq",):
        return len(x) != len(y) or any(differs(p, q) for p, q in zip(x[1:], y[1:]))
    return x != y


# ------------------------------------------------------------------ claims
class Claim:
    """truth of a boolean term, or equality of two terms (arbitrary kind)."""

    def __init__(self, name, cond=None, eq=None, where="", detail=""):
        self.name, self.cond, self.eq, self.where, self.detail = name, cond, eq, where, detail

    def terms(self):
        return [self.cond] if self.cond is not None else list(self.eq)


class Verdict:
    def __init__(self, status, cases=0, witness=None, why="", actual=None, expected=None):
        self.status, self.cases, self.witness, self.why = status, cases, witness, why
        self.actual, self.expected = actual, expected

    def __repr__(self):
        return f"{self.status}({self.cases} cases{', ' + self.why if self.why else ''}{', ' + str(self.witness) if self.witness else ''})"


SIGN = {"pos": "pos", "nonneg": "nonneg", "neg": "neg", "nz": "nz"}
PURE = {"const", "sym", "+", "*", "/", "pow"}


class Decider:
    def __init__(self, kinds, assumptions=(), strings=None, seed=1, max_cases=4000, max_time=40.0, samples=600, pools=None):
        self.kinds = kinds
        self.signs = {s: SIGN[k] for s, k in kinds.items() if isinstance(k, str) and k in SIGN and isinstance(s, T)}
        self.nonnum = frozenset(s for s, k in kinds.items() if isinstance(k, str) and k in ("str", "obj", "path") and isinstance(s, T))
        self.assumptions = [a for a in assumptions if a is not TRUE]
        self.strings = strings or {}
        self.pools = pools or {}
        self.seed, self.max_cases, self.max_time, self.samples = seed, max_cases, max_time, samples
        self.sqrt_of, self.abs_of, self.polys = {}, {}, {}
        self.stats = {"claims": 0, "proved": 0, "refuted": 0, "unknown": 0, "cases": 0}
        self.square_of, self.groups = {}, []
        self.light = ()
        self.split_abs = True

    def ctx(self, env, lin):
        c = Ctx(self.signs, env, casework=True)
        c.sqrt_of, c.abs_of, c.polys = self.sqrt_of, self.abs_of, self.polys
        c.lin = lin
        c.square_of = self.square_of
        c.split_abs = self.split_abs
        c.nonnum_syms = self.nonnum
        return c

    # -- casework
    def check(self, ctx, claim):
        """True / False in this case (NeedAtom when undecided)."""
        for a in self.assumptions:
            if not ctx.boolean(a):
                return None
        if claim.cond is not None:
            return ctx.boolean(claim.cond)
        return self.same(ctx, claim.eq[0], claim.eq[1])

    def same(self, ctx, x, y):
        if x is y:
            return True
        x, y = ctx.resolve(x), ctx.resolve(y)
        if x is y:
            return True
        if x.op in ("tuple", "arr") and y.op in ("tuple", "arr"):
            return len(x.args) == len(y.args) and all(self.same(ctx, p, q) for p, q in zip(x.args, y.args))
        if x.op == "undef":
            return False
        if x.op == "const" and y.op == "const":
            p, q = x.args[0], y.args[0]
            if isinstance(p, (int, Fraction)) and isinstance(q, (int, Fraction)):
                return p == q
            return type(p) is type(q) and p == q
        bx, by = _boolish(x), _boolish(y)
        if bx and by:
            return ctx.boolean(x) == ctx.boolean(y)
        nn = ctx.nonnum
        if nn(x) or nn(y) or x is NONE or y is NONE or (x.op == "const" and isinstance(x.args[0], str)) or (y.op == "const" and isinstance(y.args[0], str)):
            if x.op == "fstr" and y.op == "fstr" and len(x.args) == len(y.args):
                return all(self.same(ctx, p, q) for p, q in zip(x.args, y.args))
            if x.op == "meth" and y.op == "meth" and x.args[0] == y.args[0] and len(x.args) == len(y.args):
                return all(self.same(ctx, p, q) if isinstance(p, T) else p == q for p, q in zip(x.args[1:], y.args[1:]))
            return ctx.boolean(mk("eq", *( (x, y) if x < y else (y, x)))) if not (x is NONE or y is NONE) else ctx.boolean(mk("isnone", y if x is NONE else x))
        try:
            rx, ry = ctx.rat(x), ctx.rat(y)
        except NotNumeric:
            return False
        d = ctx.r_add(rx, ry, -1)
        if not d[0]:
            return True
        return ctx.sgn(d) == 0

    def decide(self, claim, extra=()):
        self.stats["claims"] += 1
        saved = self.assumptions
        self.assumptions = saved + [a for a in extra if a is not TRUE]
        try:
            v = self._decide(claim)
        finally:
            self.assumptions = saved
        self.stats[v.status.lower()] += 1
        self.stats["cases"] += v.cases
        return v

    def _decide(self, claim):
        if claim.cond is TRUE or (claim.eq is not None and claim.eq[0] is claim.eq[1]):
            return Verdict("PROVED", 1)
        self.slack = 1.0
        # the identity may hold outright; then under the assumptions, with |x| kept whole; then with |x| split by sign
        total = 0
        saved = self.assumptions
        leaves, why = [], ""
        terms = claim.terms() + saved
        has_abs = any(s.op == "abs" for t in terms for s in subterms(t)) or any(
            s.op == "sqrt" for t in terms for s in subterms(t))
        stages = [(False, False, 150, 3.0)] if saved else []
        if self.light and len(self.light) < len(saved):  # the stated assumptions without the path condition
            stages.append(("light", False, 400, 4.0))
        if has_abs:
            stages.append((True, False, self.max_cases // 2, self.max_time / 2))
        stages.append((True, True, self.max_cases, self.max_time))
        try:
            for k, (use, split, mc, mt) in enumerate(stages):
                if k == min(1, len(stages) - 1):
                    self.assumptions = saved
                    w = self.find_witness(claim, [], samples=24, limit=2.0)
                    if w is not None:
                        return Verdict("REFUTED", total, witness=w[0], actual=w[1], expected=w[2])
                self.assumptions, self.split_abs = (self.light if use == "light" else saved if use else []), split
                st, n, fl, why = self.explore(claim, mc, mt)
                total += n
                if st:
                    return Verdict("PROVED", total)
                if use is True:
                    leaves = fl or leaves
        finally:
            self.assumptions, self.split_abs = saved, True
        w = self.find_witness(claim, leaves)
        if w is not None:
            return Verdict("REFUTED", total, witness=w[0], actual=w[1], expected=w[2])
        return Verdict("UNKNOWN", total, why=why or f"{len(leaves)} case(s) not shown equal, no concrete witness")

    def impossible(self, ctx, lin):
        """Products of the facts rule this case out (within a small time allowance per claim)."""
        if self.slack <= 0:
            return False
        t0 = time.time()
        try:
            return contradictory(ctx, lin, limit=0.2)
        finally:
            self.slack -= time.time() - t0

    def explore(self, claim, max_cases, max_time):
        t0 = time.time()
        stack = [({}, [])]
        n = 0
        false_leaves = []
        why = ""
        while stack:
            env, lin = stack.pop()
            n += 1
            if n > max_cases or time.time() - t0 > max_time:
                why = "case budget exhausted"
                break
            ctx = self.ctx(env, lin)
            try:
                r = self.check(ctx, claim)
                if r is False and not self.impossible(ctx, lin):
                    false_leaves.append((env, lin))
                    if len(false_leaves) >= 12:
                        break
            except Infeasible:
                continue
            except NeedAtom as e:
                key, dom = e.atom, e.domain
                for v in dom:
                    env2 = dict(env)
                    env2[key] = v
                    lin2 = lin
                    if isinstance(key, tuple) and key[0] == "sgn":
                        lin2 = lin + [_fact(self.polys[key[1]], v)]
                        if not feasible(ctx, lin2):
                            continue
                    stack.append((env2, lin2))
            except Undef as e:
                false_leaves.append((env, lin))
                why = str(e)
                if len(false_leaves) >= 12:
                    break
            except (TooBig, RecursionError) as e:
                why = f"algebra limit ({type(e).__name__})"
                break
        return (not false_leaves and not why and not stack), n, false_leaves, why

    # -- witnesses
    def symbols(self, terms):
        out = []
        for t in terms:
            for s in subterms(t):
                if s in self.kinds and s not in out and isinstance(self.kinds[s], str):
                    out.append(s)
                elif s.op == "sym" and s not in out and s in self.kinds:
                    out.append(s)
        return sorted(out, key=lambda s: s.id)

    POOL = [Fraction(x) for x in ("0", "1", "2", "3", "5", "10", "-1", "-2", "-4", "0.5", "7", "20", "-10", "100", "0.1", "40", "1000")]

    def sample(self, rng, syms):
        vals = {}
        mode = rng.random()
        sub_ = rng.sample(self.POOL, 4) if mode < 0.4 else self.POOL
        for s in syms:
            k = self.kinds.get(s)
            if s in self.pools:
                vals[s] = rng.choice(self.pools[s])
                continue
            if k == "bool":
                vals[s] = rng.random() < 0.5
            elif k == "str":
                pool = self.strings.get(s) or self.strings.get(None) or ["", "a", "b"]
                vals[s] = rng.choice(pool)
            elif k == "int":
                vals[s] = rng.choice([0, 1, 2, 3, 5, -1, 7])
            elif k in ("obj", "path"):
                continue
            else:
                if mode < 0.75 or rng.random() < 0.3:
                    v = rng.choice(sub_)
                else:
                    v = Fraction(rng.randint(-400, 400), 16)
                if k == "pos":
                    v = abs(v) or Fraction(1)
                elif k == "nonneg":
                    v = abs(v)
                elif k == "neg":
                    v = -(abs(v) or Fraction(1))
                elif k == "nz" and v == 0:
                    v = Fraction(1)
                vals[s] = v
        for names, pool in self.groups:
            if any(n in vals for n in names):
                vals.update(zip(names, rng.choice(pool)))
        return vals

    def refutes(self, claim, vals):
        """(actual, expected) if the valuation satisfies the assumptions and violates the claim."""
        p = Point(vals, self.kinds)
        try:
            for a in self.assumptions:
                if not p.truth(a):
                    return None
        except (Opaque, EvalUndef):
            return None
        if claim.cond is not None:
            try:
                if p.truth(claim.cond):
                    return None
            except Opaque:
                return None
            except EvalUndef as e:
                return ("undefined: " + str(e), "true")
            # robust: not a rounding tie
            return ("false", "true")
        try:
            exp = p.ev(claim.eq[1])
        except (Opaque, EvalUndef):
            return None
        try:
            act = p.ev(claim.eq[0])
        except Opaque:
            return None
        except EvalUndef as e:
            return ("undefined: " + str(e), _pv(exp))
        if differs(act, exp):
            return (_pv(act), _pv(exp))
        return None

    def find_witness(self, claim, leaves, samples=None, limit=30.0):
        terms = claim.terms() + self.assumptions
        syms = self.symbols(terms)
        rng = random.Random(self.seed)
        t0 = time.time()
        # guided by the failing cases
        for env, lin in leaves:
            eqs = [p for p, rel in lin if rel == "="]
            for _ in range(60):
                if time.time() - t0 > min(20, max(1.0, self.max_time)):
                    break
                vals = self.sample(rng, syms)
                self.repair(vals, eqs, env, rng)
                r = self.refutes(claim, vals)
                if r is not None:
                    return self.fmt(vals), r[0], r[1]
        limit = min(limit, max(1.0, self.max_time))
        for _ in range(samples or self.samples):
            if time.time() - t0 > limit:
                break
            vals = self.sample(rng, syms)
            r = self.refutes(claim, vals)
            if r is not None:
                return self.fmt(vals), r[0], r[1]
        return None

    def repair(self, vals, eqs, env, rng):
        for k, v in env.items():
            if isinstance(k, T) and k in vals and self.kinds.get(k) == "bool":
                vals[k] = v
            if isinstance(k, T) and k.op == "eq" and v:
                a, b = k.args
                for s, o in ((a, b), (b, a)):
                    if s in vals and o.op == "const" and isinstance(o.args[0], str):
                        vals[s] = o.args[0]
                        break
                    if s in vals and o in vals:
                        vals[s] = vals[o]
                        break
        for _ in range(2):
            for p in eqs:
                # solve for a symbol that occurs linearly
                cands = []
                for m in p:
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in vals:
                        a = m[0][0]
                        if sum(1 for m2 in p if any(x is a for x, _ in m2)) == 1:
                            cands.append((a, p[m]))
                cands = [x for x in cands if not any(x[0] in g for g, _ in self.groups)]
                if not cands:
                    continue
                a, c = rng.choice(cands)
                rest = Fraction(0)
                ok = True
                for m, k in p.items():
                    if m == ((a, 1),):
                        continue
                    v = k
                    for x, e in m:
                        if x not in vals or isinstance(vals[x], (str, bool)):
                            ok = False
                            break
                        v = v * vals[x] ** e
                    if not ok:
                        break
                    rest += v
                if ok:
                    nv = -rest / c
                    kd = self.kinds.get(a)
                    if (kd == "pos" and nv <= 0) or (kd == "nonneg" and nv < 0):
                        continue
                    vals[a] = nv

    def fmt(self, vals):
        return ", ".join(f"{show(s)}={_pv(v)}" for s, v in sorted(vals.items(), key=lambda x: x[0].id))


def _boolish(t):
    return t.op in ("lt", "eq", "not", "and", "or", "in", "isnone", "truthy", "isclose", "is") or t is TRUE or t is FALSE


def _pv(v):
    if isinstance(v, Fraction):
        return str(v.numerator) if v.denominator == 1 else f"{float(v):g}"
    if isinstance(v, float):
        return f"{v:g}"
    if isinstance(v, tuple):
        return "(" + ", ".join(_pv(x) for x in v[1:]) + ")"
    return repr(v)
