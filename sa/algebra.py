"""Exact algebra on terms: rational functions over atoms with square-root and absolute-value reduction.

A value expression is normalised to N/D with N, D polynomials (dict monomial -> Fraction) over *atoms* (terms that the
algebra does not interpret further).  Two expressions are the same function when N1*D2 - N2*D1 reduces to the zero
polynomial; the sign of an expression is decided from declared sign facts of its atoms (accelerations are positive,
norms are non-negative, ...) and, if that is not enough, from linear entailment over the monomials (polyhedra).
"""
import time
from decimal import Context, Decimal
from fractions import Fraction
from math import gcd, isqrt

from .terms import T, mk, const, is_num, cval, TRUE, FALSE, ITE, NOT


class NeedAtom(Exception):
    def __init__(self, atom, domain):
        self.atom, self.domain = atom, domain


class NotNumeric(Exception):
    pass


class Undef(Exception):
    """The value is undefined in this case (division by zero, empty maximum, ...)."""


# polynomials -------------------------------------------------------------
# monomial: tuple of (atom, exp) sorted by atom id
ONE_M = ()


def p_const(c):
    c = Fraction(c)
    return {ONE_M: c} if c else {}


def p_atom(a):
    return {((a, 1),): Fraction(1)}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c * k
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


MAXTERMS = 6000


class TooBig(Exception):
    pass


def p_is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def p_cval(p):
    return p.get(ONE_M, Fraction(0))


DEC = Context(prec=60)


class Ctx:
    """Sign facts about atoms and the assignment of the current case."""

    def __init__(self, signs=None, env=None, casework=False, subs=None):
        self.signs = signs if signs is not None else {}  # atom -> 'pos' | 'nonneg' | 'nonpos' | 'neg' | 'nz'
        self.env = env if env is not None else {}  # ('sgn', key) -> -1/0/1 ; bool atom T -> bool
        self.casework = casework
        self.memo = {}
        self.bmemo = {}
        self.polys = {}  # sgn key -> poly
        self.lin = []  # linear facts derived from env: (poly, rel) rel in '>', '>=', '='
        self.sqrt_of = {}
        self.roots = {}
        self.abs_of = {}
        self.subs = subs or {}  # poly substitutions: atom -> Rat (from equality facts)
        self.split_abs = True
        self.square_of = {}  # relation: atom -> polynomial equal to its square

    # -- multiplication with sqrt/abs reduction
    def p_mul(self, a, b):
        r = {}
        if len(a) * len(b) > 200000:
            raise TooBig()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m_mul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        r = self.reduce(r)
        if len(r) > MAXTERMS:
            raise TooBig()
        return r

    def reduce(self, p):
        """s**2 -> radicand for sqrt atoms, |x|**2 -> x**2."""
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and (a in self.sqrt_of or a in self.abs_of or a in self.square_of):
                        hit = m
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            c = p[hit]
            out = dict(p)
            del out[hit]
            rest = []
            add = {ONE_M: c}
            for a, e in hit:
                if e >= 2 and a in self.sqrt_of:
                    for _ in range(e // 2):
                        add = self.p_mul(add, self.sqrt_of[a])
                    if e % 2:
                        rest.append((a, 1))
                elif e >= 2 and a in self.square_of:
                    for _ in range(e // 2):
                        add = self.p_mul(add, self.square_of[a])
                    if e % 2:
                        rest.append((a, 1))
                elif e >= 2 and a in self.abs_of:
                    for _ in range(e // 2 * 2):
                        add = self.p_mul(add, self.abs_of[a])
                    if e % 2:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            add = self.p_mul(add, {tuple(rest): Fraction(1)}) if rest else add
            p = p_add(out, add)

    def p_pow(self, p, n):
        r = p_const(1)
        while n:
            if n & 1:
                r = self.p_mul(r, p)
            n >>= 1
            if n:
                p = self.p_mul(p, p)
        return r

    # -- signs
    def atom_sign(self, a):
        s = self.signs.get(a)
        if s:
            return s
        if a.op in ("sqrtp", "absp"):
            p = (self.sqrt_of if a.op == "sqrtp" else self.abs_of).get(a)
            return "pos" if p is not None and 0 not in self.p_sign(p) else "nonneg"
        if a.op in ("len", "norm"):
            return "nonneg"
        return None

    def mono_sign(self, m):
        """(sign, strict) of a monomial, or None."""
        sg, strict = 1, True
        for a, e in m:
            s = self.atom_sign(a)
            if e % 2 == 0:
                if s not in ("pos", "neg", "nz"):
                    strict = False
                continue
            if s == "pos":
                continue
            if s == "neg":
                sg = -sg
                continue
            if s == "nonneg":
                strict = False
                continue
            if s == "nonpos":
                sg, strict = -sg, False
                continue
            return None
        return sg, strict

    def const_root(self, a):
        """Value of a square root of a number, to 60 digits."""
        v = self.roots.get(a)
        if v is None:
            q = self.sqrt_of.get(a)
            v = False
            if q is not None:
                if p_is_const(q):
                    c = p_cval(q)
                    v = (DEC.divide(Decimal(c.numerator), Decimal(c.denominator))).sqrt(DEC) if c >= 0 else False
                elif all(self.const_root(x) for m in q for x, _ in m):
                    t = Decimal(0)
                    for m, c in q.items():
                        t = DEC.add(t, self.const_value(m, c))
                    v = DEC.sqrt(t) if t > Decimal("1e-30") else False
            self.roots[a] = v
        return v

    def const_value(self, m, c):
        v = DEC.divide(Decimal(c.numerator), Decimal(c.denominator))
        for x, e in m:
            for _ in range(e):
                v = DEC.multiply(v, self.const_root(x))
        return v

    def collapse(self, p):
        """p with roots of numbers evaluated, the coefficients being exact in sign; None if a sign is too close to tell."""
        if not any(a in self.sqrt_of and self.const_root(a) for m in p for a, _ in m):
            return p
        out, size = {}, {}
        for m, c in p.items():
            k = tuple((a, e) for a, e in m if not (a in self.sqrt_of and self.const_root(a)))
            v = self.const_value([(a, e) for a, e in m if a in self.sqrt_of and self.const_root(a)], c)
            out[k] = DEC.add(out.get(k, Decimal(0)), v)
            size[k] = DEC.add(size.get(k, Decimal(0)), abs(v))
        for k in list(out):
            if abs(out[k]) <= size[k] * Decimal("1e-40"):
                return None
        return out

    def p_sign(self, p):
        """Set of possible signs of p from sign facts alone."""
        if not p:
            return {0}
        total = None
        strict = False
        if len(p) > 1:
            q = self.collapse(p)
            if q is None:
                return {-1, 0, 1}
            p = q
        for m, c in p.items():
            ms = self.mono_sign(m)
            if ms is None:
                return {-1, 0, 1}
            s = ms[0] if c > 0 else -ms[0]
            if total is None:
                total = s
            elif total != s:
                return {-1, 0, 1}
            strict = strict or ms[1]
        return {total} if strict else {0, total}

    # -- normalisation of rationals
    def norm_rat(self, n, d):
        if not d:
            raise Undef("division by zero")
        if not n:
            return ({}, p_const(1))
        if p_is_const(d):
            c = p_cval(d)
            return (p_scale(n, 1 / c) if c != 1 else n, p_const(1))
        # cancel common monomial factor and, if possible, exact division
        common = None
        for m in list(n) + list(d):
            dm = dict(m)
            common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
            if not common:
                break
        if common:
            n = {_m_div(m, common): c for m, c in n.items()}
            d = {_m_div(m, common): c for m, c in d.items()}
        if p_is_const(d):
            c = p_cval(d)
            return (p_scale(n, 1 / c), p_const(1))
        # n = k*d ?
        if len(n) == len(d) and set(n) == set(d):
            ks = {n[m] / d[m] for m in n}
            if len(ks) == 1:
                return (p_const(ks.pop()), p_const(1))
        # rationalise a single sqrt denominator s -> s/s^2
        if len(d) == 1:
            (m, c), = d.items()
            for a, e in m:
                if a in self.sqrt_of and e == 1 and len(self.sqrt_of[a]) == 1:
                    n2 = self.p_mul(n, p_atom(a))
                    d2 = self.p_mul(d, p_atom(a))
                    return self.norm_rat(n2, d2)
        if len(n) > 1 and len(d) > 1 and len(n) < 400:
            q = p_divide(n, d)
            if q is not None:
                return (self.reduce(q), p_const(1))
            q = p_divide(d, n)
            if q is not None and len(q) < len(d):
                return self.norm_rat(p_const(1), self.reduce(q))
        lead = min(d, key=_mkey)
        k = d[lead]
        if k != 1:
            n, d = p_scale(n, 1 / k), p_scale(d, 1 / k)
        return (n, d)

    def r_add(self, a, b, k=1):
        if a[1] == b[1]:
            return self.norm_rat(p_add(a[0], b[0], k), a[1])
        n = p_add(self.p_mul(a[0], b[1]), self.p_mul(b[0], a[1]), k)
        return self.norm_rat(n, self.p_mul(a[1], b[1]))

    def r_mul(self, a, b):
        return self.norm_rat(self.p_mul(a[0], b[0]), self.p_mul(a[1], b[1]))

    def r_div(self, a, b):
        if not b[0]:
            raise Undef("division by zero")
        return self.norm_rat(self.p_mul(a[0], b[1]), self.p_mul(a[1], b[0]))

    def r_sqrt(self, r):
        n, d = r
        if not n:
            return ({}, p_const(1))
        sd = self.p_sign(d)
        if sd == {-1}:
            n, d = p_scale(n, -1), p_scale(d, -1)
        elif sd != {1} and not p_is_const(d):
            # 1/d with unknown sign: multiply through, |d|
            ab = self.r_abs((d, p_const(1)))
            nn = self.p_mul(n, d)
            return self.r_div(self._sqrt_poly(nn), ab)
        if p_is_const(d):
            c = p_cval(d)
            return self._sqrt_poly(p_scale(n, 1 / c))
        return self.r_div(self._sqrt_poly(self.p_mul(n, d)), (d, p_const(1)))

    def _sqrt_poly(self, p):
        """sqrt of a polynomial with nonneg value."""
        if not p:
            return ({}, p_const(1))
        # rational content
        num, den = 0, 1
        for c in p.values():
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        content = Fraction(num, den)
        prim = p_scale(p, 1 / content)
        # common monomial
        common = None
        for m in prim:
            dm = dict(m)
            common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        out_m, in_m = [], []
        common = common or {}
        single = len(prim) == 1
        for a, e in sorted(common.items(), key=lambda x: x[0].id):
            if e // 2:
                s = self.atom_sign(a)
                if s in ("pos", "nonneg"):
                    out_m.append((p_atom(a), e // 2))
                else:
                    out_m.append((self.r_abs((p_atom(a), p_const(1)))[0], e // 2))
            if e % 2:
                in_m.append((a, 1))
        full = tuple(sorted(((a, e) for a, e in common.items()), key=lambda x: x[0].id))
        rest = {_m_div(m, dict(full)): c for m, c in prim.items()} if full else prim
        in_poly = self.p_mul(rest, {tuple(in_m): Fraction(1)}) if in_m else rest
        # content: split squares from numerator and denominator: sqrt(a/b) = sqrt(a*b)/b
        ab = content.numerator * content.denominator
        sq, free = _split_square(ab)
        coef = Fraction(sq, content.denominator)
        res = (p_const(coef), p_const(1))
        for q, e in out_m:
            res = self.r_mul(res, (self.p_pow(q, e), p_const(1)))
        if p_is_const(in_poly) and p_cval(in_poly) == 1 and free == 1:
            return res
        if p_is_const(in_poly) and p_cval(in_poly) < 0:
            raise Undef("sqrt of a negative number")
        # perfect square polynomial?
        if not single:
            root = self.p_root(in_poly)
            if root is not None:
                rr = self.r_abs((root, p_const(1)))
                res = self.r_mul(res, rr)
                if free == 1:
                    return res
                in_poly = p_const(1)
        # split sqrt over positive single-monomial factors already done; build the atom
        inside = p_scale(in_poly, free)
        a = mk("sqrtp", p_key(inside))
        self.sqrt_of[a] = inside
        return self.r_mul(res, (p_atom(a), p_const(1)))

    def p_root(self, p):
        """A polynomial q with q*q == p for sums of up to four terms, else None (q up to sign)."""
        if len(p) not in (3, 6, 10):
            return None
        sq = [(m, c) for m, c in p.items() if c > 0 and all(e % 2 == 0 for _, e in m)]
        k = {3: 2, 6: 3, 10: 4}[len(p)]
        if len(sq) < k:
            return None
        from itertools import combinations, product

        for combo in combinations(sq, k):
            roots = []
            ok = True
            for m, c in combo:
                s1, f1 = _split_square(c.numerator)
                s2, f2 = _split_square(c.denominator)
                if f1 != 1 or f2 != 1:
                    ok = False
                    break
                roots.append((tuple((a, e // 2) for a, e in m), Fraction(s1, s2)))
            if not ok:
                continue
            for signs in product((1, -1), repeat=k - 1):
                q = {}
                for (m, c), s in zip(roots, (1,) + signs):
                    q[m] = c * s
                if len(q) == k and self.p_mul(q, q) == p:
                    return q
        return None

    def r_abs(self, r):
        n, d = r
        s = self.r_sign(r)
        if s <= {0, 1}:
            return r
        if s <= {-1, 0}:
            return (p_scale(n, -1), d)
        if self.casework and self.split_abs:
            v = self.sgn(r)
            return r if v >= 0 else (p_scale(n, -1), d)
        # monomial split: |c*x*y^2| = |c| |x| y^2
        def absp(p):
            if len(p) == 1:
                (m, c), = p.items()
                res = p_const(abs(c))
                for a, e in m:
                    if e % 2 == 0 or self.atom_sign(a) in ("pos", "nonneg"):
                        res = self.p_mul(res, {((a, e),): Fraction(1)})
                    else:
                        ab = mk("absp", p_key(p_atom(a)))
                        self.abs_of[ab] = p_atom(a)
                        res = self.p_mul(res, {((ab, e),): Fraction(1)})
                return res
            common = None
            for m in p:
                dm = dict(m)
                common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
            if common:
                rest = {_m_div(m, common): c for m, c in p.items()}
                return self.p_mul(absp({tuple(sorted(common.items(), key=lambda x: x[0].id)): Fraction(1)}), absp(rest))
            sg = self.p_sign(p)
            if sg <= {0, 1}:
                return p
            if sg <= {0, -1}:
                return p_scale(p, -1)
            lead = min(p, key=_mkey)
            if p[lead] < 0:
                p = p_scale(p, -1)
            ab = mk("absp", p_key(p))
            self.abs_of[ab] = p
            return p_atom(ab)

        return self.norm_rat(absp(n), absp(d))

    def r_sign(self, r):
        sn, sd = self.p_sign(r[0]), self.p_sign(r[1])
        sd = sd - {0}
        out = {a * b for a in sn for b in sd}
        if out == {-1, 0, 1} or len(out) > 1:
            k = self._sgn_key(r)
            if k is not None:
                key, flip = k
                v = self.env.get(("sgn", key))
                if v is not None:
                    return {v * flip}
                dom = self.sgn_domain(key)
                out2 = {v * flip for v in dom}
                if out2 < out:
                    return out2 & out or out2
        return out

    def _sgn_key(self, r):
        """Canonical polynomial whose sign (times flip) is the sign of r."""
        n, d = r
        if p_is_const(d):
            p, flip = n, (1 if p_cval(d) > 0 else -1)
        else:
            sd = self.p_sign(d) - {0}
            if sd == {1}:
                p, flip = n, 1
            elif sd == {-1}:
                p, flip = n, -1
            else:
                p, flip = self.p_mul(n, d), 1
        return self._sgn_key_p(p, flip)

    def _sgn_key_p(self, p, flip, depth=0):
        if not p:
            return (), 1
        # drop monomial factors of known strict sign
        common = None
        for m in p:
            dm = dict(m)
            common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        for a, e in (common or {}).items():
            s = self.atom_sign(a)
            if s == "pos":
                p = {_m_div(m, {a: e}): c for m, c in p.items()}
            elif s == "neg":
                p = {_m_div(m, {a: e}): c for m, c in p.items()}
                flip = flip * (-1) ** e
            elif len(p) > 1 and a in self.sqrt_of and self.casework:
                k, f = self._sgn_key_p(self.sqrt_of[a], 1)
                v = self.env.get(("sgn", k))
                if v is None:
                    dom = {x * f for x in self.p_sign(self.sqrt_of[a])}
                    v = next(iter(dom)) if len(dom) == 1 else None
                if v is not None and v * f == 1:
                    p = {_m_div(m, {a: e}): c for m, c in p.items()}
        # a single linear sqrt atom: sgn(al*s + be) with known signs -> compare squares
        roots = {a for m in p for a, _ in m if a in self.sqrt_of}
        if roots and 1 < len(p) <= 60 and depth < 4:
            for s in sorted(roots, key=lambda x: x.id):
                al = {_m_div(m, {s: 1}): c for m, c in p.items() if dict(m).get(s) == 1}
                be = {m: c for m, c in p.items() if s not in dict(m)}
                sa = self.p_sign(al) - {0}
                sb = self.p_sign(be)
                if len(sa) != 1:
                    continue
                sa = sa.pop()
                if sb <= {0, -sa} and len(self.p_sign(al)) == 1:
                    sq = p_add(self.p_mul(self.p_mul(al, al), self.sqrt_of[s]), self.p_mul(be, be), -1)
                    if len(sq) > 120:
                        continue
                    return self._sgn_key_p(sq, flip * sa, depth + 1)
        lead = min(p, key=_mkey)
        if p[lead] < 0:
            p, flip = p_scale(p, -1), -flip
        num, den = 0, 1
        for c in p.values():
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        p = p_scale(p, Fraction(den, num))
        key = p_key(p)
        self.polys[key] = p
        return key, flip

    def sgn_domain(self, key):
        if key == ():
            return {0}
        p = self.polys[key]
        dom = self.p_sign(p)
        if len(dom) > 1 and self.casework and self.lin:
            q = self.substitute(p)
            if q is not p:
                dom = dom & self.p_sign(q)
        if len(dom) > 1 and self.casework and self.lin:
            for v in sorted(dom):
                if not feasible(self, self.lin + [_fact(p, v)]):
                    dom = dom - {v}
        return dom

    def substitute(self, p):
        """p with the symbols that the equations among the facts determine replaced."""
        for q, rel in self.lin:
            if rel != "=" or len(q) > 4:
                continue
            for m, c in q.items():
                if len(m) != 1 or m[0][1] != 1:
                    continue
                x = m[0][0]
                if any(a is x for m2 in q if m2 is not m for a, _ in m2) or x in self.sqrt_of or x in self.abs_of:
                    continue
                if not any(a is x for m2 in p for a, _ in m2):
                    continue
                rest = p_scale({m2: c2 for m2, c2 in q.items() if m2 is not m}, Fraction(-1) / c)
                out = {}
                for m2, c2 in p.items():
                    e = dict(m2).get(x, 0)
                    if not e:
                        out = p_add(out, {m2: c2})
                        continue
                    if e > 4:
                        return p
                    out = p_add(out, self.p_mul({_m_div(m2, {x: e}): c2}, self.p_pow(rest, e)))
                p = out
                break
        return p

    def factor_roots(self, p):
        """Common square-root factors of a sum: decide first whether they vanish."""
        if len(p) > 1 and self.casework:
            common = set.intersection(*[{a for a, _ in m if a in self.sqrt_of} for m in p])
            for a in sorted(common, key=lambda x: x.id):
                q = self.sqrt_of[a]
                if len(self.p_sign(q)) > 1 and not p_is_const(q):
                    self.sgn((q, p_const(1)))

    def sgn(self, r):
        k = self._sgn_key(r)
        key, flip = k
        if key in self.polys and ("sgn", key) not in self.env:
            self.factor_roots(self.polys[key])
            key, flip = self._sgn_key(r)
        if key == ():
            return 0
        v = self.env.get(("sgn", key))
        if v is None:
            dom = self.sgn_domain(key)
            if len(dom) == 1:
                v = next(iter(dom))
            elif not dom:
                raise Infeasible()
            else:
                raise NeedAtom(("sgn", key), tuple(sorted(dom)))
        return v * flip

    # -- terms
    def rat(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._rat(t)
            self.memo[t] = r
        return r

    def _rat(self, t):
        op, a = t.op, t.args
        if op == "const":
            v = a[0]
            if isinstance(v, bool):
                return (p_const(int(v)), p_const(1))
            if isinstance(v, (int, Fraction)):
                return (p_const(v), p_const(1))
            raise NotNumeric(t)
        if op == "+":
            return self.r_add(self.rat(a[0]), self.rat(a[1]))
        if op == "*":
            return self.r_mul(self.rat(a[0]), self.rat(a[1]))
        if op == "/":
            return self.r_div(self.rat(a[0]), self.rat(a[1]))
        if op == "pow":
            b = a[1]
            if is_num(b):
                e = Fraction(cval(b))
                if e.denominator == 1:
                    x = self.rat(a[0])
                    n = int(e)
                    if n >= 0:
                        return self.norm_rat(self.p_pow(x[0], n), self.p_pow(x[1], n))
                    if not x[0]:
                        raise Undef("division by zero")
                    return self.norm_rat(self.p_pow(x[1], -n), self.p_pow(x[0], -n))
                if e == Fraction(1, 2):
                    return self.r_sqrt(self.rat(a[0]))
                if e == Fraction(3, 2):
                    x = self.rat(a[0])
                    return self.r_mul(x, self.r_sqrt(x))
        if op == "sqrt":
            return self.r_sqrt(self.rat(a[0]))
        if op == "abs":
            return self.r_abs(self.rat(a[0]))
        if op in ("min", "max"):
            if self.casework:
                best = self.rat(a[0])
                for x in a[1:]:
                    rx = self.rat(x)
                    s = self.sgn(self.r_add(rx, best, -1))
                    if (op == "min" and s < 0) or (op == "max" and s > 0):
                        best = rx
                return best
            return self.extreme(op, t, [self.rat(x) for x in a])
        if op == "gmax" or op == "gmin":  # guarded maximum: (g1, v1, g2, v2, ...)
            if self.casework:
                best = None
                for g, v in zip(a[::2], a[1::2]):
                    if not self.boolean(g):
                        continue
                    rv = self.rat(v)
                    if best is None:
                        best = rv
                        continue
                    s = self.sgn(self.r_add(rv, best, -1))
                    if (op == "gmin" and s < 0) or (op == "gmax" and s > 0):
                        best = rv
                if best is None:
                    raise Undef("maximum of an empty sequence")
                return best
            if all(g is TRUE for g in a[::2]):
                return self.extreme(op[1:], t, [self.rat(x) for x in a[1::2]])
            return (p_atom(t), p_const(1))
        if op == "ite":
            if self.casework:
                return self.rat(a[1] if self.boolean(a[0]) else a[2])
            # both branches equal?
            try:
                x, y = self.rat(a[1]), self.rat(a[2])
                if x == y:
                    return x
            except (NotNumeric, Undef):
                pass
            return (p_atom(t), p_const(1))
        if op in ("lt", "eq", "not", "and", "or", "in", "isnone", "truthy", "isclose", "is"):
            if self.casework:
                return (p_const(1 if self.boolean(t) else 0), p_const(1))
            return (p_atom(t), p_const(1))
        if op in ("tuple", "arr", "ref", "list", "undef", "fstr"):
            raise NotNumeric(t)
        if t in self.subs:
            return self.subs[t]
        # opaque: canonicalise numeric arguments so that equal arguments give the same atom
        return (p_atom(self.canon_atom(t)), p_const(1))

    def extreme(self, op, t, vals):
        """Minimum or maximum where the sign facts decide it; otherwise the term itself is the atom."""
        keep = []
        for v in vals:
            if any(v == k for k in keep):
                continue
            drop = False
            for k in list(keep):
                s = self.r_sign(self.r_add(v, k, -1))
                if op == "min":
                    s = {-x for x in s}
                if 1 not in s:
                    drop = True
                    break
                if -1 not in s:
                    keep.remove(k)
            if not drop:
                keep.append(v)
        if len(keep) == 1:
            return keep[0]
        return (p_atom(t), p_const(1))

    def canon_atom(self, t):
        if not t.args or t.op in ("sym", "sqrtp", "absp"):
            return t
        new = []
        for x in t.args:
            if isinstance(x, T) and x.op not in ("const", "sym", "ref", "func", "cls", "ext"):
                try:
                    r = self.rat(x)
                    x = mk("rat", p_key(r[0]), p_key(r[1]))
                except (NotNumeric, Undef):
                    x = self.canon_atom(x) if isinstance(x, T) else x
            elif isinstance(x, T) and is_num(x):
                x = const(Fraction(cval(x)))
            new.append(x)
        return mk(t.op, *new)

    # -- booleans in casework mode
    def boolean(self, t):
        r = self.bmemo.get(t)
        if r is None:
            r = self._boolean(t)
            self.bmemo[t] = r
        return r

    def _boolean(self, t):
        op, a = t.op, t.args
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if op == "const":
            return bool(a[0])
        if op == "not":
            return not self.boolean(a[0])
        if op == "and":
            need = None
            for x in a:
                try:
                    if not self.boolean(x):
                        return False
                except NeedAtom as e:
                    need = need or e
            if need:
                raise need
            return True
        if op == "or":
            need = None
            for x in a:
                try:
                    if self.boolean(x):
                        return True
                except NeedAtom as e:
                    need = need or e
            if need:
                raise need
            return False
        if op == "ite":
            return self.boolean(a[1] if self.boolean(a[0]) else a[2])
        if op == "lt":
            x, y = self.resolve(a[0]), self.resolve(a[1])
            try:
                return self.sgn(self.r_add(self.rat(x), self.rat(y), -1)) < 0
            except NotNumeric:
                pass
        if op == "eq":
            x, y = self.resolve(a[0]), self.resolve(a[1])
            if x is y:
                return True
            if x.op == "const" and y.op == "const":
                return x.args[0] == y.args[0]
            strs = any(z.op == "const" and isinstance(z.args[0], str) or z.args[:1] == (None,) for z in (x, y))
            if not strs and not self.nonnum(x) and not self.nonnum(y):
                try:
                    return self.sgn(self.r_add(self.rat(x), self.rat(y), -1)) == 0
                except NotNumeric:
                    pass
            if y < x:
                x, y = y, x
            t = mk("eq", x, y)
            # a symbol known to equal one string constant differs from all others
            for k, v in self.env.items():
                if isinstance(k, T) and k.op == "eq" and v and k is not t:
                    for s in (x, y):
                        if s in k.args and s.op != "const":
                            o1 = k.args[0] if k.args[1] is s else k.args[1]
                            o2 = x if y is s else y
                            if o1.op == "const" and o2.op == "const":
                                return o1.args[0] == o2.args[0]
        if op == "isclose":
            try:
                ra, rb = self.rat(self.resolve(a[0])), self.rat(self.resolve(a[1]))
                d = self.r_add(ra, rb, -1)
                if not d[0]:
                    return True
                if p_is_const(d[0]) and p_is_const(d[1]) and p_is_const(ra[0]) and p_is_const(rb[0]):
                    return abs(p_cval(d[0]) / p_cval(d[1])) <= Fraction(1, 10**8) + Fraction(1, 10**5) * abs(
                        p_cval(rb[0]) / p_cval(rb[1])
                    )
                if self.casework and self.split_abs:
                    rt, at, np_kind = None, None, True
                    for k in a[2:]:
                        if k.op == "kw" and is_num(k.args[1]):
                            if k.args[0] in ("rtol", "rel_tol"):
                                rt = Fraction(cval(k.args[1]))
                            else:
                                at = Fraction(cval(k.args[1]))
                        elif k.op == "const":
                            np_kind = False
                        else:
                            rt = "?"
                    if rt != "?" and np_kind:
                        rt = Fraction(1, 10**5) if rt is None else rt
                        at = Fraction(1, 10**8) if at is None else at
                        tol = self.r_add((p_const(at), p_const(1)), self.r_mul((p_const(rt), p_const(1)), self.r_abs(rb)))
                        return self.sgn(self.r_add(tol, self.r_abs(d), -1)) >= 0
                t = mk("isclose", mk("rat", p_key(ra[0]), p_key(ra[1])), mk("rat", p_key(rb[0]), p_key(rb[1])))
                self.close_polys = getattr(self, "close_polys", {})
                self.close_polys[t] = d
            except NotNumeric:
                pass
        if op == "isnone":
            x = self.resolve(a[0])
            if x.op == "const":
                return x.args[0] is None
            if x.op in ("ref", "tuple", "arr", "+", "*", "/", "sqrt", "abs", "func", "cls"):
                return False
            t = mk("isnone", x)
        if op == "truthy":
            x = self.resolve(a[0])
            if x.op == "const":
                return bool(x.args[0])
            t = mk("truthy", x)
        if op in ("in", "is", "isinst"):
            t = mk(op, *[self.resolve(x) if isinstance(x, T) else x for x in a])
        if op in ("+", "*", "/", "sqrt", "abs", "min", "max"):
            return self.sgn(self.rat(t)) != 0
        v = self.env.get(t)
        if v is None:
            raise NeedAtom(t, (True, False))
        return v

    nonnum_syms = frozenset()

    def nonnum(self, t):
        return t.op in ("ref", "tuple", "arr", "fstr", "meth") or t in self.nonnum_syms

    def resolve(self, t):
        """Resolve the gates at the top of a term."""
        while t.op == "ite":
            t = t.args[1] if self.boolean(t.args[0]) else t.args[2]
        return t


class Infeasible(Exception):
    pass


def _fact(p, v):
    if v > 0:
        return (p, ">")
    if v < 0:
        return (p_scale(p, -1), ">")
    return (p, "=")


def _m_div(m, d):
    if not d:
        return m
    out = []
    for a, e in m:
        e2 = e - d.get(a, 0)
        if e2:
            out.append((a, e2))
    return tuple(out)


def _mkey(m):
    return (-sum(e for _, e in m), tuple((a.id, -e) for a, e in m))


def p_key(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=lambda x: _mkey(x[0])))


def p_divide(n, d):
    """Exact multivariate division n/d (graded order), or None."""
    lead = min(d, key=_mkey)
    lc = d[lead]
    dl = dict(lead)
    q, r = {}, dict(n)
    steps = 0
    while r:
        steps += 1
        if steps > 200:
            return None
        m = min(r, key=_mkey)
        dm = dict(m)
        if any(dm.get(a, 0) < e for a, e in dl.items()):
            return None
        qm = _m_div(m, dl)
        qc = r[m] / lc
        q[qm] = q.get(qm, 0) + qc
        for m2, c2 in d.items():
            mm = m_mul(qm, m2)
            v = r.get(mm, 0) - qc * c2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return q


def _split_square(n):
    """n = s*s*f with f squarefree (small n) or as far as trial division goes."""
    if n == 0:
        return 0, 1
    r = isqrt(n)
    if r * r == n:
        return r, 1
    s, f, k = 1, n, 2
    while k * k <= f and k < 2000:
        while f % (k * k) == 0:
            f //= k * k
            s *= k
        k += 1
    return s, f


# ------------------------------------------------------------------ polyhedra
def contradictory(ctx, facts, limit=0.5):
    """Do the facts contradict once products of facts with each other and with positive symbols are added?"""
    t0 = time.time()
    syms = []
    for p, rel in facts:
        for m in p:
            for a, e in m:
                if a not in syms and ctx.atom_sign(a) in ("pos", "nonneg"):
                    syms.append(a)
    base = list(facts)

    def times(f, g):
        rel = "=" if "=" in (f[1], g[1]) else (">" if f[1] == g[1] == ">" else ">=")
        return (ctx.p_mul(f[0], g[0]), rel)

    pos = [({((a, 1),): Fraction(1)}, ">" if ctx.atom_sign(a) == "pos" else ">=") for a in syms[:8]]
    small = [f for f in base if len(f[0]) <= 6]
    for size in (1, 2, 4, len(small)):  # grow the set of multiplied facts
        ext = list(base)
        pick = small if size >= len(small) else small[-size:] + small[:size]
        for f in pick:
            for g in pos:
                ext.append(times(f, g))
        if size > 1:
            for i, f in enumerate(pick):
                for g in pick[i + 1:]:
                    ext.append(times(f, g))
        if len(ext) > 80:
            ext = ext[:80]
        if not feasible(ctx, ext):
            return True
        if size >= len(small) or time.time() - t0 > limit:
            break
    return False


def feasible(ctx, facts):
    """Fourier-Motzkin on the monomials: False only if the linear facts (with sign facts of monomials) contradict."""
    rows = []
    monos = set()
    for p, rel in facts:
        monos |= {m for m in p if m != ONE_M}
    for m in monos:
        ms = ctx.mono_sign(m)
        if ms is not None:
            rows.append(({m: Fraction(ms[0])}, Fraction(0), ms[1]))
    for p, rel in facts:
        c = {m: v for m, v in p.items() if m != ONE_M}
        k = p.get(ONE_M, Fraction(0))
        if rel == "=":
            rows.append((c, k, False))
            rows.append(({m: -v for m, v in c.items()}, -k, False))
        else:
            rows.append((c, k, rel == ">"))
    for it in range(40):
        nr = []
        seen = set()
        for c, k, s in rows:
            if not c:
                if k < 0 or (s and k <= 0):
                    return False
                continue
            f = max(abs(v) for v in c.values())
            c = {m: v / f for m, v in c.items()}
            k = k / f
            key = (tuple(sorted(((tuple((a.id, e) for a, e in m), v) for m, v in c.items()))), k, s)
            if key not in seen:
                seen.add(key)
                nr.append((c, k, s))
        rows = nr
        if not rows:
            return True
        count = {}
        for c, k, s in rows:
            for m, v in c.items():
                a, b = count.get(m, (0, 0))
                count[m] = (a + 1, b) if v > 0 else (a, b + 1)
        m = min(count, key=lambda m: count[m][0] * count[m][1] - count[m][0] - count[m][1])
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        zero = [r for r in rows if m not in r[0]]
        if len(pos) * len(neg) > 400:
            return True
        for c1, k1, s1 in pos:
            for c2, k2, s2 in neg:
                f1, f2 = -c2[m], c1[m]
                c = {}
                for mm in set(c1) | set(c2):
                    v = c1.get(mm, 0) * f1 + c2.get(mm, 0) * f2
                    if v and mm != m:
                        c[mm] = v
                zero.append((c, k1 * f1 + k2 * f2, s1 or s2))
        rows = zero
        if len(rows) > 600:
            return True
    return True


def p_term(ctx, p):
    """The polynomial as a term again (sqrt and abs atoms expanded)."""
    from . import engine as E

    if not p:
        return const(Fraction(0))
    r = None
    for m, c in sorted(p.items(), key=lambda x: _mkey(x[0])):
        t = None
        for a, e in m:
            x = a
            if a.op == "sqrtp":
                x = mk("sqrt", p_term(ctx, ctx.sqrt_of[a]))
            elif a.op == "absp":
                x = mk("abs", p_term(ctx, ctx.abs_of[a]))
            for _ in range(e):
                t = x if t is None else mk("*", t, x)
        if t is None:
            t = const(c)
        elif c != 1:
            t = mk("*", const(c), t)
        r = t if r is None else mk("+", r, t)
    return r


def r_term(ctx, r):
    n = p_term(ctx, r[0])
    if p_is_const(r[1]) and p_cval(r[1]) == 1:
        return n
    return mk("/", n, p_term(ctx, r[1]))


def p_show(p):
    from .terms import show

    if not p:
        return "0"
    parts = []
    for m, c in sorted(p.items(), key=lambda x: _mkey(x[0])):
        f = [] if (c == 1 and m) else [str(c)]
        for a, e in m:
            n = "sqrt(" + p_show(dict(a.args[0])) + ")" if a.op == "sqrtp" else "|" + p_show(dict(a.args[0])) + "|" if a.op == "absp" else show(a)
            f.append(n if e == 1 else f"{n}^{e}")
        parts.append("*".join(f))
    s = " + ".join(parts).replace("+ -", "- ")
    return s if len(s) < 400 else s[:390] + "..."


def r_show(r):
    return p_show(r[0]) if p_is_const(r[1]) and p_cval(r[1]) == 1 else f"({p_show(r[0])})/({p_show(r[1])})"
