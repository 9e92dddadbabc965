"""Obligations and findings.

A rule builds abstract inputs through the package's public interface, lets the engine derive the value graph of the
result and states obligations over it.  `prove` decides an obligation over value graphs, `structural` records the result
of a whole-program query.  Only a refuted obligation (with a concrete counter-valuation) or a definite structural fact is a
violation; anything the analysis cannot decide is listed in the evidence as undecided.
"""
import os
import signal
import time
import traceback
from fractions import Fraction

from .program import Program, AnalysisError
from .engine import Engine, Dead, Unsupported, Inst, Lst, Dct, Frame
from .terms import T, mk, const, sym, TRUE, FALSE, NONE, UNDEF, AND, OR, NOT, ITE, is_num, cval, show, subterms
from .cases import Decider, Claim
from . import engine as _engine
from . import terms as _terms
from .algebra import Ctx, NotNumeric, Undef, TooBig, NeedAtom, r_term, p_is_const, p_cval, p_term


class Finding:
    def __init__(self, key, where, what, detail):
        self.key, self.where, self.what, self.detail = key, where, what, detail


class Lab:
    def __init__(self, prop, root="/repo", tier="quick", seed=1):
        self.prop, self.root, self.tier, self.seed = prop, root, tier, seed
        self.program = Program(root)
        self.obligations = []  # dicts
        self.findings = []
        self.functions, self.callsites = set(), 0
        self.analysed = set()  # functions the value-flow analysis entered
        self.notes = []
        self.scenes = 0
        self.rules = []
        self.cases = 0
        self.extra = {}
        self.max_findings = 8
        self.budget = 240 if tier == "quick" else 1200
        self.t0 = time.time()

    # -- anchors
    def where(self, anchor):
        """file:line of a module.function / module.Class.method anchor."""
        parts = anchor.split(".")
        for m in self.program.modules.values():
            if m.name.split(".")[-1] == parts[0] or (parts[0] == "pkg" and m.is_pkg):
                q = ".".join(parts[1:])
                for mm, qn, node, cls in self.program.functions():
                    if mm is m and qn == q:
                        return f"{m.path}:{node.lineno} {qn}"
                import ast

                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ClassDef) and n.name == parts[-1]:
                        return f"{m.path}:{n.lineno} class {n.name}"
                return m.path
        return anchor

    def scene(self, **kw):
        self.scenes += 1
        return Scene(self, **kw)

    # -- results
    def record(self, name, status, where, detail="", cases=0):
        self.obligations.append({"obligation": name, "status": status, "where": where, "detail": detail})
        self.cases += cases

    def violate(self, key, where, what, detail=""):
        if any(f.key == key and f.where == where for f in self.findings):
            return
        self.findings.append(Finding(key, where, what, detail))

    def structural(self, name, ok, where, what="", detail=""):
        """A fact read off the program: ok is True, False, or None (not decidable here)."""
        st = "discharged" if ok else ("undecided" if ok is None else "violated")
        self.record(name, st, where, detail if not ok else "")
        if ok is False:
            self.violate(name, where, what or name, detail)
        return ok

    def undecided(self, name, where, why):
        self.record(name, "undecided", where, why)

    def attempt(self, name, where, fn, *args):
        """Run a group of obligations; an analysis limit makes the group undecided, a vanished anchor is an error."""
        left = (450 if self.tier == "quick" else 3000) - (time.time() - self.t0)
        if left < 5:
            self.undecided(name, where, "analysis limit: time")
            return None
        try:
            with limited(min(150 if self.tier == "quick" else 900, left)):
                return fn(*args)
        except (Unsupported, RecursionError, NotImplementedError) as e:
            self.undecided(name, where, f"analysis limit: {type(e).__name__} {e}")
        except AnalysisError:
            raise
        except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError, ArithmeticError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(name, where, f"analysis limit: {type(e).__name__} {e} ({tb.filename.split('/')[-1]}:{tb.lineno})")
        return None


class limited:
    """A time limit for one analysis step (the outermost counts)."""

    active = False

    def __init__(self, seconds):
        self.seconds = seconds

    def stop(self, *_):
        raise Unsupported("time limit of the analysis step")

    def __enter__(self):
        self.mine = not limited.active
        if self.mine:
            limited.active = True
            self.old = signal.signal(signal.SIGALRM, self.stop)
            signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        if self.mine:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
            limited.active = False


def exc_name(exc):
    if exc is None:
        return "?"
    if exc.op == "exc":
        return str(exc.args[0])
    return exc.op


class Scene:
    """One abstract configuration of the program."""

    def __init__(self, lab, strings=None, pools=None, normalize=False, **kw):
        self.lab = lab
        self.normalize, self.normed = normalize, set()
        self.e = Engine(lab.program)
        self.st = self.e.base.copy()
        self.assume = []
        self.strings, self.pools = strings or {}, pools or {}
        self.dead = False
        self.kw = kw
        self.square_of, self.groups = {}, []
        self.ctx = None
        if normalize:
            self.e.cond_hook = self.cond

    # normalisation of numeric terms while they are built
    def _ctx(self):
        if self.ctx is None:
            self.ctx = Ctx({}, {}, casework=False)
        for s, k in self.e.kinds.items():
            if k in ("pos", "nonneg", "neg", "nz"):
                self.ctx.signs[s] = k
        self.ctx.square_of = self.square_of
        return self.ctx

    def norm(self, t):
        if t.op == "const" or t in self.normed:
            return t
        c = self._ctx()
        try:
            r = c.rat(t)
            if len(r[0]) + len(r[1]) > 80:
                return t
            u = r_term(c, r)
        except (NotNumeric, Undef, TooBig, NeedAtom):
            return t
        self.normed.add(u)
        return u

    def cond(self, t):
        """A comparison whose outcome the sign facts decide."""
        c = self._ctx()
        try:
            a, b = c.rat(t.args[0]), c.rat(t.args[1])
            s = c.r_sign(c.r_add(b, a, -1))
        except (NotNumeric, Undef, TooBig, NeedAtom):
            return t
        if t.op == "lt":
            if s <= {1}:
                return TRUE
            if 1 not in s:
                return FALSE
            if -1 not in s:
                return self.nonzero(c, b, a, t)
        elif t.op == "eq":
            if s == {0}:
                return TRUE
            if 0 not in s:
                return FALSE
            return self.vanishes(c, c.r_add(b, a, -1), t)
        return t

    def vanishes(self, c, r, t):
        """A rational is zero: one of the factors of its numerator is."""
        n, d = r
        if 0 in c.p_sign(d) or len(n) > 40:
            return t
        common = None
        for m in n:
            common = set(a for a, _ in m) if common is None else common & {a for a, _ in m}
        if any(a.op != "sym" for a in common):
            return t
        n = {tuple((a, e) for a, e in m if a not in common): k for m, k in n.items()}
        out = [mk("eq", *sorted((const(0), a), key=lambda v: v.id)) for a in sorted(common, key=lambda v: v.id) if c.atom_sign(a) not in ("pos", "neg", "nz")]
        if 0 in c.p_sign(n):
            key, _ = c._sgn_key((n, {(): Fraction(1)}))
            if key == ():
                return TRUE
            out.append(mk("eq", *sorted((const(0), p_term(c, c.polys[key])), key=lambda v: v.id)))
        return OR(*out)

    def memo(self, n):
        if getattr(self, "_memo", None) is None or self._memo[0] != n:
            self._memo = (n, {})
        return self._memo[1]

    def disjunction(self, parts):
        """(a and r) or (b and r) or (c and r) = r when a, b and c say that one component of a unit vector is not zero."""
        sets = [frozenset(p.args) if p.op == "and" else frozenset((p,)) for p in parts]
        for names, _ in self.groups:
            lits = [NOT(mk("eq", *sorted((const(0), u), key=lambda v: v.id))) for u in names]
            for i, s in enumerate(sets):
                if lits[0] in s:
                    rest = s - {lits[0]}
                    if all(rest | {l} in sets for l in lits[1:]):
                        order = [q for q in (parts[i].args if parts[i].op == "and" else ()) if q in rest]
                        gone = [rest | {l} for l in lits]
                        return OR(AND(*order), *[p for p, x in zip(parts, sets) if x not in gone])
        return None

    def positive(self, t):
        """A fact of the scene: t > 0 always."""
        c = self._ctx()
        try:
            key, flip = c._sgn_key(c.rat(t))
        except (NotNumeric, Undef, TooBig, NeedAtom):
            return
        c.env[("sgn", key)] = flip

    def nonzero(self, c, b, a, t):
        """0 < sum of terms that are never negative: one of them is not zero."""
        n, d = c.r_add(b, a, -1)
        if not any(x.op == "absp" for m in n for x, _ in m) or any(not c.mono_sign(m) or c.mono_sign(m)[0] * k < 0 for m, k in n.items()):
            return t
        if c.p_sign(d) - {0} != {1}:
            return t

        def nz(atom):
            p = c.abs_of[atom] if atom.op == "absp" else {((atom, 1),): Fraction(1)}
            if 0 not in c.p_sign(p):
                return TRUE
            x, y = const(0), p_term(c, p)
            return NOT(mk("eq", *sorted((x, y), key=lambda v: v.id)))

        monos = [frozenset(x for x, _ in m) for m in n]
        for names, _ in self.groups:  # a unit vector has a component that is not zero
            ab = []
            for u in names:
                p = {((u, 1),): Fraction(1)}
                ab.append({u, *[k for k, v in c.abs_of.items() if v == p]})
            for m in list(monos):
                hit = m & ab[0]
                if hit:
                    rest = m - hit
                    if all(any(rest | {k} == m2 for m2 in monos for k in x) for x in ab):
                        monos.append(rest)
        return OR(*[AND(*[nz(x) for x in sorted(m, key=lambda v: v.id)]) for m in sorted(set(monos), key=len)])

    def unit_vector(self, x, y, z):
        """Direction cosines: z*z is rewritten to 1 - x*x - y*y."""
        from .algebra import p_const, p_atom, p_add

        self.square_of[z] = {((x, 2),): Fraction(-1), ((y, 2),): Fraction(-1), (): Fraction(1)}
        F = Fraction
        tri = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, 0, -1), (F(3, 5), F(4, 5), 0), (F(-4, 5), F(3, 5), 0), (0, F(3, 5), F(4, 5)),
               (F(2, 3), F(2, 3), F(1, 3)), (F(2, 7), F(-3, 7), F(6, 7)), (F(-1, 9), F(4, 9), F(-8, 9)), (F(4, 5), 0, F(-3, 5))]
        self.groups.append(((x, y, z), [tuple(F(v) for v in t) for t in tri]))

    # symbols
    def sym(self, name, kind="real"):
        return self.e.symbol(name, kind)

    def syms(self, names, kind="real"):
        return [self.sym(n, kind) for n in names.split()]

    def mod(self, name):
        fr = self.e.modframes.get(f"{self.lab.program.package}.{name}" if name else self.lab.program.package)
        if fr is None:
            raise AnalysisError(f"module {name} not found")
        return self.st.objs[fr].vars

    def name(self, module, name):
        v = self.mod(module).get(name)
        if v is None:
            raise AnalysisError(f"{module}.{name} not found")
        return v

    # evaluation
    def _run(self, fn, *args):
        old = _engine.NORM
        _engine.NORM = self.norm if self.normalize else None
        hook, _terms.OR_HOOK = _terms.OR_HOOK, self.disjunction if self.normalize and self.groups else None
        memo, _terms.MEMO = _terms.MEMO, self.memo(len(self.groups)) if _terms.OR_HOOK is not None else _terms.MEMO0
        try:
            return fn(self.st, *args)
        except Dead:
            self.dead = True
            return None
        finally:
            _engine.NORM = old
            _terms.OR_HOOK, _terms.MEMO = hook, memo

    def call(self, f, *args, **kw):
        return self._run(self.e.call_value, f, list(args), kw, None)

    def meth(self, o, name, *args, **kw):
        return self._run(self.e.call_method, o, name, list(args), kw, None)

    def get(self, o, attr):
        return self._run(self.e.getattr, o, attr)

    def has(self, o, attr):
        st = self.st.copy()
        try:
            self.e.getattr(st, o, attr)
            return True
        except Dead:
            return False

    def set(self, o, attr, v):
        self.e.setattr(self.st, o, attr, v)

    def list(self, vals, kind="list"):
        return self.e.new_list(self.st, vals, kind)

    def dict(self, pairs):
        return self.e.new_dict(self.st, pairs)

    def obj(self, ref):
        return self.e.obj(self.st, ref)

    def items(self, ref):
        """(guard, value) of an abstract sequence."""
        ref = self.e.simp_value(ref, self.st.pc)
        if ref.op in ("tuple", "arr"):
            return [(TRUE, x) for x in ref.args]
        if ref.op == "ite":
            c = ref.args[0]
            return [(AND(c, g), v) for g, v in self.items(ref.args[1]) if AND(c, g) is not FALSE] + [
                (AND(NOT(c), g), v) for g, v in self.items(ref.args[2]) if AND(NOT(c), g) is not FALSE]
        return list(self.obj(ref).items)

    def vec(self, o, fields="xyze"):
        return [self.get(o, f) for f in fields]

    def fork(self):
        """A copy of this scene sharing the engine."""
        s = Scene.__new__(Scene)
        s.__dict__.update(self.__dict__)
        s.st = self.st.copy()
        s.st.pending = list(self.st.pending)
        s.assume = list(self.assume)
        return s

    def raises(self):
        """(path condition, exception name, exception) of every exception that leaves the calls made so far."""
        out = []

        def split(pc, x):
            if pc is FALSE:
                return
            if x is not None and x.op == "ite":
                split(AND(pc, x.args[0]), x.args[1])
                split(AND(pc, NOT(x.args[0])), x.args[2])
            else:
                out.append((pc, exc_name(x), x))

        for c, s2, x in self.st.pending:
            split(s2.pc, x)
        return out

    # obligations
    def decider(self, assume=(), pc=True, **kw):
        a = self.assume + list(assume)
        if pc:
            a.append(self.st.pc)
        o = dict(seed=self.lab.seed, strings=self.strings, pools=self.pools)
        o.update(self.kw)
        o.update(kw)
        d = Decider(self.e.kinds, a, **o)
        d.light = a[:-1] if pc and self.st.pc is not TRUE else ()
        d.square_of, d.groups = self.square_of, self.groups
        return d

    def finish(self):
        self.lab.functions |= self.e.visited
        self.lab.analysed |= self.e.visited
        self.lab.callsites += self.e.callsites
        self.e.callsites = 0
        for n in self.e.notes:
            if n not in self.lab.notes:
                self.lab.notes.append(n)

    def prove(self, name, eq=None, cond=None, where="", what="", assume=(), pc=True, soft=False, **kw):
        self.finish()
        lab = self.lab
        if cond is not None:
            claim = Claim(name, cond=cond)
        else:
            if eq[0] is None or eq[1] is None:
                lab.undecided(name, where, "value not available")
                return None
            claim = Claim(name, eq=eq)
        if len(lab.findings) >= lab.max_findings:
            lab.record(name, "undecided", where, "not examined: enough violations found")
            return None
        late = time.time() - lab.t0 - lab.budget
        if late > 0:  # keep the whole check within its time: only short attempts from here on
            kw = dict(kw, max_time=0.4 if late < 120 else 0.1, samples=60)
        d = self.decider(assume, pc, **kw)
        t1 = time.time()
        try:
            v = d.decide(claim)
        except RecursionError:
            lab.undecided(name, where, "algebra recursion limit")
            return None
        lab.cases += v.cases
        if os.environ.get("SA_TRACE"):
            print(f"    {time.time() - t1:6.2f}s {v.cases:5d} {v.status} {name}", flush=True)
        if v.status == "PROVED":
            lab.record(name, "discharged", where, cases=0)
            return True
        if v.status == "REFUTED" and soft:
            lab.record(name, "undecided", where, f"not shown from an arbitrary earlier state (possibly unreachable): {v.witness}"[:300])
            return None
        if v.status == "REFUTED":
            det = f"for {v.witness}: source computes {v.actual}, required {v.expected}"
            lab.record(name, "violated", where, det)
            lab.violate(name, where, what or name, det)
            return False
        lab.undecided(name, where, v.why)
        return None

    def no_raise(self, name, where, allow=(), assume=(), what=""):
        """No exception outside `allow` leaves the analysed calls."""
        ok = True
        groups = {}
        for pc, n, x in self.raises():
            if n in allow:
                continue
            groups.setdefault(n, []).append((pc, x))
        if self.dead and not self.st.pending:
            self.lab.undecided(name, where, "control lost")
            return None
        if not groups:
            self.finish()
            self.lab.record(name, "discharged", where)
            return True
        for n, l in sorted(groups.items()):
            c = OR(*[pc for pc, x in l])
            msg = show(l[0][1])[:120]
            r = self.prove(f"{name}/{n}", cond=NOT(c), where=where, what=f"{what or name}: raises {msg}", assume=assume, pc=False)
            if r is not True:
                ok = r if ok is not False else ok
        return ok
