"""Structured strings: known text interleaved with chunks of unknown text.

A chunk is a string symbol of a known class:
  num   a written number: one or more characters out of 0-9 + - . that float() accepts
  text  any text, possibly empty, without upper-case ASCII letters, ';' and line breaks
Positions in such a string are linear terms over the lengths of its chunks.  Every operation either gives the exact
result for every instance of the chunks or None (not decided here).
"""
import re as _re
from fractions import Fraction

from .terms import mk, const, is_const, is_num, cval, TRUE, FALSE, NONE, UNDEF, AND, OR

UPPER = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ")


def chunk(e, name, cls):
    s = e.symbol(name, "str")
    e.chunks[s] = cls
    if cls == "num":
        e.chunk_value[s] = e.symbol("value of " + name, "real")
    return s


def parts(e, v):
    """List of str and chunk terms, or None; only for strings with at least one chunk."""
    if v in e.chunks:
        return [v]
    if v.op != "fstr":
        return None
    out = []
    some = False
    for p in v.args:
        if is_const(p) and isinstance(cval(p), str):
            out.append(cval(p))
        elif p in e.chunks:
            out.append(p)
            some = True
        else:
            return None
    return out if some else None


def any_parts(e, v):
    """As parts, also for constant strings."""
    if is_const(v) and isinstance(cval(v), str):
        return [cval(v)] if cval(v) else []
    return parts(e, v)


def build(e, ps):
    ps = [p for p in ps if p != ""]
    if len(ps) == 1 and not isinstance(ps[0], str):
        return ps[0]
    return e.fstr([const(p) if isinstance(p, str) else p for p in ps])


def minlen(e, c):
    return 1 if e.chunks.get(c) == "num" else 0


# ---------------------------------------------------------------- positions
def lin(e, t):
    """{chunk: coefficient}, constant -- or None."""
    if is_num(t):
        return {}, Fraction(cval(t))
    if t.op == "len" and t.args[0] in e.chunks:
        return {t.args[0]: Fraction(1)}, Fraction(0)
    if t.op == "+":
        d, k = {}, Fraction(0)
        for a in t.args:
            r = lin(e, a)
            if r is None:
                return None
            for c, x in r[0].items():
                d[c] = d.get(c, 0) + x
            k += r[1]
        return {c: x for c, x in d.items() if x}, k
    if t.op == "*" and len(t.args) == 2:
        for a, b in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            if is_num(a):
                r = lin(e, b)
                if r is None:
                    return None
                f = Fraction(cval(a))
                return {c: x * f for c, x in r[0].items() if x * f}, r[1] * f
    return None


def lterm(d, k):
    from . import engine as E

    t = None
    for c in sorted(d, key=lambda c: c.id):
        x = mk("len", c)
        x = x if d[c] == 1 else mk("*", const(int(d[c]) if d[c].denominator == 1 else d[c]), x)
        t = x if t is None else mk("+", t, x)
    k = int(k) if Fraction(k).denominator == 1 else k
    if t is None:
        return const(k)
    return mk("+", t, const(k)) if k else t


def diff(e, a, b):
    """b - a as linear form, if at least one involves a chunk."""
    x, y = lin(e, a), lin(e, b)
    if x is None or y is None or not (x[0] or y[0]):
        return None
    d = dict(y[0])
    for c, v in x[0].items():
        d[c] = d.get(c, 0) - v
    return {c: v for c, v in d.items() if v}, y[1] - x[1]


def bounds(e, d, k):
    lo = hi = k
    for c, v in d.items():
        m = minlen(e, c)
        if v > 0:
            lo, hi = lo + v * m, None
        else:
            hi = None if hi is None else hi + v * m
            lo = None
        if lo is None and hi is None:
            break
    # recompute exactly: the loop above mixes signs
    lo = k + sum(v * minlen(e, c) for c, v in d.items()) if all(v > 0 for v in d.values()) else None
    hi = k + sum(v * minlen(e, c) for c, v in d.items()) if all(v < 0 for v in d.values()) else None
    if not d:
        lo = hi = k
    return lo, hi


def less(e, a, b):
    r = diff(e, a, b)
    if r is None:
        return None
    lo, hi = bounds(e, *r)
    if lo is not None and lo > 0:
        return TRUE
    if hi is not None and hi <= 0:
        return FALSE
    return None


def equal(e, a, b):
    r = diff(e, a, b)
    if r is None:
        return None
    lo, hi = bounds(e, *r)
    if lo is not None and hi is not None and lo == hi == 0:
        return TRUE
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    return None


def length(e, v):
    ps = parts(e, v)
    if ps is None:
        return None
    d, k = {}, 0
    for p in ps:
        if isinstance(p, str):
            k += len(p)
        else:
            d[p] = d.get(p, Fraction(0)) + 1
    return lterm(d, Fraction(k))


def at(e, ps, i):
    """(piece index, offset) of position i, clamped to the ends; None if inside a chunk or not decidable."""
    li = lin(e, i)
    if li is None:
        return None
    tot_d, tot_k = {}, Fraction(0)
    pre = []
    for p in ps:
        pre.append((dict(tot_d), tot_k))
        if isinstance(p, str):
            tot_k += len(p)
        else:
            tot_d[p] = tot_d.get(p, Fraction(0)) + 1
    def minus(x, y):
        d = dict(x[0])
        for c, v in y[0].items():
            d[c] = d.get(c, 0) - v
        return {c: v for c, v in d.items() if v}, x[1] - y[1]

    lo, hi = bounds(e, *li)
    if hi is not None and hi < 0:
        li = ({c: tot_d.get(c, 0) + li[0].get(c, 0) for c in set(tot_d) | set(li[0]) if tot_d.get(c, 0) + li[0].get(c, 0)}, tot_k + li[1])
        lo, hi = bounds(e, *li)
        if hi is not None and hi <= 0:
            return 0, 0
    if lo is None or lo < 0:
        if not li[0]:
            return None
        # may be negative: only positions that match a boundary exactly are used below
    for n, p in enumerate(ps):
        d, k = minus(li, pre[n])
        if isinstance(p, str):
            if not d and 0 <= k <= len(p):
                return n, int(k)
        elif not d and k == 0:
            return n, 0
    d, k = minus(li, (tot_d, tot_k))
    lo, hi = bounds(e, d, k)
    if lo is not None and lo >= 0:
        return len(ps), 0
    return None


def cut(e, v, lo, hi):
    ps = any_parts(e, v)
    if ps is None:
        return None
    a = (0, 0) if lo is NONE else at(e, ps, lo)
    b = (len(ps), 0) if hi is NONE else at(e, ps, hi)
    if a is None or b is None:
        return None
    if (a[0], a[1]) >= (b[0], b[1]):
        return const("")
    out = []
    for n, p in enumerate(ps):
        if n < a[0] or n > b[0]:
            continue
        if isinstance(p, str):
            out.append(p[a[1] if n == a[0] else 0:b[1] if n == b[0] else len(p)])
        elif n < b[0]:
            out.append(p)
    return build(e, out)


def pos(e, ps, n, off):
    d, k = {}, Fraction(off)
    for p in ps[:n]:
        if isinstance(p, str):
            k += len(p)
        else:
            d[p] = d.get(p, Fraction(0)) + 1
    return lterm(d, k)


def free(e, c, lit):
    """No instance of the chunk contains any character of lit that would be needed for an occurrence."""
    cls = e.chunks[c]
    if cls == "num":
        return any(ch not in "0123456789+-." for ch in lit)
    return any(ch in UPPER or ch in ";\n\r" for ch in lit)


def nochar(e, c, ch):
    cls = e.chunks[c]
    if cls == "num":
        return ch not in "0123456789+-."
    return ch in UPPER or ch in ";\n\r"


def occurrences(e, ps, lit):
    """Positions (piece, offset) of all occurrences of lit, leftmost first; None if a chunk could be involved."""
    if not lit:
        return None
    out = []
    for n, p in enumerate(ps):
        if isinstance(p, str):
            i = p.find(lit)
            while i >= 0:
                out.append((n, i))
                i = p.find(lit, i + 1)
            # an occurrence that starts here and goes on into a chunk
            if n + 1 < len(ps):
                for k in range(1, len(lit)):
                    if p.endswith(lit[:k]) and not nochar(e, ps[n + 1], lit[k]):
                        return None
                    if p.endswith(lit[:k]) and minlen(e, ps[n + 1]) == 0 and n + 2 < len(ps):
                        q = ps[n + 2]
                        if not isinstance(q, str) or q[:1] == lit[k]:
                            return None
        else:
            if not free(e, p, lit):
                return None
            if n + 1 < len(ps) or n > 0:
                # an occurrence that starts in the chunk: its first character would have to be in it
                if not nochar(e, p, lit[0]) and len(lit) > 1:
                    nxt = ps[n + 1] if n + 1 < len(ps) else ""
                    for k in range(1, len(lit)):
                        if all(not nochar(e, p, ch) for ch in lit[:k]):
                            if not isinstance(nxt, str) or (nxt[:len(lit) - k] == lit[k:k + len(nxt)] and nxt):
                                return None
    return out


# ---------------------------------------------------------------- methods
def _ws_edge(ps, left):
    return ps


def strip(e, ps, chars, left, right):
    ps = list(ps)

    def end(i, f):
        while ps:
            p = ps[i]
            if isinstance(p, str):
                q = f(p)
                if q == "":
                    ps.pop(i)
                    continue
                ps[i] = q
                return True
            if e.chunks[p] == "num" and all(ch not in "0123456789+-." for ch in (chars if chars is not None else " \t\n\r")):
                return True
            return False
        return True

    ok = True
    if right:
        ok = end(-1, lambda s: s.rstrip(chars)) and ok
    if left:
        ok = end(0, lambda s: s.lstrip(chars)) and ok
    return ps, ok


def method(e, st, v, name, args, kwargs, node):
    """Result term, or None."""
    ps = any_parts(e, v)
    if ps is None or kwargs:
        if name == "split" and ps is not None and set(kwargs) <= {"sep", "maxsplit"}:
            args = [kwargs.get("sep", args[0] if args else NONE), kwargs.get("maxsplit", args[1] if len(args) > 1 else const(-1))]
        elif name == "splitlines" and ps is not None and set(kwargs) == {"keepends"}:
            args = [kwargs["keepends"]]
        else:
            return None
    cs = [cval(a) if is_const(a) else None for a in args]
    lit = cs[0] if cs and isinstance(cs[0], str) else None
    if name in ("find", "index", "rfind", "rindex"):
        if lit is None or len(args) > 2:
            return None
        occ = occurrences(e, ps, lit)
        if occ is None:
            return None
        where = [pos(e, ps, n, o) for n, o in occ]
        if len(args) == 2:
            keep = []
            for w in where:
                c = TRUE if w is args[1] else less(e, w, args[1]) if not (is_num(w) and is_num(args[1])) else (TRUE if cval(w) < cval(args[1]) else FALSE)
                if w is args[1]:
                    keep.append(w)
                elif c is FALSE:
                    keep.append(w)
                elif c is None:
                    return None
            where = keep
        if not where:
            if name.endswith("index"):
                e.pend(st, TRUE, mk("exc", "ValueError"))
            return const(-1)
        return where[-1] if name[0] == "r" else where[0]
    if name == "count" and lit is not None and len(args) == 1:
        occ = occurrences(e, ps, lit)
        if occ is None or len(lit) > 1:
            return None
        return const(len(occ))
    if name in ("partition", "rpartition", "split", "rsplit"):
        if lit is None:
            if name in ("split",) and (not args or args[0] is NONE) and (len(args) < 2 or cs[1] == -1):
                # whitespace: only when no chunk can contain any
                if any(not isinstance(p, str) and e.chunks[p] != "num" for p in ps):
                    return None
                out, cur = [], []
                for p in ps:
                    if isinstance(p, str):
                        for k, w in enumerate(_re.split(r"\s+", p)):
                            if k:
                                out.append(cur)
                                cur = []
                            if w:
                                cur.append(w)
                    else:
                        cur.append(p)
                out.append(cur)
                return e.new_list(st, [build(e, x) for x in out if x])
            return None
        occ = occurrences(e, ps, lit)
        if occ is None:
            return None
        spots, last = [], None
        for n, o in occ:
            if last is not None and last[0] == n and o < last[1]:
                continue
            spots.append((n, o))
            last = (n, o + len(lit))
        if name == "partition":
            spots = spots[:1]
        elif name == "rpartition":
            spots = spots[-1:]
        elif len(args) > 1:
            k = cs[1]
            if not isinstance(k, int):
                return None
            if k >= 0:
                spots = spots[:k] if name == "split" else (spots[-k:] if k else [])
        out, a = [], const(0)
        for n, o in spots:
            b = pos(e, ps, n, o)
            out.append(cut(e, v, a, b))
            a = pos(e, ps, n, o + len(lit))
        out.append(cut(e, v, a, NONE))
        if any(x is None for x in out):
            return None
        if name.endswith("partition"):
            if not spots:
                return mk("tuple", v, const(""), const("")) if name == "partition" else mk("tuple", const(""), const(""), v)
            return mk("tuple", out[0], const(lit), out[1])
        return e.new_list(st, out)
    if name in ("startswith", "endswith"):
        alts = [lit] if lit is not None else [cval(x) for x in args[0].args] if args and args[0].op == "tuple" and all(is_const(x) for x in args[0].args) else None
        if alts is None or len(args) != 1:
            return None
        res = FALSE
        for w in alts:
            r = edge(e, ps, w, name == "startswith")
            if r is TRUE:
                return TRUE
            if r is None:
                res = None
        return res
    if name in ("strip", "lstrip", "rstrip"):
        if args and args[0] is not NONE and lit is None:
            return None
        out, ok = strip(e, ps, lit, name != "rstrip", name != "lstrip")
        t = build(e, out)
        return t if ok else mk("meth", name, t, *( [args[0]] if lit is not None else []))
    if name == "replace" and len(args) == 2 and isinstance(cs[0], str) and isinstance(cs[1], str) and cs[0]:
        out = []
        if len(cs[0]) > 1:
            occ = occurrences(e, ps, cs[0])
            if occ is None:
                return None
        for p in ps:
            if isinstance(p, str):
                out.append(p.replace(cs[0], cs[1]))
            elif free(e, p, cs[0]):
                out.append(p)
            elif len(cs[0]) == 1 and not any(ch in UPPER or ch in ";\n\r" for ch in cs[1]):
                d = mk("meth", "replace", p, args[0], args[1])
                e.chunks[d] = "text"  # still without capitals and delimiters
                e.kinds[d] = "str"
                out.append(d)
            else:
                return None
        return build(e, out)
    if name == "splitlines" and all(is_const(a) for a in args):
        keep = any(bool(cval(a)) for a in args)
        out, cur = [], []
        for p in ps:
            if not isinstance(p, str):
                cur.append(p)
                continue
            ls = p.split("\n")
            for k, w in enumerate(ls):
                if k:
                    out.append(cur + ["\n"] if keep else cur)
                    cur = []
                cur.append(w)
        if any(cur):
            out.append(cur)
        return e.new_list(st, [build(e, x) for x in out])
    if name in ("isspace", "isalpha", "isdigit", "isnumeric") and any(isinstance(p, str) and p.strip() for p in ps) and name == "isspace":
        return FALSE
    return None


def edge(e, ps, w, front):
    if w == "":
        return TRUE
    if not ps:
        return FALSE
    p = ps[0] if front else ps[-1]
    if isinstance(p, str):
        if len(p) >= len(w):
            return TRUE if (p.startswith(w) if front else p.endswith(w)) else FALSE
        if not (w.startswith(p) if front else w.endswith(p)):
            return FALSE
        return None if len(ps) > 1 else FALSE
    ch = w[0] if front else w[-1]
    if nochar(e, p, ch) and minlen(e, p) > 0:
        return FALSE
    if nochar(e, p, ch) and len(ps) == 1:
        return FALSE
    if nochar(e, p, ch):
        q = ps[1] if front else ps[-2]
        if isinstance(q, str) and q and (q[0] if front else q[-1]) != ch:
            return FALSE
    return None


def contains(e, v, key):
    ps = parts(e, v)
    if ps is None or not (is_const(key) and isinstance(cval(key), str)):
        return None
    if cval(key) == "":
        return TRUE
    if any(isinstance(p, str) and cval(key) in p for p in ps):
        return TRUE
    occ = occurrences(e, ps, cval(key))
    return None if occ is None else TRUE if occ else FALSE


def same(e, a, b):
    """Equality of two strings, one with chunks."""
    pa, pb = any_parts(e, a), any_parts(e, b)
    if pa is None or pb is None:
        return None
    if parts(e, a) is None and parts(e, b) is None:
        return None
    pa, pb = list(pa), list(pb)
    for i in (0, -1):
        while pa and pb:
            x, y = pa[i], pb[i]
            if isinstance(x, str) and isinstance(y, str):
                k = min(len(x), len(y))
                if k == 0:
                    pa.pop(i) if not x else pb.pop(i)
                    continue
                if (x[:k] != y[:k]) if i == 0 else (x[-k:] != y[-k:]):
                    return FALSE
                pa[i], pb[i] = (x[k:], y[k:]) if i == 0 else (x[:-k], y[:-k])
                if not pa[i]:
                    pa.pop(i)
                if pb and not pb[i]:
                    pb.pop(i)
                continue
            if x is y:
                pa.pop(i)
                pb.pop(i)
                continue
            break
    if not pa and not pb:
        return TRUE
    for x, y in ((pa, pb), (pb, pa)):
        if not x:
            if any(isinstance(p, str) and p for p in y) or any(not isinstance(p, str) and minlen(e, p) for p in y):
                return FALSE
        # a character one side has for sure and the other cannot have
        chars = {ch for p in x if isinstance(p, str) for ch in p}
        for ch in chars:
            if all((ch not in p) if isinstance(p, str) else nochar(e, p, ch) for p in y):
                return FALSE
    return None


def nonempty(e, v):
    ps = parts(e, v)
    if ps is None:
        return None
    if any(isinstance(p, str) and p for p in ps) or any(not isinstance(p, str) and minlen(e, p) for p in ps):
        return TRUE
    return None


def number(e, v):
    """float(v): a value term, 'bad' when it always fails, None if not decided."""
    ps = parts(e, v)
    if ps is None:
        return None
    ps, ok = strip(e, ps, None, True, True)
    if len(ps) == 1 and not isinstance(ps[0], str) and e.chunks[ps[0]] == "num":
        return e.chunk_value[ps[0]]
    if any(isinstance(p, str) and any(ch in "GHJKLMOPQRSUVWXYZ;=:" for ch in p) for p in ps):
        return "bad"
    return None


# ---------------------------------------------------------------- regular expressions
class Unsure(Exception):
    pass


NUMCHARS = "0123456789+-."
TEXTCHARS = [ch for ch in map(chr, list(range(0, 0x250)) + [0x2028, 0x3B1, 0x416, 0x4E00, 0x1F600]) if ch not in UPPER and ch not in ";\n\r"]


def universe(e, c):
    return NUMCHARS if e.chunks[c] == "num" else TEXTCHARS


class Matcher:
    """Backtracking matcher over pieces; a position is (piece, offset), or (piece, None) inside a chunk."""

    def __init__(self, e, ps, pattern, flags):
        try:
            import re._parser as sp
        except ImportError:
            import sre_parse as sp
        self.e, self.ps = e, [p for p in ps if p != ""]
        self.tree = sp.parse(pattern, flags)
        self.flags = self.tree.state.flags | flags
        self.ngroups = self.tree.state.groups - 1
        self.steps = 0
        self.anchored = bool(self.tree.data) and str(self.tree.data[0][0]) == "AT"

    def norm(self, i):
        n, o = i
        while n < len(self.ps) and isinstance(self.ps[n], str) and o is not None and o >= len(self.ps[n]):
            n, o = n + 1, 0
        return n, o

    def pred(self, op, av):
        import re as r

        name = str(op)
        if name == "LITERAL":
            f = lambda ch: ch == chr(av)  # noqa: E731
        elif name == "NOT_LITERAL":
            f = lambda ch: ch != chr(av)  # noqa: E731
        elif name == "ANY":
            return (lambda ch: True) if self.flags & r.S else (lambda ch: ch != "\n")
        elif name == "IN":
            neg = bool(av) and str(av[0][0]) == "NEGATE"
            tests = []
            for o2, a2 in av[1 if neg else 0:]:
                n2 = str(o2)
                if n2 == "LITERAL":
                    tests.append(lambda ch, a2=a2: ord(ch) == a2)
                elif n2 == "RANGE":
                    tests.append(lambda ch, a2=a2: a2[0] <= ord(ch) <= a2[1])
                elif n2 == "CATEGORY":
                    pat = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s", "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}.get(str(a2))
                    if pat is None:
                        raise Unsure
                    rx = r.compile(pat, self.flags & r.A)
                    tests.append(lambda ch, rx=rx: rx.match(ch) is not None)
                else:
                    raise Unsure
            f = (lambda ch: not any(t(ch) for t in tests)) if neg else (lambda ch: any(t(ch) for t in tests))
        else:
            return None
        if self.flags & r.I:
            return lambda ch: f(ch) or f(ch.lower()) or f(ch.upper()) if len(ch.upper()) == 1 else f(ch)
        return f

    def one(self, f, i):
        """Positions after one character matching f: a list of alternatives is not needed -- next position, None, or Unsure."""
        n, o = self.norm(i)
        if n >= len(self.ps):
            return None
        p = self.ps[n]
        if isinstance(p, str):
            return (n, o + 1) if f(p[o]) else None
        u = universe(self.e, p)
        if any(f(ch) for ch in u):
            raise Unsure
        # the chunk does not start like that; it may be empty
        if o == 0 and minlen(self.e, p) == 0 and self.one(f, (n + 1, 0)) is not None:
            raise Unsure
        return None

    def run(self, ops, k, i, gs, cont):
        """Match ops[k:] from i, then cont(position, groups); first success in priority order, or None."""
        self.steps += 1
        if self.steps > 20000:
            raise Unsure
        if k == len(ops):
            return cont(i, gs)
        op, av = ops[k]
        name = str(op)
        rest = lambda j, g: self.run(ops, k + 1, j, g, cont)  # noqa: E731
        f = self.pred(op, av)
        if f is not None:
            j = self.one(f, i)
            return None if j is None else rest(j, gs)
        if name == "SUBPATTERN":
            grp, add, rem, sub = av
            if add or rem:
                raise Unsure
            if grp is None:
                return self.run(list(sub), 0, i, gs, rest)
            start = i
            return self.run(list(sub), 0, i, gs, lambda j, g: rest(j, {**g, grp: (start, j)}))
        if name == "BRANCH":
            for b in av[1]:
                r = self.run(list(b), 0, i, gs, rest)
                if r is not None:
                    return r
            return None
        if name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            sub = list(sub)
            hi = 10 ** 9 if not isinstance(hi, int) or str(hi) == "MAXREPEAT" else int(hi)
            f = self.pred(*sub[0]) if len(sub) == 1 else None
            greedy = name == "MAX_REPEAT"

            def step(count, j, g):
                def more():
                    if count >= hi:
                        return None
                    n, o = self.norm(j)
                    if f is not None and n < len(self.ps) and not isinstance(self.ps[n], str):
                        p = self.ps[n]
                        u = universe(self.e, p)
                        ok = [f(ch) for ch in u]
                        if not any(ok):
                            if o == 0 and minlen(self.e, p) == 0 and self.one(f, (n + 1, 0)) is not None:
                                raise Unsure
                            return None
                        if not all(ok) or hi != 10 ** 9 or o is None:
                            raise Unsure
                        ml = minlen(self.e, p)
                        r = step(max(count, lo if ml and lo <= 1 else count), (n + 1, 0), g)
                        if r is not None:
                            if not greedy:
                                raise Unsure
                            return r
                        # fewer characters of the chunk: the rest has to start inside it
                        if count >= lo or lo <= 1:
                            if rest((n, None), g) is not None:
                                raise Unsure
                        else:
                            raise Unsure
                        return None
                    return self.run(sub, 0, j, g, lambda j2, g2: step(count + 1, j2, g2) if j2 != j else None)

                if greedy:
                    r = more()
                    if r is not None:
                        return r
                    return rest(j, g) if count >= lo else None
                if count >= lo:
                    r = rest(j, g)
                    if r is not None:
                        return r
                return more()

            return step(0, i, gs)
        if name == "AT":
            n, o = self.norm(i)
            first = n == 0 and o == 0
            kind = str(av)
            if kind in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                import re as r

                if not first and self.flags & r.M and kind == "AT_BEGINNING":
                    raise Unsure
                if not first and all(not isinstance(p, str) and minlen(self.e, p) == 0 for p in self.ps[:n]) and o == 0:
                    raise Unsure
                return rest(i, gs) if first else None
            if kind in ("AT_END", "AT_END_STRING"):
                import re as r

                if self.flags & r.M:
                    raise Unsure
                left = self.ps[n:]
                if left and isinstance(left[0], str):
                    left = [left[0][o:]] + left[1:]
                if o is None:
                    return None
                if any(not isinstance(p, str) and minlen(self.e, p) == 0 for p in left) and all(not isinstance(p, str) or p in ("", "\n") for p in left):
                    raise Unsure
                txt = "".join(p if isinstance(p, str) else "x" for p in left)
                return rest(i, gs) if txt == "" or (txt == "\n" and kind == "AT_END") else None
            if kind in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                a, b = self.side(n, o, -1), self.side(n, o, 1)
                if a is None or b is None:
                    raise Unsure
                return rest(i, gs) if (a != b) == (kind == "AT_BOUNDARY") else None
            raise Unsure
        if name in ("ASSERT", "ASSERT_NOT"):
            d, sub = av
            sub = list(sub)
            if d < 0:
                w = sum(1 for x in sub)
                n, o = self.norm(i)
                if any(self.pred(*x) is None for x in sub) or o is None:
                    raise Unsure
                if o == 0 and n == 0:
                    r = None
                else:
                    if o == 0:
                        n, o = n - 1, len(self.ps[n - 1]) if isinstance(self.ps[n - 1], str) else None
                    if o is None or o < w:
                        if n == 0 and o is not None:
                            r = None
                        else:
                            raise Unsure
                    else:
                        r = self.run(sub, 0, (n, o - w), gs, lambda j, g: (j, g))
            else:
                r = self.run(sub, 0, i, gs, lambda j, g: (j, g))
            if (r is None) == (name == "ASSERT_NOT"):
                return rest(i, r[1] if r is not None else gs)
            return None
        raise Unsure

    def side(self, n, o, d):
        """Is the character before/after a word character?"""
        if o is None:
            return None
        if d < 0:
            if o > 0:
                ch = self.ps[n][o - 1]
            elif n == 0:
                return False
            elif isinstance(self.ps[n - 1], str):
                ch = self.ps[n - 1][-1]
            else:
                return None
        else:
            if n >= len(self.ps):
                return False
            if not isinstance(self.ps[n], str):
                return None
            ch = self.ps[n][o]
        return ch.isalnum() or ch == "_"

    def starts(self):
        for n, p in enumerate(self.ps):
            if isinstance(p, str):
                for o in range(len(p)):
                    yield (n, o)
            else:
                # starting before an empty chunk is starting at the next piece
                if n == 0 and self.anchored:
                    yield (n, 0)
                yield (n, None)
        yield (len(self.ps), 0)

    def find(self, after=None):
        for i in self.starts():
            if after is not None and self.order(i) < self.order(after):
                continue
            r = self.run(list(self.tree), 0, i, {}, lambda j, g: (j, g))
            if r is not None:
                if i[1] is None:
                    raise Unsure
                return i, r[0], r[1]
        return None

    def order(self, i):
        n, o = self.norm(i)
        return (n, 0.5 if o is None else o)

    def term(self, i):
        n, o = self.norm(i)
        return pos(self.e, self.ps, n, o)


def rematch(v, a, b, groups=()):
    return mk("rematch", v, a, b, *groups)


def matches(e, v, pattern, flags=0):
    """All matches, leftmost first, as rematch terms -- or None."""
    if is_const(v) and isinstance(cval(v), str):
        try:
            out = []
            for m in _re.finditer(pattern, cval(v), flags):
                gs = []
                for i in range(1, m.re.groups + 1):
                    gs.append(mk("tuple", const(m.start(i)), const(m.end(i))) if m.start(i) >= 0 else NONE)
                out.append(rematch(v, const(m.start()), const(m.end()), gs))
            return out
        except _re.error:
            return None
    ps = parts(e, v)
    if ps is None:
        return None
    try:
        m = Matcher(e, ps, pattern, flags)
        out, at_ = [], None
        while True:
            r = m.find(at_)
            if r is None:
                return out
            out.append(span(v, m, r))
            if m.order(r[0]) == m.order(r[1]):
                return None  # empty matches: not modelled
            at_ = r[1]
    except (Unsure, RecursionError):
        return by_shape(e, v, ps, lambda x: _re.finditer(pattern, x, flags))
    except _re.error:
        return None


SHAPES = ["7", "12.5", "-3.25", ".5", "-.75", "0", "+4", "10"]


def by_shape(e, v, ps, fn):
    """fn on the string with every number written in one of the usual shapes; the spans, if they agree for all shapes."""
    if any(not isinstance(p, str) and e.chunks[p] != "num" for p in ps):
        return None
    res = None
    for shape in SHAPES:
        txt, marks = "", {}
        for n, p in enumerate(ps):
            if isinstance(p, str):
                for o in range(len(p)):
                    marks[len(txt) + o] = (n, o)
                txt += p
            else:
                marks[len(txt)] = (n, 0)
                txt += shape
        marks[len(txt)] = (len(ps), 0)
        out = []
        for m in fn(txt):
            row = []
            for i in range(m.re.groups + 1):
                if m.start(i) < 0:
                    row.append(None)
                elif m.start(i) in marks and m.end(i) in marks:
                    row.append((marks[m.start(i)], marks[m.end(i)]))
                else:
                    return None
            out.append(tuple(row))
        if res is not None and res != out:
            return None
        res = out
    t = lambda x: pos(e, ps, *x)  # noqa: E731
    return [rematch(v, t(r[0][0]), t(r[0][1]), [mk("tuple", t(g[0]), t(g[1])) if g else NONE for g in r[1:]]) for r in res]


def span(v, m, r):
    gs = [mk("tuple", m.term(r[2][i][0]), m.term(r[2][i][1])) if i in r[2] else NONE for i in range(1, m.ngroups + 1)]
    return rematch(v, m.term(r[0]), m.term(r[1]), gs)


def search(e, v, pattern, flags=0, how="search"):
    """First match or NONE -- or None when undecided."""
    if is_const(v):
        ms = matches(e, v, pattern, flags)
        return None if ms is None else ms[0] if ms else NONE
    ps = parts(e, v)
    if ps is None:
        return None
    try:
        m = Matcher(e, ps, pattern, flags)
        if how == "search":
            r = m.find()
        else:
            r = m.run(list(m.tree), 0, (0, 0), {}, lambda j, g: (j, g) if how == "match" or m.norm(j)[0] >= len(m.ps) else None)
            r = None if r is None else ((0, 0),) + r
        return NONE if r is None else span(v, m, r)
    except (Unsure, RecursionError):
        def one(x):
            r = getattr(_re, how)(pattern, x, flags)
            return [] if r is None else [r]

        ms = by_shape(e, v, ps, one)
        return None if ms is None else ms[0] if ms else NONE
    except _re.error:
        return None


def call_re(e, st, name, args, kwargs, node):
    """re.<name>(pattern, string, ...) -> term or None."""
    if name == "escape" and args and is_const(args[0]):
        return const(_re.escape(cval(args[0])))
    if name == "compile":
        if args and is_const(args[0]) and isinstance(cval(args[0]), str):
            fl = args[1] if len(args) > 1 else kwargs.get("flags", const(0))
            return mk("repat", args[0], fl)
        return None
    names = {"sub": ["pattern", "repl", "string", "count", "flags"], "subn": [], "split": ["pattern", "string", "maxsplit", "flags"]}.get(name, ["pattern", "string", "flags"])
    vals = dict(zip(names, args))
    vals.update(kwargs)
    pat, s, fl = vals.get("pattern"), vals.get("string"), vals.get("flags", const(0))
    if pat is None or s is None:
        return None
    if pat.op == "repat":
        pat, fl = pat.args
    if not (is_const(pat) and isinstance(cval(pat), str)):
        return None
    try:
        import re as r

        flags = cval(fl) if is_num(fl) else {"re.IGNORECASE": r.I, "re.I": r.I, "re.MULTILINE": r.M, "re.VERBOSE": r.X, "re.X": r.X, "re.ASCII": r.A}.get(fl.args[0] if fl.op == "ext" else None)
    except Exception:
        flags = None
    if flags is None:
        return None
    if s.op == "ite":
        return e.fork_value(st, s, lambda s2, x: call_re(e, s2, name, [pat, x] if name not in ("sub",) else [pat, vals["repl"], x], {}, node) or mk("call", "re." + name, pat, x))
    pt = cval(pat)
    if name == "search":
        return search(e, s, pt, int(flags))
    if name in ("finditer", "findall", "split", "sub"):
        ms = matches(e, s, pt, int(flags))
        if ms is None:
            return None
        if name == "finditer":
            return e.new_list(st, ms)
        if name == "findall":
            out = []
            for m in ms:
                gs = groups(e, m)
                if gs is None:
                    return None
                x = gs[0] if len(gs) == 1 else gs[1] if len(gs) == 2 else mk("tuple", *gs[1:])
                out.append(x)
            return e.new_list(st, [const("") if x is NONE else x for x in out])
        if name == "split":
            if "maxsplit" in vals and is_num(vals["maxsplit"]) and cval(vals["maxsplit"]) > 0:
                ms = ms[:cval(vals["maxsplit"])]
            out, a = [], const(0)
            for m in ms:
                if len(m.args) > 3:
                    return None
                out.append(cut(e, s, a, m.args[1]))
                a = m.args[2]
            out.append(cut(e, s, a, NONE))
            return None if any(x is None for x in out) else e.new_list(st, out)
        if name == "sub":
            rep = vals.get("repl")
            if not (is_const(rep) and isinstance(cval(rep), str) and "\\" not in cval(rep)) or "count" in vals:
                return None
            out, a = [], const(0)
            for m in ms:
                x = cut(e, s, a, m.args[1])
                if x is None:
                    return None
                out += [x, rep]
                a = m.args[2]
            x = cut(e, s, a, NONE)
            return None if x is None else e.fstr(out + [x])
    if name in ("match", "fullmatch"):
        if is_const(s) and isinstance(cval(s), str):
            m = getattr(_re, name)(pt, cval(s), int(flags))
            if m is None:
                return NONE
            gs = [mk("tuple", const(m.start(i)), const(m.end(i))) if m.start(i) >= 0 else NONE for i in range(1, m.re.groups + 1)]
            return rematch(s, const(m.start()), const(m.end()), gs)
        return search(e, s, pt, int(flags), name)
    return None


def groups(e, m):
    """Texts of group 0, 1, ..."""
    out = []
    for a, b in [(m.args[1], m.args[2])] + [tuple(g.args) if g is not NONE else (None, None) for g in m.args[3:]]:
        x = NONE if a is None else cut(e, m.args[0], a, b)
        if x is None:
            return None
        out.append(x)
    return out


def match_method(e, st, m, name, args, node):
    i = 0
    if args and is_num(args[0]):
        i = int(cval(args[0]))
    elif args:
        return None
    if i + 2 >= len(m.args) + (1 if i == 0 else 0) and i != 0:
        e.pend(st, TRUE, mk("exc", "IndexError"))
        return UNDEF
    spans = [(m.args[1], m.args[2])] + [tuple(g.args) if g is not NONE else (const(-1), const(-1)) for g in m.args[3:]]
    if name == "start":
        return spans[i][0]
    if name == "end":
        return spans[i][1]
    if name == "span":
        return mk("tuple", *spans[i])
    if name in ("group", "__getitem__"):
        gs = groups(e, m)
        if gs is None:
            return None
        if len(args) > 1:
            return mk("tuple", *[gs[int(cval(a))] for a in args]) if all(is_num(a) for a in args) else None
        return gs[i]
    if name == "groups":
        gs = groups(e, m)
        return None if gs is None else mk("tuple", *gs[1:])
    return None
