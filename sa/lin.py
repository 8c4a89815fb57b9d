"""Linear expressions over integer symbols and an exact rational decision procedure for conjunctions of linear
inequalities (the numeric abstract domain: convex polyhedra in constraint form, integer-tightened)."""
import ctypes
import os
from array import array
from fractions import Fraction


class Lin:
    __slots__ = ("c", "t", "_h", "_k")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}
        self._h = None
        self._k = None

    @property
    def tk(self):
        """The left-hand side, hashable."""
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    @staticmethod
    def sym(s):
        return Lin(0, {s: 1})

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        t = dict(self.t)
        for s, k in o.t.items():
            n = t.get(s, 0) + k
            if n:
                t[s] = n
            else:
                t.pop(s, None)
        return Lin(self.c + o.c, t)

    def __neg__(self):
        return Lin(-self.c, {s: -k for s, k in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {s: v * k for s, v in self.t.items()})

    def subst(self, m):
        if not any(s in m for s in self.t):
            return self
        r = Lin(self.c)
        for s, k in self.t.items():
            if s in m:
                r = r + m[s].scale(k)
            else:
                r = r + Lin(0, {s: k})
        return r

    def key(self):
        return (self.c, tuple(sorted(self.t.items())))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.tk))
        return self._h

    def __repr__(self):
        parts = []
        for s, k in sorted(self.t.items()):
            parts.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + str(s))
        if self.c or not parts:
            parts.append(("+" if self.c >= 0 else "-") + str(abs(self.c)))
        r = "".join(parts)
        return r[1:] if r.startswith("+") else r


def const(k):
    return Lin(k)


from math import gcd


def _norm(l):
    """Divide an inequality l <= 0 by the gcd of its coefficients, tightening the constant (integer symbols)."""
    g = 0
    for k in l.t.values():
        g = gcd(g, abs(k))
    if g > 1:
        c = l.c
        # sum + c <= 0  ->  sum/g <= floor(-c/g)  ->  sum/g + ceil(c/g) <= 0
        cc = -((-c) // g)
        return Lin(cc, {s: k // g for s, k in l.t.items()})
    return l


def _relevant(cons, seed):
    """Constraints connected (by shared symbols) to the seed symbols."""
    seen = set(seed)
    rest = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for c in rest:
            if any(s in seen for s in c.t):
                out.append(c)
                for s in c.t:
                    if s not in seen:
                        seen.add(s)
                        changed = True
            else:
                nxt.append(c)
        rest = nxt
    return out, seen


def infeasible(eqs, ineqs):
    """True if {e = 0 for eqs} and {l <= 0 for ineqs} has no rational (hence no integer) solution."""
    # Gaussian elimination of equalities (substitute unit-coefficient symbols first)
    eqs = list(eqs)
    ineqs = list(ineqs)
    while eqs:
        # choose an equality with a unit coefficient if possible
        best = None
        for i, e in enumerate(eqs):
            if not e.t:
                if e.c != 0:
                    return True
                best = (i, None)
                break
            for s, k in e.t.items():
                if abs(k) == 1:
                    sc = len(e.t)
                    if best is None or best[1] is None or sc < best[2]:
                        best = (i, s, sc)
        if best is None:
            # no unit coefficient: keep as two inequalities
            for e in eqs:
                g = 0
                for k in e.t.values():
                    g = gcd(g, abs(k))
                if g and e.c % g:
                    return True
                ineqs.append(e)
                ineqs.append(-e)
            break
        e = eqs.pop(best[0])
        if best[1] is None:
            continue
        s = best[1]
        k = e.t[s]
        rest = Lin(e.c, {x: v for x, v in e.t.items() if x != s})
        val = rest.scale(-k)  # k = +-1
        m = {s: val}
        eqs = [x.subst(m) for x in eqs]
        ineqs = [x.subst(m) for x in ineqs]
    # bounds / quick checks, dedupe
    best = {}
    for l in ineqs:
        if not l.t:
            if l.c > 0:
                return True
            continue
        l = _norm(l)
        key = tuple(sorted(l.t.items()))
        o = best.get(key)
        if o is None or l.c > o.c:
            best[key] = l
    cons = list(best.values())
    # opposite pair check
    for key, l in best.items():
        nk = tuple(sorted((s, -k) for s, k in key))
        o = best.get(nk)
        if o is not None and l.c + o.c > 0:
            return True
    return _fm(cons)


def _fm(cons):
    """Fourier-Motzkin with cheapest-variable order; falls back to simplex when it grows."""
    cons = list(cons)
    budget = 4000
    while True:
        occ = {}
        for l in cons:
            for s, k in l.t.items():
                p = occ.setdefault(s, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not occ:
            return any(l.c > 0 for l in cons)
        # pick
        bs, bc = None, None
        for s, (p, n) in occ.items():
            cost = p * n - p - n
            if bc is None or cost < bc:
                bs, bc = s, cost
        p, n = occ[bs]
        if bc > 30:
            return _simplex_infeasible(cons)
        pos, neg, rest = [], [], []
        for l in cons:
            k = l.t.get(bs, 0)
            (pos if k > 0 else neg if k < 0 else rest).append(l)
        best = {}

        def add(l):
            if not l.t:
                return l.c > 0
            key = tuple(sorted(l.t.items()))
            o = best.get(key)
            if o is None or l.c > o.c:
                best[key] = l
            return False

        for l in rest:
            add(l)
        for a in pos:
            for b in neg:
                ka, kb = a.t[bs], -b.t[bs]
                g = gcd(ka, kb)
                r = a.scale(kb // g) + b.scale(ka // g)
                r = _norm(r)
                budget -= 1
                if add(r):
                    return True
        cons = list(best.values())
        if budget < 0:
            return _simplex_infeasible(cons)


def _simplex_infeasible(cons):
    """Exact phase-1 simplex with Bland's rule.  cons: l <= 0 with free symbols."""
    syms = sorted({s for l in cons for s in l.t}, key=str)
    # general simplex (Dutertre/de Moura): slack rows  s_i = sum a_ij x_j, bound s_i <= -c_i
    n = len(syms)
    idx = {s: i for i, s in enumerate(syms)}
    m = len(cons)
    # variables 0..n-1 are original (free, nonbasic, value 0); n..n+m-1 slacks (basic)
    rows = {}
    ub = {}
    for i, l in enumerate(cons):
        rows[n + i] = {idx[s]: Fraction(k) for s, k in l.t.items()}
        ub[n + i] = Fraction(-l.c)
    val = {j: Fraction(0) for j in range(n + m)}
    for it in range(5000):
        # find a violated basic variable with the smallest index
        v = None
        for b in sorted(rows):
            if b in ub and val[b] > ub[b]:
                v = b
                break
        if v is None:
            return False
        row = rows[v]
        # need to decrease v: choose nonbasic j with a>0 that can decrease (free or slack: slack has no lower bound)
        # or a<0 that can increase (free, or slack with val < ub)
        e = None
        for j in sorted(row):
            a = row[j]
            if a == 0:
                continue
            if a > 0:
                e = j
                break
            if j not in ub or val[j] < ub[j]:
                e = j
                break
        if e is None:
            return True
        a = row[e]
        theta = (ub[v] - val[v]) / a
        val[v] = ub[v]
        val[e] += theta
        for b, r in rows.items():
            if b != v and e in r:
                val[b] += r[e] * theta
        # pivot v <-> e:  e = (v - sum_{j!=e} a_j x_j)/a
        new = {j: -k / a for j, k in row.items() if j != e}
        new[v] = 1 / a
        del rows[v]
        for b, r in rows.items():
            if e in r:
                k = r.pop(e)
                for j, x in new.items():
                    z = r.get(j, 0) + k * x
                    if z:
                        r[j] = z
                    else:
                        r.pop(j, None)
        rows[e] = new
    return False


class Red:
    """Facts in solved form: eliminated symbols with their values, and the remaining inequalities (strongest per left-hand side)."""
    __slots__ = ("bad", "subs", "les", "idx", "used")

    def __init__(self):
        self.bad = False
        self.subs = {}      # symbol -> Lin over the remaining symbols
        self.used = {}      # remaining symbol -> tuple of eliminated symbols whose value mentions it
        self.les = {}       # left-hand side -> Lin (l <= 0)
        self.idx = {}       # symbol -> tuple of left-hand sides mentioning it

    def copy(self):
        r = Red()
        r.bad, r.subs, r.used, r.les, r.idx = self.bad, dict(self.subs), dict(self.used), dict(self.les), dict(self.idx)
        return r

    def ap(self, l):
        subs = self.subs
        for s in l.t:
            if s in subs:
                return l.subst(subs)
        return l

    def add_le(self, l):
        """l already over remaining symbols"""
        if not l.t:
            if l.c > 0:
                self.bad = True
            return
        l = _norm(l)
        key = l.tk
        o = self.les.get(key)
        if o is not None:
            if l.c > o.c:
                self.les[key] = l
            return
        self.les[key] = l
        for s in l.t:
            self.idx[s] = self.idx.get(s, ()) + (key,)

    def add_eq(self, e, ranges):
        e = self.ap(e)
        if not e.t:
            if e.c != 0:
                self.bad = True
            return
        best = None
        g = 0
        for s, k in e.t.items():
            g = gcd(g, abs(k))
            if abs(k) == 1:
                n = len(self.idx.get(s, ())) + 2 * len(self.used.get(s, ()))
                if best is None or n < best[0]:
                    best = (n, s, k)
        if best is None:
            if g and e.c % g:
                self.bad = True
            self.add_le(e)
            self.add_le(-e)
            return
        _, s, k = best
        val = Lin(e.c, {x: v for x, v in e.t.items() if x != s}).scale(-k)
        m = {s: val}
        for u in self.used.pop(s, ()):
            o = self.subs[u]
            n = o.subst(m)
            self.subs[u] = n
            for x in n.t:
                if x not in o.t:
                    self.used[x] = self.used.get(x, ()) + (u,)
            for x in o.t:
                if x != s and x not in n.t:
                    self.used[x] = tuple(y for y in self.used.get(x, ()) if y != u)
        self.subs[s] = val
        for x in val.t:
            self.used[x] = self.used.get(x, ()) + (s,)
        redo = []
        for key in self.idx.pop(s, ()):
            l = self.les.pop(key)
            for x in l.t:
                if x != s:
                    self.idx[x] = tuple(y for y in self.idx[x] if y != key)
            redo.append(l)
        for l in redo:
            self.add_le(l.subst(m))
        lo, hi = ranges.get(s)
        if lo is not None:
            self.add_le(Lin(lo) - val)
        if hi is not None:
            self.add_le(val - hi)


class Facts:
    """A conjunction of linear (in)equalities and disequalities; immutable-style with cheap copies."""
    __slots__ = ("eqs", "_les", "nes", "_red", "_par", "_t")

    def __init__(self, eqs=(), les=(), nes=(), par=None):
        self.eqs = tuple(eqs)
        self._les = les if isinstance(les, dict) else {l.tk: l for l in sorted(les, key=lambda l: l.c)}
        self.nes = tuple(nes)
        self._red = None
        self._par = par
        self._t = None

    @property
    def les(self):
        if self._t is None:
            self._t = tuple(self._les.values())
        return self._t

    def red(self, ranges):
        if self._red is None:
            chain = []
            f = self
            while f._red is None and f._par is not None:
                chain.append(f)
                f = f._par[0]
            if f._red is None:
                r = Red()
                for e in f.eqs:
                    r.add_eq(e, ranges)
                for l in f.les:
                    r.add_le(r.ap(l))
                f._red = r
            r = f._red
            for c in reversed(chain):
                kind, x = c._par[1:]
                if kind == "ne":
                    c._red = r
                else:
                    r = r.copy()
                    if kind == "eq":
                        r.add_eq(x, ranges)
                    else:
                        r.add_le(r.ap(x))
                    c._red = r
                c._par = None
        return self._red

    def with_eq(self, e):
        if not e.t:
            return self
        if e in self.eqs or -e in self.eqs:
            return self
        return Facts(self.eqs + (e,), self._les, self.nes, (self, "eq", e))

    def with_le(self, l):
        if not l.t:
            return self
        l = _norm(l)
        o = self._les.get(l.tk)
        if o is not None and o.c >= l.c:
            return self
        n = dict(self._les)
        n[l.tk] = l
        return Facts(self.eqs, n, self.nes, (self, "le", l))

    def with_ne(self, e):
        if e in self.nes or -e in self.nes:
            return self
        return Facts(self.eqs, self._les, self.nes + (e,), (self, "ne", e))

    def __eq__(self, o):
        return set(self.eqs) == set(o.eqs) and self._les == o._les and set(self.nes) == set(o.nes)


class Ranges:
    """Global, unconditional integer ranges of symbols."""

    def __init__(self):
        self.r = {}

    def set(self, s, lo, hi):
        self.r[s] = (lo, hi)

    def get(self, s):
        return self.r.get(s, (None, None))


GLOBAL_CACHE = {}
STATS = {"queries": 0, "lp": 0, "py": 0}


def _component(red, seed, ranges, extra):
    """The inequalities connected to the seed symbols, with the symbols' ranges."""
    seen = set(seed)
    todo = list(seed)
    keys = set()
    ineqs = list(extra)
    les, idx = red.les, red.idx
    while todo:
        s = todo.pop()
        for key in idx.get(s, ()):
            if key not in keys:
                keys.add(key)
                ineqs.append(les[key])
                for x, _ in key:
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
        lo, hi = ranges.get(s)
        if lo is not None:
            ineqs.append(Lin(lo, {s: -1}))
        if hi is not None:
            ineqs.append(Lin(-hi, {s: 1}))
    return ineqs, seen


_lib = None


def _native():
    """The compiled exact LP (built by setup); None when it is not there, the Python one then decides."""
    global _lib
    if _lib is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "liblp.so")
        try:
            _lib = ctypes.CDLL(p).lp_infeasible
            _lib.argtypes = [ctypes.c_int, ctypes.c_int] + [ctypes.c_void_p] * 5
        except OSError:
            _lib = False
    return _lib


def lp_infeasible(ineqs):
    f = _native()
    if f:
        ids = {}
        c, d, ptr, col, val = [], [], [0], [], []
        big = False
        for l in ineqs:
            if not -2 ** 90 < l.c < 2 ** 90:
                big = True
                break
            c.append(l.c >> 32)
            d.append(l.c & 0xffffffff)
            for s, k in l.t.items():
                i = ids.get(s)
                if i is None:
                    i = ids[s] = len(ids)
                col.append(i)
                val.append(k)
            ptr.append(len(col))
        if not big and (not val or max(max(val), -min(val)) < 2 ** 62):
            A, B, P, C, V = array("q", c), array("q", d), array("i", ptr), array("i", col), array("q", val)
            r = f(len(c), len(ids), A.buffer_info()[0], B.buffer_info()[0], P.buffer_info()[0], C.buffer_info()[0], V.buffer_info()[0])
            if r >= 0:
                return bool(r)
    STATS["py"] += 1
    return infeasible((), ineqs)


def _solve(ineqs):
    key = frozenset(ineqs)
    r = GLOBAL_CACHE.get(key)
    if r is None:
        STATS["lp"] += 1
        best = {}
        for l in key:
            k = l.tk
            o = best.get(k)
            if o is None or l.c > o.c:
                best[k] = l
        r = GLOBAL_CACHE[key] = not lp_infeasible(list(best.values()))
    return r


def sat_with(facts, extra_le, ranges, extra_eq=()):
    """False only if facts & extra are certainly infeasible."""
    STATS["queries"] += 1
    red = facts.red(ranges)
    if red.bad:
        return False
    if extra_eq:
        red = red.copy()
        for e in extra_eq:
            red.add_eq(e, ranges)
        if red.bad:
            return False
    ex = []
    seed = []
    for l in extra_le:
        l = red.ap(l)
        if not l.t:
            if l.c > 0:
                return False
            continue
        l = _norm(l)
        # interval check, and a stored opposite bound
        lo = l.c
        for s, k in l.t.items():
            a, b = ranges.get(s)
            x = a if k > 0 else b
            if x is None:
                lo = None
                break
            lo += k * x
        if lo is not None and lo > 0:
            return False
        o = red.les.get(frozenset((s, -k) for s, k in l.t.items()))
        if o is not None and l.c + o.c > 0:
            return False
        ex.append(l)
        seed += l.t
    if not ex and not extra_eq:
        return True
    if extra_eq:
        for e in extra_eq:
            for s in e.t:
                if s in red.subs:
                    seed += red.subs[s].t
                else:
                    seed.append(s)
    ineqs, _ = _component(red, set(seed), ranges, ex)
    return _solve(ineqs)


def entails_le(facts, l, ranges):
    """facts |= l <= 0 (integers)."""
    if not l.t:
        return l.c <= 0
    return not sat_with(facts, [(-l) + 1], ranges)


def entails_eq(facts, l, ranges):
    if not l.t:
        return l.c == 0
    return entails_le(facts, l, ranges) and entails_le(facts, -l, ranges)


def feasible(facts, ranges, around=None):
    """Feasibility of the facts connected to the symbols `around` (or of all facts)."""
    if around is None:
        around = set()
        for e in facts.eqs:
            around |= set(e.t)
        for e in facts.les:
            around |= set(e.t)
    if not around:
        return True
    return _feas_around(facts, ranges, around)


def _feas_around(facts, ranges, around):
    red = facts.red(ranges)
    if red.bad:
        return False
    seed = set()
    for s in around:
        v = red.subs.get(s)
        if v is None:
            seed.add(s)
        else:
            seed |= set(v.t)
    ineqs, seen = _component(red, seed, ranges, ())
    if not _solve(ineqs):
        return False
    for d in facts.nes:
        d = red.ap(d)
        if not d.t:
            if d.c == 0:
                return False
            continue
        if any(s in seen for s in d.t) and entails_eq(facts, d, ranges):
            return False
    return True
