"""Relational abstract interpreter over the extracted, typed AST.

State  = store (location -> abstract value) + conjunction of linear facts over integer symbols.
Values = Num (linear expression), Bool (lazily kept condition), Ptr (region, byte offset, nullness), Obj (class value at a
         location), Clo (lambda closure), Opq (anything else, with provenance tags).
Loops  = head state with every modified location havocked, plus the largest subset of candidate linear invariants that
         survives re-execution of the body (Houdini-style fixpoint); constant-trip loops are unrolled.
Calls  = repository functions are interpreted in context (so helper extraction does not matter); library calls have models;
         anything else havocs what it can reach.
"""
import itertools
from .lin import Lin, Facts, Ranges, entails_le, entails_eq, sat_with, _feas_around
from .program import AnalysisError, walk


class Num:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l if isinstance(l, Lin) else Lin(l)

    def __eq__(self, o):
        return isinstance(o, Num) and self.l == o.l

    def __hash__(self):
        return hash(self.l)

    def __repr__(self):
        return "N(%r)" % self.l


class Bool:
    """Condition value. f: ('le',Lin) Lin<=0 | ('eq',Lin) | ('ne',Lin) | ('and',a,b) | ('or',a,b) | ('k',0/1)"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Bool) and self.f == o.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return "B%r" % (self.f,)


class Ptr:
    __slots__ = ("reg", "off", "null")

    def __init__(self, reg, off=None, null=None):
        self.reg = reg
        self.off = off if off is not None else Lin(0)
        self.null = null if null is not None else Lin(0)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.reg == o.reg and self.off == o.off and self.null == o.null

    def __hash__(self):
        return hash((self.reg, self.off))

    def __repr__(self):
        return "P(%s+%r%s)" % (locstr(self.reg), self.off, "" if self.null == Lin(0) else " null=%r" % self.null)


class Obj:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Obj) and self.loc == o.loc

    def __hash__(self):
        return hash(self.loc)

    def __repr__(self):
        return "O(%s)" % locstr(self.loc)


class Clo:
    __slots__ = ("node", "caps", "this", "home")

    def __init__(self, node, caps, this, home=None):
        self.node = node
        self.caps = caps
        self.this = this
        self.home = home

    def __eq__(self, o):
        return isinstance(o, Clo) and self.node is o.node and self.caps == o.caps

    def __hash__(self):
        return id(self.node)

    def __repr__(self):
        return "Clo"


class FnV:
    __slots__ = ("fn", "obj")

    def __init__(self, fn, obj=None):
        self.fn = fn
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, FnV) and self.fn == o.fn

    def __hash__(self):
        return hash(self.fn)


class Opq:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Opq) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "?%s" % (self.s,)


class Sym(str):
    """Array-element selector with a symbolic byte offset; equal to the plain summary selector "[*]"."""
    __slots__ = ("off",)

    def __new__(cls, off):
        o = str.__new__(cls, "[*]")
        o.off = off
        return o


VOID = Opq("void")
NULLREG = ("null",)


def locstr(l):
    return ".".join(str(x).split("@")[0] if not isinstance(x, tuple) else "/".join(str(y).split("@")[0] for y in x[:2]) for x in l)


def neg(f):
    k = f[0]
    if k == "le":
        return ("le", (-f[1]) + 1)
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "and":
        return ("or", neg(f[1]), neg(f[2]))
    if k == "or":
        return ("and", neg(f[1]), neg(f[2]))
    if k == "k":
        return ("k", 1 - f[1])
    raise AssertionError(f)


class State:
    __slots__ = ("store", "facts", "epochs")

    def __init__(self, store=None, facts=None, epochs=None):
        self.store = store if store is not None else {}
        self.facts = facts or Facts()
        self.epochs = epochs if epochs is not None else {}

    def copy(self):
        return State(dict(self.store), self.facts, self.epochs)

    def set(self, loc, v):
        s = State(dict(self.store), self.facts, self.epochs)
        s.store[loc] = v
        return s


class Out:
    """Outcome of executing a statement."""
    __slots__ = ("normal", "brk", "cont", "ret", "thr", "goto")

    def __init__(self, normal=None):
        self.normal = normal or []
        self.brk = []
        self.cont = []
        self.ret = []  # (state, value)
        self.thr = []  # (state, type-name)
        self.goto = []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.thr += o.thr
        return o.normal


class Frame:
    __slots__ = ("fn", "this", "depth", "key", "caps", "ret_t", "parent", "callline", "cthis", "home")

    def __init__(self, fn, this, depth, key, parent=None):
        self.fn = fn
        self.this = this
        self.depth = depth
        self.key = key
        self.caps = {}
        self.home = None
        self.parent = parent
        self.callline = None


class Limit(AnalysisError):
    pass


INT_CASTS = ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral")


class Engine:
    max_states = 24
    max_depth = 14
    unroll = 40
    fork_unroll = False     # unroll loops whose head test is undecided as well (small finite loops only)
    max_steps = 4_000_000

    def __init__(self, prog):
        self.p = prog
        self.rg = Ranges()
        self.ctr = itertools.count()
        self.tags = {}          # symbol -> set of provenance tags
        self.quiet = 0          # >0 while searching for invariants
        self.recording = None
        self.obl = {}           # (file, line, kind, what) -> [ok, detail, contexts]
        self.writes = None      # stack of write sets
        self.steps = 0
        self.visited_fns = set()
        self.fltof = {}
        self.memo = {}
        self.assumed = set()
        self.unknown_calls = {}
        from . import models
        self.models = models.MODELS
        self.mod = models
        self.noinline = set()
        self.elsym = {}         # element symbol -> (region, byte offset)
        self.dyn = {}           # container location -> (element size, extra bytes)
        self.virt = {}
        self.recv = {}

    # ------------------------------------------------------------------ symbols
    def fresh(self, hint, lo=None, hi=None, tags=()):
        s = "%s'%d" % (hint, next(self.ctr))
        self.rg.set(s, lo, hi)
        if tags:
            self.tags[s] = frozenset(tags)
        return Lin.sym(s)

    def named(self, name, lo=None, hi=None, tags=()):
        if name not in self.rg.r:
            self.rg.set(name, lo, hi)
            if tags:
                self.tags[name] = frozenset(tags)
        return Lin.sym(name)

    def tags_of(self, v):
        out = set()
        if isinstance(v, Num):
            for s in v.l.t:
                out |= self.tags.get(s, frozenset())
        elif isinstance(v, Ptr):
            for s in list(v.off.t) + list(v.null.t):
                out |= self.tags.get(s, frozenset())
        elif isinstance(v, Opq):
            out |= self.tags.get(v.s, frozenset())
        elif isinstance(v, Bool):
            def syms(f):
                if f[0] in ("le", "eq", "ne"):
                    return set(f[1].t)
                if f[0] in ("and", "or"):
                    return syms(f[1]) | syms(f[2])
                return set()
            for s in syms(v.f):
                out |= self.tags.get(s, frozenset())
        return frozenset(out)

    # ------------------------------------------------------------------ types
    def T(self, i):
        return self.p.types[i]

    def strip(self, i):
        t = self.T(i)
        while t["k"] == "ref":
            t = self.T(t["to"])
        return t

    def range_of(self, t):
        k = t["k"]
        if k == "bool":
            return 0, 1
        if k == "enum":
            e = self.p.enums.get(t["q"])
            if e and e["e"]:
                vs = [int(x[1]) if not isinstance(x[1], str) else int(x[1][1:]) for x in e["e"]]
                return min(vs), max(vs)
            w = t.get("w", 32)
            return (0, 2 ** w - 1) if t.get("u") else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        if k == "int":
            w = t["w"]
            return (0, 2 ** w - 1) if t["u"] else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        return None, None

    def sizeof(self, t):
        if isinstance(t, int):
            t = self.T(t)
        if t["k"] == "ref":
            return self.sizeof(t["to"])
        if t["k"] == "void":
            return 1
        return t.get("sz")

    def is_num(self, t):
        return t["k"] in ("bool", "enum", "int")

    # ------------------------------------------------------------------ store
    def epoch(self, st, loc):
        n = 0
        for i in range(1, len(loc) + 1):
            n = max(n, st.epochs.get(loc[:i], 0))
        return n

    def default(self, st, loc, t):
        """Lazily created initial content of a location (deterministic per location and epoch)."""
        ep = self.epoch(st, loc)
        name = locstr_u(loc) + ("" if ep == 0 else "~%d" % ep)
        tt = self.T(t) if isinstance(t, int) else t
        if tt["k"] == "ref":
            # a reference stored in a location (reference member or parameter)
            to = self.T(tt["to"])
            return Ptr(loc + ("*",), Lin(0), Lin(0))
        if self.is_num(tt):
            lo, hi = self.range_of(tt)
            return Num(self.named(name, lo, hi, self.loc_tags(loc)))
        if tt["k"] == "ptr":
            to = self.T(tt["to"])
            reg = loc + ("*",) if ep == 0 else loc + ("*%d" % ep,)
            if to["k"] in ("int", "void", "bool", "float", "enum"):
                reg = reg + ("[]",)
            return Ptr(reg, Lin(0), self.named("null?" + name, 0, 1))
        if tt["k"] in ("rec", "array"):
            return Obj(loc)
        o = Opq("?" + name)
        tg = self.loc_tags(loc)
        if tg:
            self.tags.setdefault("?" + name, tg)
        return o

    def loc_tags(self, loc):
        return frozenset()

    def load(self, st, loc, t):
        v = st.store.get(loc)
        if v is not None:
            return v
        tt = self.T(t) if isinstance(t, int) else t
        if tt["k"] in ("rec", "array"):
            return Obj(loc)
        if len(loc) == 1 and isinstance(loc[0], str) and loc[0].startswith("G:"):
            g = self.p.globs.get(loc[0][2:])
            if g is not None and g.get("constexpr") and isinstance(g.get("val"), int) and self.is_num(tt):
                return Num(g["val"])
        if loc and loc[-1] == "[*]":
            lo, hi = self.range_of(tt)
            if self.is_num(tt) and isinstance(loc[-1], Sym):
                key = ("el", loc[:-1], loc[-1].off, self.epoch(st, loc), lo, hi)
                if key not in self.memo:
                    v = self.fresh("el:" + locstr(loc), lo, hi, self.loc_tags(loc))
                    self.memo[key] = v
                    self.elsym[next(iter(v.t))] = (loc[:-1], loc[-1].off)
                return Num(self.memo[key])
            if self.is_num(tt):
                return Num(self.fresh("el:" + locstr(loc), lo, hi, self.loc_tags(loc)))
            if tt["k"] == "ptr":
                return Ptr(loc + ("*#%d" % next(self.ctr),), Lin(0), self.fresh("null?", 0, 1))
            return Opq("el%d" % next(self.ctr))
        v = self.default(st, loc, tt)
        st.store[loc] = v    # deterministic, so sharing it in place is safe
        return v

    def write(self, st, loc, v):
        """Returns the new state."""
        if self.writes is not None:
            for w in self.writes:
                w.add(loc)
        n = State(dict(st.store), st.facts, st.epochs)
        if loc and loc[-1] == "[*]":
            # weak update of an array summary: forget the constant-index elements
            base = loc[:-1]
            for k in [k for k in n.store if k[:len(base)] == base and len(k) > len(base) and isinstance(k[len(base)], str) and k[len(base)].startswith("[")]:
                del n.store[k]
            n.epochs = dict(n.epochs)
            n.epochs[base] = next(self.ctr) + 1
            return n
        if len(loc) >= 2 and loc[-2] == "[]":
            n.epochs = dict(n.epochs)
            n.epochs[loc[:-1] + ("[*]",)] = next(self.ctr) + 1
        n.store[loc] = v
        return n

    def havoc(self, st, loc, t=None):
        """Forget everything about a location and what is below it."""
        if self.writes is not None:
            for w in self.writes:
                w.add(loc + ("#all",))
        n = State({k: v for k, v in st.store.items() if k[:len(loc)] != loc}, st.facts, dict(st.epochs))
        n.epochs[loc] = next(self.ctr) + 1
        return n

    # ------------------------------------------------------------------ facts
    def assume(self, st, f):
        """Returns a list of states in which the condition holds (possibly split)."""
        k = f[0]
        if k == "k":
            return [st] if f[1] else []
        if k == "and":
            out = []
            for s in self.assume(st, f[1]):
                out += self.assume(s, f[2])
            return out
        if k == "or":
            a = self.assume(st, f[1])
            b = []
            for s in self.assume(st, neg(f[1])):
                b += self.assume(s, f[2])
            return a + b
        l = f[1]
        if not l.t:
            ok = (l.c <= 0) if k == "le" else (l.c == 0) if k == "eq" else (l.c != 0)
            return [st] if ok else []
        fa = st.facts
        if k == "le":
            if not sat_with(fa, [l], self.rg):
                return []
            if entails_le(fa, l, self.rg):
                return [st]
            nf = fa.with_le(l)
        elif k == "eq":
            if not sat_with(fa, [], self.rg, [l]):
                return []
            nf = fa.with_eq(l)
        else:
            if entails_eq(fa, l, self.rg):
                return []
            # strengthen when one side is impossible
            if not sat_with(fa, [l + 1], self.rg):        # l <= -1 impossible -> l >= 1
                nf = fa.with_le((-l) + 1)
            elif not sat_with(fa, [(-l) + 1], self.rg):
                nf = fa.with_le(l + 1)
            else:
                nf = fa.with_ne(l)
        if k in ("le", "eq") and nf.nes:
            for d in nf.nes:
                if any(s in l.t for s in d.t) or True:
                    if entails_eq(nf, d, self.rg):
                        return []
        n = State(st.store, nf, st.epochs)
        if k == "le" and nf.nes:
            # l <= 0 with a disequality on the boundary
            for d in nf.nes:
                if d.t == l.t and d.c == l.c or d.t == (-l).t and d.c == -l.c:
                    n = State(st.store, nf.with_le(l + 1), st.epochs)
        return [n]

    def decide(self, st, f):
        """True / False / None."""
        k = f[0]
        if k == "k":
            return bool(f[1])
        if k == "and":
            a, b = self.decide(st, f[1]), self.decide(st, f[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.decide(st, f[1]), self.decide(st, f[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        l = f[1]
        fa = st.facts
        if k == "le":
            if entails_le(fa, l, self.rg):
                return True
            return False if not sat_with(fa, [l], self.rg) else None
        eq = entails_eq(fa, l, self.rg)
        ne = False
        if not eq:
            ne = not sat_with(fa, [], self.rg, [l])
            if not ne:
                for d in fa.nes:
                    if d == l or d == -l or entails_eq(fa.with_eq(l), d, self.rg):
                        ne = True
                        break
        if k == "eq":
            return True if eq else False if ne else None
        return False if eq else True if ne else None

    def proves_le(self, st, l):
        return entails_le(st.facts, l, self.rg)

    def feasible(self, st):
        syms = set()
        for e in st.facts.eqs + st.facts.les:
            syms |= set(e.t)
        return _feas_around(st.facts, self.rg, syms) if syms else True

    # ------------------------------------------------------------------ value helpers
    def truth(self, st, v, t=None):
        """Condition formula of a value used as a truth value."""
        if isinstance(v, Bool):
            return v.f
        if isinstance(v, Num):
            return ("ne", v.l)
        if isinstance(v, Ptr):
            return ("eq", v.null) if v.null.t else ("k", 1 if v.null.c == 0 else 0)
        if isinstance(v, (Obj, Clo, FnV)):
            return ("k", 1)
        if isinstance(v, Opq):
            s = self.named("truth(%s)" % v.s, 0, 1, self.tags.get(v.s, ()))
            return ("ne", s)
        raise AssertionError(v)

    def as_lin(self, st, v, lo=None, hi=None):
        """(state, Lin) of a numeric value; booleans become 0/1 symbols bound by their condition when needed."""
        if isinstance(v, Num):
            return v.l
        if isinstance(v, Bool):
            d = self.decide(st, v.f)
            if d is not None:
                return Lin(1 if d else 0)
            key = ("bool", v.f)
            if key not in self.memo:
                self.memo[key] = self.fresh("b", 0, 1, self.tags_of(v))
            return self.memo[key]
        if isinstance(v, Opq):
            return self.named("num(%s)" % v.s, lo, hi, self.tags.get(v.s, ()))
        if isinstance(v, Ptr):
            return self.named("addr(%s)" % locstr_u(v.reg), 0, 2 ** 63) + v.off
        return self.fresh("n", lo, hi)

    def memo_sym(self, key, hint, lo, hi, tags=()):
        if key not in self.memo:
            self.memo[key] = self.fresh(hint, lo, hi, tags)
        return self.memo[key]

    def in_range(self, st, l, lo, hi):
        return (lo is None or entails_le(st.facts, Lin(lo) - l, self.rg)) and (hi is None or entails_le(st.facts, l - hi, self.rg))

    def fit(self, st, l, t, why, tags=()):
        """Value of a computation of type t whose mathematical result is l: l itself when it provably fits, otherwise
        (unsigned wrap / narrowing) an unknown of the type's range."""
        lo, hi = self.range_of(t)
        if lo is None or self.in_range(st, l, lo, hi):
            return Num(l)
        tg = set(tags)
        for s in l.t:
            tg |= self.tags.get(s, frozenset())
        self.on_wrap(st, l, t, why)
        return Num(self.memo_sym(("fit", l, lo, hi), "w", lo, hi, tg))

    def on_wrap(self, st, l, t, why):
        pass

    def arith(self, st, op, a, b, t, node):
        """Integer arithmetic; returns list of (state, value)."""
        la, lb = self.as_lin(st, a), self.as_lin(st, b)
        lo, hi = self.range_of(t)
        signed = t["k"] == "int" and not t["u"]
        tg = self.tags_of(a) | self.tags_of(b)
        if op == "+":
            l = la + lb
        elif op == "-":
            l = la - lb
        elif op == "*":
            if la.is_const():
                l = lb.scale(la.c)
            elif lb.is_const():
                l = la.scale(lb.c)
            else:
                s = self.memo_sym(("mul", la, lb), "m", lo, hi, tg)
                # non-negative operands: product >= each when the other >= 1
                return [(st, Num(s))]
        elif op in ("/", "%"):
            if lb.is_const() and lb.c > 0 and entails_le(st.facts, -la, self.rg):
                if la.is_const():
                    return [(st, Num(la.c // lb.c if op == "/" else la.c % lb.c))]
                if lb.c == 1:
                    return [(st, Num(la if op == "/" else Lin(0)))]
                q = self.memo_sym(("div", la, lb.c), "q", 0, None, tg)
                fa = st.facts.with_le(q.scale(lb.c) - la).with_le(la - q.scale(lb.c) - (lb.c - 1))
                st = State(st.store, fa, st.epochs)
                return [(st, Num(q if op == "/" else la - q.scale(lb.c)))]
            if lb.is_const() and la.is_const() and lb.c:
                q = abs(la.c) // abs(lb.c)
                q = q if (la.c >= 0) == (lb.c >= 0) else -q
                return [(st, Num(q if op == "/" else la.c - q * lb.c))]
            s = self.memo_sym((op, la, lb), "d", lo, hi, tg)
            if op == "%" and entails_le(st.facts, -la, self.rg) and entails_le(st.facts, Lin(1) - lb, self.rg):
                fa = st.facts.with_le(s - lb + 1).with_le(s - la).with_le(-s)
                st = State(st.store, fa, st.epochs)
            elif op == "/" and entails_le(st.facts, -la, self.rg) and entails_le(st.facts, Lin(1) - lb, self.rg):
                fa = st.facts.with_le(s - la).with_le(-s)
                st = State(st.store, fa, st.epochs)
            return [(st, Num(s))]
        elif op == "<<":
            if lb.is_const() and 0 <= lb.c < 64:
                l = la.scale(2 ** lb.c)
            else:
                return [(st, Num(self.memo_sym(("shl", la, lb), "s", lo, hi, tg)))]
        elif op == ">>":
            if lb.is_const() and lb.c >= 0 and entails_le(st.facts, -la, self.rg):
                return self.arith(st, "/", Num(la), Num(2 ** lb.c), t, node)
            nn = entails_le(st.facts, -la, self.rg)
            s = self.memo_sym(("shr", la, lb), "s", 0 if nn else lo, hi, tg)
            if nn:
                st = State(st.store, st.facts.with_le(s - la), st.epochs)
            return [(st, Num(s))]
        elif op == "&":
            if la.is_const() and lb.is_const():
                return [(st, Num(la.c & lb.c))]
            if la.is_const() and not lb.is_const():
                la, lb = lb, la
            if lb.is_const() and lb.c >= 0:
                m = lb.c
                if m == 0:
                    return [(st, Num(0))]
                if (m & (m + 1)) == 0 and entails_le(st.facts, -la, self.rg):
                    if entails_le(st.facts, la - m, self.rg):
                        return [(st, Num(la))]
                    return self.arith(st, "%", Num(la), Num(m + 1), t, node)
                s = self.memo_sym(("and", la, m), "a", 0, m, tg)
                if entails_le(st.facts, -la, self.rg):
                    st = State(st.store, st.facts.with_le(s - la), st.epochs)
                return [(st, Num(s))]
            s = self.memo_sym(("and", la, lb), "a", 0 if not signed else lo, hi, tg)
            if entails_le(st.facts, -la, self.rg):
                st = State(st.store, st.facts.with_le(s - la), st.epochs)
            return [(st, Num(s))]
        elif op in ("|", "^"):
            if la.is_const() and lb.is_const():
                return [(st, Num((la.c | lb.c) if op == "|" else (la.c ^ lb.c)))]
            s = self.memo_sym((op, la, lb), "o", lo, hi, tg)
            if entails_le(st.facts, -la, self.rg) and entails_le(st.facts, -lb, self.rg):
                fa = st.facts.with_le(s - la - lb)
                if op == "|":
                    fa = fa.with_le(la - s).with_le(lb - s)
                st = State(st.store, fa, st.epochs)
            return [(st, Num(s))]
        else:
            return [(st, Num(self.memo_sym((op, la, lb), "x", lo, hi, tg)))]
        if signed:
            # signed overflow is undefined behaviour, so the mathematical result stands
            return [(st, Num(l))]
        return [(st, self.fit(st, l, t, op, tg))]

    def convert(self, st, v, t, ft=None):
        """Integral conversion of value v to type t."""
        if t["k"] == "bool":
            if isinstance(v, (Bool,)):
                return v
            return Bool(self.truth(st, v))
        lo, hi = self.range_of(t)
        if isinstance(v, Bool):
            return v if t["k"] in ("int", "enum") else v
        if isinstance(v, Num):
            if lo is None or self.in_range(st, v.l, lo, hi):
                return v
            if v.l.is_const():
                w = t["w"]
                x = v.l.c & (2 ** w - 1)
                if not t.get("u") and x >= 2 ** (w - 1):
                    x -= 2 ** w
                return Num(x)
            if t["k"] == "enum":
                return v       # keep the linear identity of a value stored in an enumeration
            tg = self.tags_of(v)
            return Num(self.memo_sym(("conv", v.l, lo, hi), "c", lo, hi, tg))
        if isinstance(v, Opq):
            nm = "cv(%s,%s)" % (v.s, t["s"])
            return Num(self.named(nm, lo, hi, self.tags.get(v.s, ())))
        if isinstance(v, Ptr):
            return Num(self.as_lin(st, v))
        return Num(self.fresh("cv", lo, hi))

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, ok, kind, what, node, fr, detail=""):
        if self.quiet:
            return
        f = fr.fn["file"] if fr and fr.fn else "?"
        key = (f, node.get("l") if node else None, kind, what)
        o = self.obl.get(key)
        if o is None:
            self.obl[key] = [ok, detail if not ok else "", 1, fr.fn["q"] if fr and fr.fn else ""]
        else:
            o[2] += 1
            if not ok and o[0]:
                o[0] = False
                o[1] = detail

    def access(self, st, ptr, n, mode, node, fr):
        """Hook: n bytes (Lin) at ptr are read ('r') or written ('w')."""
        pass

    # hooks that property modules override ---------------------------------------------------------
    def on_call(self, st, fr, node, decl, obj, args):
        return None

    def on_enter(self, st, fr):
        return st

    def on_assign(self, st, fr, node, loc, val):
        return st

    def on_branch(self, st, fr, node, taken):
        return st

    def on_return(self, st, fr, node, val):
        return st

    def on_throw(self, st, fr, node):
        return st

    # ------------------------------------------------------------------ l-values
    def var_loc(self, fr, node):
        dk = node["dk"]
        if dk in ("global", "slocal"):
            return ("G:" + node["id"],)
        f = fr
        while f is not None:
            if node["id"] in f.caps:
                return f.caps[node["id"]]
            if f.home is not None and dk == "local" and node["id"] not in self.locals_of(f.fn):
                return self.var_loc(f.home, node)       # a constant of the enclosing function used without capture
            break
        return ("L:" + node["id"], fr.key)

    def locals_of(self, fn):
        ids = fn.get("_locals")
        if ids is None:
            ids = set()

            def walk(n):
                if isinstance(n, dict):
                    for v in n.get("v", []) if isinstance(n.get("v"), list) else ([n["v"]] if isinstance(n.get("v"), dict) else []):
                        if isinstance(v, dict) and "id" in v:
                            ids.add(v["id"])
                    for v in n.values():
                        if isinstance(v, (dict, list)):
                            walk(v)
                elif isinstance(n, list):
                    for x in n:
                        walk(x)
            walk(fn["body"])
            fn["_locals"] = ids
        return ids

    def deref(self, st, ptr, t, node, fr):
        """Location designated by *ptr for an object of type t."""
        reg = ptr.reg
        if reg and reg[-1] == "[]":
            sz = self.sizeof(t)
            if ptr.off.is_const():
                return reg + ("[%d]" % ptr.off.c,)
            return reg + (Sym(ptr.off),)
        if ptr.off.is_const() and ptr.off.c == 0:
            return reg
        return reg + (Sym(ptr.off),)

    def lv(self, e, st, fr):
        """List of (state, loc) for an l-value expression."""
        k = e["k"]
        if k == "Var":
            loc = self.var_loc(fr, e)
            vt = e.get("vt", e.get("t"))
            t = self.T(vt)
            if t["k"] == "ref":
                v = self.load(st, loc, t)
                if isinstance(v, Ptr):
                    return [(st, self.deref(st, v, t["to"], e, fr))]
                if isinstance(v, Obj):
                    return [(st, v.loc)]
                return [(st, loc + ("*",))]
            return [(st, loc)]
        if k == "Bind":
            if e.get("b"):
                return self.lv(e["b"], st, fr)
            return [(st, ("L:" + e["id"], fr.key))]
        if k == "Mem":
            out = []
            for s, base in self.base_loc(e, st, fr):
                loc = base + ("f:" + e["f"],)
                ft = self.T(e["ft"])
                if ft["k"] == "ref":
                    v = self.load(s, loc, ft)
                    loc = v.reg if isinstance(v, Ptr) else loc + ("*",)
                out.append((s, loc))
            return out
        if k == "Un" and e["op"] == "*":
            out = []
            for s, v in self.ev(e["s"], st, fr):
                if isinstance(v, Ptr):
                    self.access(s, v, Lin(self.sizeof(e["t"]) or 1), "d", e, fr)
                    out.append((s, self.deref(s, v, e["t"], e, fr)))
                elif isinstance(v, Obj):
                    out.append((s, v.loc))
                else:
                    out.append((s, ("U:%d" % next(self.ctr),)))
            return out
        if k == "Un" and e["op"] in ("++", "--") and not e.get("post"):
            out = []
            for s, loc in self.lv(e["s"], st, fr):
                s2 = self.incdec(s, loc, e, fr)
                out.append((s2[0], loc))
            return out
        if k == "Idx":
            out = []
            for s, b in self.ev(e["b"], st, fr):
                for s2, i in self.ev(e["i"], s, fr):
                    if isinstance(b, Num) and isinstance(i, Ptr):
                        b, i = i, b
                    sz = self.sizeof(e["t"]) or 1
                    if isinstance(b, Ptr):
                        p = Ptr(b.reg, b.off + self.as_lin(s2, i).scale(sz), b.null)
                        self.access(s2, p, Lin(sz), "d", e, fr)
                        out.append((s2, self.deref(s2, p, e["t"], e, fr)))
                    else:
                        out.append((s2, ("U:%d" % next(self.ctr),)))
            return out
        if k == "Cast":
            return self.lv(e["s"], st, fr) if e.get("lv") or self.T(e["t"])["k"] in ("rec", "array") else [(s, self.spill(s, v)) for s, v in self.ev(e, st, fr)]
        if k == "Cond":
            out = []
            tr, fa = self.cond(e["c"], st, fr)
            for s in tr:
                out += self.lv(e["a"], s, fr)
            for s in fa:
                out += self.lv(e["b"], s, fr)
            return out
        if k == "Asg":
            out = []
            for s, _ in self.ev(e, st, fr):
                out += self.lv(e["a"], s, fr)
            return out
        if k == "Bin" and e["op"] == ",":
            out = []
            for s, _ in self.ev(e["a"], st, fr):
                out += self.lv(e["b"], s, fr)
            return out
        # everything else: evaluate; class values have a location, references are pointers
        out = []
        for s, v in self.ev(e, st, fr):
            out.append(self.spill2(s, v, e))
        return out

    def spill(self, st, v):
        if isinstance(v, Obj):
            return v.loc
        loc = ("T:%d" % next(self.ctr),)
        st.store[loc] = v
        return loc

    def spill2(self, st, v, e):
        if isinstance(v, Obj):
            return st, v.loc
        if isinstance(v, Ptr) and e.get("lv") and e["k"] == "Call":
            return st, self.deref(st, v, e["t"], e, None)
        loc = ("T:%d" % next(self.ctr),)
        st = State(dict(st.store), st.facts, st.epochs)
        st.store[loc] = v
        return st, loc

    def base_loc(self, e, st, fr):
        b = e["b"]
        if b["k"] == "This":
            return [(st, fr.this)]
        out = []
        if e.get("arrow"):
            for s, v in self.ev(b, st, fr):
                if isinstance(v, Ptr):
                    self.access(s, v, Lin(1), "d", e, fr)
                    pt = self.T(b["t"])
                    out.append((s, self.deref(s, v, pt.get("to", pt) if pt["k"] == "ptr" else b["t"], e, fr)))
                elif isinstance(v, Obj):
                    out.append((s, v.loc))
                else:
                    out.append((s, ("U:%s" % (v.s if isinstance(v, Opq) else next(self.ctr)),)))
        else:
            for s, l in self.lv(b, st, fr):
                out.append((s, l))
        return out

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        """List of (state, value)."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("analysis step budget exhausted in %s" % (fr.fn["q"] if fr.fn else "?"))
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        t = self.T(e["t"]) if "t" in e else {"k": "other", "s": ""}
        if "cv" in e and k not in ("Call", "Ctor", "Asg") and not (k == "Cast" and e.get("lv")) and not (k in ("Var", "Mem", "Idx") and e.get("lv") and False):
            if self.is_num(t) and not (k == "Un" and e["op"] in ("++", "--")):
                return [(st, Num(int(e["cv"])))]
        if m is None:
            return self.e_default(e, st, fr)
        return m(e, st, fr)

    def e_default(self, e, st, fr):
        # evaluate children for effects
        sts = [st]
        for c in e.get("ch", []):
            if c:
                sts = [s2 for s in sts for s2, _ in self.ev(c, s, fr)]
        t = self.T(e["t"])
        return [(s, self.unknown(s, t, e["k"])) for s in sts]

    def unknown(self, st, t, hint, tags=()):
        if isinstance(t, int):
            t = self.T(t)
        if self.is_num(t):
            lo, hi = self.range_of(t)
            return Num(self.fresh(hint, lo, hi, tags))
        if t["k"] == "ptr":
            to = self.T(t["to"])
            reg = ("H:%s%d" % (hint, next(self.ctr)),)
            if to["k"] in ("int", "void", "bool", "float", "enum"):
                reg = reg + ("[]",)
            return Ptr(reg, Lin(0), self.fresh("null?", 0, 1, tags))
        if t["k"] == "ref":
            reg = ("H:%s%d" % (hint, next(self.ctr)),)
            return Ptr(reg)
        if t["k"] in ("rec", "array"):
            return Obj(("T:%s%d" % (hint, next(self.ctr)),))
        o = Opq("%s%d" % (hint, next(self.ctr)))
        if tags:
            self.tags[o.s] = frozenset(tags)
        return o

    def e_Int(self, e, st, fr):
        return [(st, Num(int(e["cv"])))]

    def e_Enum(self, e, st, fr):
        return [(st, Num(int(e["cv"])))]

    def e_Flt(self, e, st, fr):
        return [(st, Opq("flt:%r" % e["v"]))]

    def e_Str(self, e, st, fr):
        return [(st, Obj(("S:%d:%s" % (e["n"], e.get("v", "")),)))]

    def e_Null(self, e, st, fr):
        return [(st, Ptr(NULLREG, Lin(0), Lin(1)))]

    def e_This(self, e, st, fr):
        return [(st, Ptr(fr.this))]

    def e_Fn(self, e, st, fr):
        return [(st, FnV(e["fn"]))]

    def e_Zero(self, e, st, fr):
        t = self.T(e["t"])
        if self.is_num(t):
            return [(st, Num(0))]
        if t["k"] == "ptr":
            return [(st, Ptr(NULLREG, Lin(0), Lin(1)))]
        if t["k"] == "float":
            return [(st, Opq("flt:0.0"))]
        st, o = self.zero_obj(st, t)
        return [(st, o)]

    def zero_obj(self, st, t):
        loc = ("T:%d" % next(self.ctr),)
        st = State(dict(st.store), st.facts, st.epochs)
        self.zero_fill(st, loc, t)
        return st, Obj(loc)

    def zero_fill(self, st, loc, t, depth=0):
        if depth > 4:
            return
        if self.is_num(t):
            st.store[loc] = Num(0)
        elif t["k"] == "ptr":
            st.store[loc] = Ptr(NULLREG, Lin(0), Lin(1))
        elif t["k"] == "rec":
            r = self.p.recs.get(t.get("rec"))
            if r and "f" in r:
                for f in r["f"]:
                    self.zero_fill(st, loc + ("f:" + f["id"],), self.T(f["t"]), depth + 1)
        elif t["k"] == "array" and t["n"] <= 16:
            sz = self.sizeof(t["to"]) or 1
            for i in range(t["n"]):
                self.zero_fill(st, loc + ("[]", "[%d]" % (i * sz)), self.T(t["to"]), depth + 1)

    def rvalue(self, st, loc, t):
        return self.load(st, loc, t)

    def e_Var(self, e, st, fr):
        out = []
        for s, loc in self.lv(e, st, fr):
            out.append((s, self.load(s, loc, self.strip(e.get("vt", e["t"])))))
        return out

    def e_Bind(self, e, st, fr):
        return [(s, self.load(s, loc, self.strip(e["t"]))) for s, loc in self.lv(e, st, fr)]

    def e_Mem(self, e, st, fr):
        return [(s, self.load(s, loc, self.strip(e["ft"]))) for s, loc in self.lv(e, st, fr)]

    def e_Idx(self, e, st, fr):
        return [(s, self.load(s, loc, self.T(e["t"]))) for s, loc in self.lv(e, st, fr)]

    def e_MFn(self, e, st, fr):
        return [(st, FnV(e["fn"]))]

    def e_Cond(self, e, st, fr):
        tr, fa = self.cond(e["c"], st, fr)
        out = []
        ev = self.ev_r if e.get("lv") else self.ev
        for s in tr:
            out += ev(e["a"], s, fr)
        for s in fa:
            out += ev(e["b"], s, fr)
        return out

    def e_Throw(self, e, st, fr):
        sts = [(st, None)]
        if e.get("s"):
            sts = self.ev(e["s"], st, fr)
        for s, _ in sts:
            s = self.on_throw(s, fr, e)
            self.thrown.append((s, e))
        return []

    def incdec(self, st, loc, e, fr):
        t = self.strip(e["s"]["t"])
        old = self.load(st, loc, t)
        d = 1 if e["op"] == "++" else -1
        if isinstance(old, Ptr):
            sz = self.sizeof(self.T(t["to"])) if t["k"] == "ptr" else 1
            new = Ptr(old.reg, old.off + d * (sz or 1), old.null)
            s = self.write(st, loc, new)
            s = self.on_assign(s, fr, e, loc, new)
            return s, old
        if self.is_num(t):
            l = self.as_lin(st, old) + d
            new = self.fit(st, l, t, e["op"]) if t.get("u", 1) or t["w"] < 32 else Num(l)
            s = self.write(st, loc, new)
            s = self.on_assign(s, fr, e, loc, new)
            return s, old
        new = self.unknown(st, t, "inc")
        return self.write(st, loc, new), old

    def e_Un(self, e, st, fr):
        op = e["op"]
        if op in ("++", "--"):
            out = []
            for s, loc in self.lv(e["s"], st, fr):
                s2, old = self.incdec(s, loc, e, fr)
                out.append((s2, old if e.get("post") else s2.store.get(loc, old)))
            return out
        if op == "&":
            out = []
            sub = e["s"]
            if sub["k"] == "Fn":
                return [(st, FnV(sub["fn"]))]
            if sub["k"] == "Idx":
                for s, b in self.ev(sub["b"], st, fr):
                    for s2, i in self.ev(sub["i"], s, fr):
                        if isinstance(b, Ptr):
                            out.append((s2, Ptr(b.reg, b.off + self.as_lin(s2, i).scale(self.sizeof(sub["t"]) or 1), b.null)))
                        else:
                            out.append((s2, self.unknown(s2, e["t"], "addr")))
                return out
            if sub["k"] == "Un" and sub["op"] == "*":
                return self.ev(sub["s"], st, fr)
            for s, loc in self.lv(sub, st, fr):
                out.append((s, self.ptr_to(loc)))
            return out
        if op == "*":
            return [(s, self.load(s, loc, self.T(e["t"]))) for s, loc in self.lv(e, st, fr)]
        out = []
        t = self.T(e["t"])
        if op == "!":
            tr, fa = self.cond(e["s"], st, fr)
            return [(s, Num(0)) for s in tr] + [(s, Num(1)) for s in fa]
        for s, v in self.ev(e["s"], st, fr):
            if op == "-" and isinstance(v, (Num, Bool)) and self.is_num(t):
                out.append((s, self.fit(s, -self.as_lin(s, v), t, "-")))
            elif op == "+":
                out.append((s, v))
            elif op == "~" and self.is_num(t):
                l = self.as_lin(s, v)
                lo, hi = self.range_of(t)
                out.append((s, Num(Lin(hi) - l if t.get("u") else Lin(-1) - l)))
            else:
                o = self.unknown(s, t, "un" + op, self.tags_of(v))
                out.append((s, o))
        return out

    def ptr_to(self, loc):
        """Pointer to the object at loc, keeping array element offsets numeric."""
        if len(loc) >= 2 and loc[-2] == "[]" and loc[-1].startswith("["):
            if isinstance(loc[-1], Sym):
                return Ptr(loc[:-1], loc[-1].off)
            if loc[-1] != "[*]":
                return Ptr(loc[:-1], Lin(int(loc[-1][1:-1])))
        return Ptr(loc)

    def e_Bin(self, e, st, fr):
        op = e["op"]
        if op == ",":
            out = []
            for s, _ in self.ev(e["a"], st, fr):
                out += self.ev(e["b"], s, fr)
            return out
        if op in ("&&", "||"):
            tr, fa = self.cond(e, st, fr)
            return [(s, Num(1)) for s in tr] + [(s, Num(0)) for s in fa]
        out = []
        for s, a in self.ev(e["a"], st, fr):
            for s2, b in self.ev(e["b"], s, fr):
                out += self.binop(op, s2, a, b, e, fr)
        return out

    def binop(self, op, st, a, b, e, fr):
        t = self.T(e["t"])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return [(st, Bool(self.compare(st, op, a, b, e)))]
        ta = self.T(e["a"]["t"]) if "a" in e and isinstance(e["a"], dict) else t
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-":
            if a.reg == b.reg:
                pt = ta
                sz = self.sizeof(self.T(pt["to"])) if pt["k"] == "ptr" else 1
                d = a.off - b.off
                if sz in (1, None):
                    return [(st, Num(d))]
                if all(k % sz == 0 for k in d.t.values()) and d.c % sz == 0:
                    return [(st, Num(Lin(d.c // sz, {x: k // sz for x, k in d.t.items()})))]
                return self.arith(st, "/", Num(d), Num(sz), t, e)
            return [(st, Num(self.memo_sym(("pd", a.reg, a.off, b.reg, b.off), "pd", None, None)))]
        if isinstance(a, Ptr) and op in ("+", "-") and t["k"] == "ptr":
            sz = self.sizeof(self.T(t["to"])) or 1
            d = self.as_lin(st, b).scale(sz)
            return [(st, Ptr(a.reg, a.off + d if op == "+" else a.off - d, a.null))]
        if isinstance(b, Ptr) and op == "+" and t["k"] == "ptr":
            sz = self.sizeof(self.T(t["to"])) or 1
            return [(st, Ptr(b.reg, b.off + self.as_lin(st, a).scale(sz), b.null))]
        if self.is_num(t):
            return self.arith(st, op, a, b, t, e)
        if isinstance(a, Opq) or isinstance(b, Opq):
            ka = a.s if isinstance(a, Opq) else repr(a)
            kb = b.s if isinstance(b, Opq) else repr(b)
            o = Opq("(%s%s%s)" % (ka, op, kb)) if len(ka) + len(kb) < 200 else Opq("f%d" % next(self.ctr))
            tg = self.tags_of(a) | self.tags_of(b)
            if tg:
                self.tags[o.s] = tg
            return [(st, o)]
        return [(st, self.unknown(st, t, "bin", self.tags_of(a) | self.tags_of(b)))]

    def compare(self, st, op, a, b, e=None):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ("==", "!="):
                f = None
                if b.reg == NULLREG:
                    f = ("eq", a.null - 1)
                elif a.reg == NULLREG:
                    f = ("eq", b.null - 1)
                elif a.reg == b.reg:
                    f = ("eq", a.off - b.off)
                if f is not None:
                    if not f[1].t:
                        f = ("k", 1 if f[1].c == 0 else 0)
                    return f if op == "==" else neg(f)
            elif a.reg == b.reg:
                d = a.off - b.off
                return {"<": ("le", d + 1), "<=": ("le", d), ">": ("le", (-d) + 1), ">=": ("le", -d)}[op]
            s = self.memo_sym(("pcmp", op, a.reg, a.off, b.reg, b.off), "t", 0, 1)
            return ("ne", s)
        num = (Num, Bool)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, Bool) and isinstance(b, Num) and b.l.is_const() and op in ("==", "!="):
                if b.l.c == 0:
                    return neg(a.f) if op == "==" else a.f
                if b.l.c == 1:
                    return a.f if op == "==" else neg(a.f)
            if isinstance(b, Bool) and isinstance(a, Num) and a.l.is_const() and op in ("==", "!="):
                return self.compare(st, op, b, a, e)
            if op in ("==", "!=") and (isinstance(a, Bool) or isinstance(b, Bool)):
                fs = []
                for x in (a, b):
                    if isinstance(x, Bool):
                        fs.append(x.f)
                    else:
                        lo, hi = self.lin_range(st, x.l)
                        fs.append(("ne", x.l) if lo is not None and hi is not None and lo >= 0 and hi <= 1 else None)
                if None not in fs:
                    same = ("or", ("and", fs[0], fs[1]), ("and", neg(fs[0]), neg(fs[1])))
                    return same if op == "==" else ("or", ("and", fs[0], neg(fs[1])), ("and", neg(fs[0]), fs[1]))
            d = self.as_lin(st, a) - self.as_lin(st, b)
            if op == "==":
                f = ("eq", d)
            elif op == "!=":
                f = ("ne", d)
            elif op == "<":
                f = ("le", d + 1)
            elif op == "<=":
                f = ("le", d)
            elif op == ">":
                f = ("le", (-d) + 1)
            else:
                f = ("le", -d)
            if not d.t:
                c = d.c
                r = {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
                return ("k", 1 if r else 0)
            return f
        ka, kb = self.vkey(a), self.vkey(b)
        flip = {"!=": "==", ">=": "<", ">": "<="}
        o2, negate = (flip[op], True) if op in flip else (op, False)
        tg = self.tags_of(a) | self.tags_of(b)
        if o2 == "==" and ka == kb and ka[0] != "f":
            f = ("k", 1)
        else:
            if o2 == "==" and str(kb) < str(ka):
                ka, kb = kb, ka
            s = self.memo_sym(("cmp", o2, ka, kb), "t", 0, 1, tg)
            f = ("ne", s)
        return neg(f) if negate else f

    def vkey(self, v):
        if isinstance(v, Opq):
            return ("o", v.s)
        if isinstance(v, Num):
            return ("n", v.l)
        if isinstance(v, Ptr):
            return ("p", v.reg, v.off)
        if isinstance(v, Obj):
            return ("O", v.loc)
        return ("f", next(self.ctr))

    def e_Cast(self, e, st, fr):
        ck = e["ck"]
        t = self.T(e["t"])
        sub = e["s"]
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "AtomicToNonAtomic"):
            if ck == "LValueToRValue":
                return self.ev_r(sub, st, fr)
            return self.ev(sub, st, fr)
        if ck == "ArrayToPointerDecay":
            out = []
            for s, loc in self.lv(sub, st, fr):
                out.append((s, Ptr(loc + ("[]",))))
            return out
        if ck == "ToVoid":
            return [(s, VOID) for s, _ in self.ev(sub, st, fr)]
        if ck == "NullToPointer":
            return [(st, Ptr(NULLREG, Lin(0), Lin(1)))]
        out = []
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic"):
            if e.get("lv") or t["k"] == "rec":
                return [(s, Obj(loc)) for s, loc in self.lv(sub, st, fr)]
            for s, v in self.ev(sub, st, fr):
                if ck == "Dynamic" and isinstance(v, Ptr):
                    nn = self.memo_sym(("dyn", v.reg, v.off, v.null, e["t"]), "dynnull", 0, 1)
                    # a failed cast or a null source gives null
                    for s1 in self.assume(s, ("eq", nn)):
                        for s2 in self.assume(s1, ("eq", v.null)) if v.null.t else ([s1] if v.null.c == 0 else []):
                            out.append((s2, Ptr(v.reg, v.off, Lin(0))))
                    for s1 in self.assume(s, ("eq", nn - 1)):
                        out.append((s1, Ptr(NULLREG, Lin(0), Lin(1))))
                else:
                    out.append((s, v))
            return out
        for s, v in self.ev(sub, st, fr):
            if ck in ("IntegralCast", "BooleanToSignedIntegral"):
                out.append((s, self.convert(s, v, t)))
            elif ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
                out.append((s, Bool(self.truth(s, v))))
            elif ck == "BitCast":
                if isinstance(v, Ptr) and t["k"] == "ptr":
                    to = self.T(t["to"])
                    if v.reg and v.reg != NULLREG and v.reg[-1] != "[]" and to["k"] in ("int", "void", "bool", "float", "enum"):
                        ft = self.T(sub["t"])
                        fto = self.T(ft["to"]) if ft["k"] == "ptr" else ft
                        if fto["k"] in ("rec", "array") or self.is_num(fto) or fto["k"] == "float":
                            s = self.note_obj_bytes(s, v.reg, fto)
                            v = Ptr(v.reg + ("[]",), v.off, v.null)
                out.append((s, v))
            elif ck in ("FloatingCast",):
                out.append((s, Opq("f32(%s)" % v.s) if isinstance(v, Opq) and t.get("w") == 32 and not v.s.startswith("flt:") else v))
            elif ck in ("IntegralToFloating",):
                o = Opq("flt(%r)" % (v,)) if len(repr(v)) < 200 else Opq("flt%d" % next(self.ctr))
                if self.tags_of(v):
                    self.tags[o.s] = self.tags_of(v)
                if isinstance(v, (Num, Bool)) and (t.get("w", 64) == 64 or self.in_range(s, self.as_lin(s, v), -(1 << 24), 1 << 24)):
                    self.fltof[o.s] = self.as_lin(s, v)
                out.append((s, o))
            elif ck == "FloatingToIntegral":
                lo, hi = self.range_of(t)
                x = self.fltof.get(v.s) if isinstance(v, Opq) else None
                if x is not None and self.in_range(s, x, max(lo, -(1 << 53)), min(hi, 1 << 53)):
                    out.append((s, Num(x)))        # a double holds the integer exactly
                elif isinstance(v, Opq):
                    out.append((s, Num(self.named("ftoi(%s,%s)" % (v.s, t["s"]), lo, hi, self.tags.get(v.s, ())))))
                else:
                    out.append((s, Num(self.fresh("ftoi", lo, hi))))
            elif ck == "PointerToIntegral":
                out.append((s, Num(self.as_lin(s, v))))
            elif ck == "IntegralToPointer":
                out.append((s, self.unknown(s, t, "itop")))
            else:
                if self.is_num(t) and isinstance(v, (Num, Bool)):
                    out.append((s, self.convert(s, v, t)))
                else:
                    out.append((s, v))
        return out

    def note_obj_bytes(self, st, loc, t):
        """Record the byte size of the object representation at loc (for pointer views of it)."""
        sz = self.sizeof(t)
        key = loc + ("[]", "#bytes")
        if sz and key not in st.store:
            st = State(dict(st.store), st.facts, st.epochs)
            st.store[key] = Num(sz)
        return st

    def region_bytes(self, st, reg):
        if len(reg) >= 2 and reg[-1] == "[]" and reg[-2] == "#d" and reg[:-2] in self.dyn:
            es, extra = self.dyn[reg[:-2]]
            return self.mod.size_of(self, st, reg[:-2]).scale(es) + extra
        v = st.store.get(reg + ("#bytes",))
        if isinstance(v, Num):
            return v.l
        if reg and isinstance(reg[0], str) and reg[0].startswith("S:"):
            return Lin(int(reg[0].split(":")[1]) + 1)
        if reg and reg[-1] == "[]":
            t = self.loc_type(reg[:-1])
            if t is not None and t["k"] in ("array", "rec") and self.sizeof(t):
                return Lin(self.sizeof(t))
        return None

    def bytes_left(self, st, p):
        """Bytes from p to the end of its region, when known."""
        if not isinstance(p, Ptr) or p.reg == NULLREG:
            return None
        b = self.region_bytes(st, p.reg)
        return None if b is None else b - p.off

    def smart_null(self, st, loc, ep):
        return self.named("null?%s%s" % (locstr_u(loc), "" if not ep else "~%d" % ep), 0, 1)

    def on_bytes(self, st, p, n, src):
        return st

    def on_copy(self, st, dst, src, n, node, fr, may_overlap):
        return st

    def on_find(self, st, p, n, i, node, fr):
        return st

    def on_construct(self, st, fr, e, d, loc, argv):
        return None

    def index(self, st, ptr, es, i, n, node, fr, ct):
        pass

    def oob_throw(self, st, pos, n, node, fr):
        pass

    def may_throw(self, st, node):
        self.thrown.append((st, node))

    def ver(self, st, p):
        return self.epoch(st, p.reg) if isinstance(p, Ptr) else 0

    def scalar_copy(self, st, dst, src, n):
        """memcpy of exactly one scalar object between known locations keeps its value; None when not applicable."""
        return None

    def copy_obj_any(self, st, src, dst, t):
        if t["k"] in ("rec", "array"):
            return self.copy_obj(st, src, dst, t)
        return st.set(dst, self.load(st, src, t))

    def construct_heap(self, st, loc, ti, argv, e, fr):
        """States after constructing an object of type ti at loc from argv (constructor chosen by arity when unambiguous)."""
        return [st]

    def range_loop(self, s, st, fr, out, loc, t, n, p, es, et):
        """Range-based for: havoc what the body modifies, bind the loop variable to an arbitrary element."""
        vb = s["v"]
        vt = self.T(vb["t"])
        vloc = ("L:" + vb["id"], fr.key)

        def bind(x, off):
            x = State({k: v for k, v in x.store.items() if k[:2] != vloc}, x.facts, dict(x.epochs))
            if off is not None:
                el = p.reg + (("[%d]" % off.c) if off.is_const() else Sym(off),)
                if vt["k"] == "ref":
                    x.store[vloc] = Ptr(el) if self.T(vt["to"])["k"] in ("rec", "array") else Ptr(p.reg, off)
                else:
                    v = self.load(x, el, vt)
                    x = self.copy_obj(x, v.loc, vloc, vt) if isinstance(v, Obj) else x.set(vloc, v)
            else:
                el = loc + ("#el%d" % next(self.ctr),)
                if vt["k"] == "ref":
                    x.store[vloc] = Ptr(el)
                else:
                    v = self.load(x, el, vt)
                    x = self.copy_obj(x, v.loc, vloc, vt) if isinstance(v, Obj) else x.set(vloc, v)
            if vb.get("bind"):
                for b in vb["bind"]:
                    if b.get("hv"):
                        x = self.decl(b["hv"], [x], fr)[0]
            return x

        if n is not None and n.is_const() and n.c <= self.unroll:
            cur = [st]
            exits = []
            for i in range(n.c):
                oo = Out()
                res = self.ex(s["b"], [bind(x, p.off + i * es) for x in cur], fr, oo)
                exits += oo.brk
                out.ret += oo.ret
                cur = self.limit(res + oo.cont)
                if not cur:
                    break
            return exits + cur
        # unknown trip count: a hidden index drives the ordinary loop machinery
        idx = ("L:#idx%s" % s.get("l"), fr.key)
        st = State(dict(st.store), st.facts, dict(st.epochs))
        st.store[idx] = Num(0)
        bound = n if n is not None else self.fresh("trip", 0, 2 ** 62)
        eng = self

        class Ctl:
            pass
        return self.loop_inv_ex(s, st, fr, out, idx, bound, bind, p, es)

    def loop_inv_ex(self, s, st, fr, out, idx, bound, bind, p, es):
        def head_split(h):
            i = self.as_lin(h, h.store[idx])
            return self.assume(h, ("le", i - bound + 1)), self.assume(h, ("le", bound - i))

        def iterate(heads):
            o = Out()
            tr, fa = [], []
            for h in heads:
                a, b = head_split(h)
                tr += a
                fa += b
            body = []
            for x in self.limit(tr):
                i = self.as_lin(x, x.store[idx])
                body.append(bind(x, p.off + i.scale(es) if p is not None else None))
            res = self.ex(s["b"], body, fr, o)
            res = res + o.cont
            nx = []
            for x in res:
                i = self.as_lin(x, x.store[idx])
                nx.append(self.write(x, idx, Num(i + 1)))
            return fa, self.limit(nx), o

        return self.generic_loop(s, st, fr, out, iterate, None)

    def e_Asg(self, e, st, fr):
        op = e["op"]
        t = self.strip(e["a"]["t"])
        out = []
        if op == "=":
            for s, v in self.ev(e["b"], st, fr):
                for s2, loc in self.lv(e["a"], s, fr):
                    out.append(self.assign(s2, loc, v, t, e, fr))
            return out
        bop = op[:-1]
        for s, b in self.ev(e["b"], st, fr):
            for s2, loc in self.lv(e["a"], s, fr):
                old = self.load(s2, loc, t)
                if isinstance(old, Ptr) and t["k"] == "ptr":
                    sz = self.sizeof(self.T(t["to"])) or 1
                    d = self.as_lin(s2, b).scale(sz)
                    out.append(self.assign(s2, loc, Ptr(old.reg, old.off + d if bop == "+" else old.off - d, old.null), t, e, fr))
                    continue
                ct = self.T(e["ct"]) if e.get("ct", -1) >= 0 else t
                if self.is_num(ct):
                    if self.is_num(t):
                        for s3, v in self.arith(s2, bop, self.convert(s2, old, ct), b, ct, e):
                            out.append(self.assign(s3, loc, self.convert(s3, v, t), t, e, fr))
                        continue
                out.append(self.assign(s2, loc, self.unknown(s2, t, "ca", self.tags_of(old) | self.tags_of(b)), t, e, fr))
        return out

    def assign(self, st, loc, v, t, node, fr):
        if isinstance(v, Obj) and t["k"] in ("rec", "array"):
            s = self.copy_obj(st, v.loc, loc, t)
        else:
            if t["k"] == "bool" and isinstance(v, Num) and not v.l.is_const():
                pass
            s = self.write(st, loc, v)
        s = self.on_assign(s, fr, node, loc, v)
        return s, v

    def copy_obj(self, st, src, dst, t, depth=0):
        """Copy the (known part of the) object at src over dst."""
        if src == dst:
            return st
        if self.writes is not None:
            for w in self.writes:
                w.add(dst + ("#all",))
        n = State({k: v for k, v in st.store.items() if k[:len(dst)] != dst or k[:len(src)] == src}, st.facts, dict(st.epochs))
        n.epochs[dst] = next(self.ctr) + 1
        # materialise scalar fields of the source so both sides share symbols
        self.materialise(n, src, t)
        L = len(src)
        for k, v in list(n.store.items()):
            if k[:L] == src:
                if isinstance(v, Obj) and v.loc[:L] == src:
                    v = Obj(dst + v.loc[L:])
                n.store[dst + k[L:]] = v
        return n

    def materialise(self, st, loc, t, depth=0):
        if depth > 4:
            return
        if t["k"] == "rec":
            r = self.p.recs.get(t.get("rec"))
            if r and "f" in r:
                for b in r["b"]:
                    self.materialise(st, loc, self.T(b), depth + 1)
                for f in r["f"]:
                    ft = self.T(f["t"])
                    l2 = loc + ("f:" + f["id"],)
                    if ft["k"] in ("rec",):
                        self.materialise(st, l2, ft, depth + 1)
                    elif ft["k"] != "array":
                        self.load(st, l2, ft)
            else:
                self.mod.materialise(self, st, loc, t)

    def e_Init(self, e, st, fr):
        t = self.T(e["t"])
        loc = ("T:%d" % next(self.ctr),)
        if t["k"] == "rec":
            r = self.p.recs.get(t.get("rec"))
            fields = None
            if r and "f" in r:
                fields = [(("f:" + f["id"],), self.T(f["t"])) for f in r["f"]]
                nb = len(r["b"])
                if nb:
                    fields = [((), self.T(b)) for b in r["b"]] + fields
            elif t["q"] == "std::array":
                fields = [(("arr",), {"k": "array", "to": t["ta"][0]["t"], "n": t["ta"][1]["v"], "s": "arr"})]
            sts = [st]
            for i, x in enumerate(e["e"]):
                ns = []
                for s in sts:
                    for s2, v in (self.ev(x, s, fr) if x else [(s, None)]):
                        if fields and i < len(fields) and v is not None:
                            sel, ft = fields[i]
                            if t["q"] == "std::array" and isinstance(v, Obj):
                                s2 = self.copy_obj(s2, v.loc + ("[]",), loc + ("[]",), {"k": "other"})
                            elif ft["k"] == "ref":
                                s2 = s2.set(loc + sel, Ptr(v.loc) if isinstance(v, Obj) else v)
                            else:
                                s2, _ = self.assign(s2, loc + sel, v, ft, e, fr) if sel else (self.copy_obj(s2, v.loc, loc, ft), None) if isinstance(v, Obj) else (s2, None)
                        ns.append(s2)
                sts = ns
            return [(s, Obj(loc)) for s in sts]
        if t["k"] == "array":
            sz = self.sizeof(t["to"]) or 1
            sts = [st]
            for i, x in enumerate(e["e"]):
                ns = []
                for s in sts:
                    for s2, v in self.ev(x, s, fr):
                        s2, _ = self.assign(s2, loc + ("[]", "[%d]" % (i * sz)), v, self.T(t["to"]), e, fr)
                        ns.append(s2)
                sts = ns
            res = []
            for s in sts:
                if t["n"] <= 64 and t["n"] > len(e["e"]) and (self.is_num(self.T(t["to"]))):
                    s = State(dict(s.store), s.facts, s.epochs)
                    for i in range(len(e["e"]), t["n"]):
                        s.store[loc + ("[]", "[%d]" % (i * sz))] = Num(0)
                res.append((s, Obj(loc)))
            return res
        if e["e"]:
            return self.ev(e["e"][0], st, fr)
        return self.e_Zero(e, st, fr)

    def e_StdInit(self, e, st, fr):
        out = []
        for s, v in self.ev(e["s"], st, fr):
            loc = ("T:%d" % next(self.ctr),)
            at = self.T(e["s"]["t"])
            n = at.get("n", 0)
            if isinstance(v, Obj):
                s = self.copy_obj(s, v.loc + ("[]",), loc + ("#d", "[]"), {"k": "other"})
            s = s.set(loc + ("#n",), Num(n))
            out.append((s, Obj(loc)))
        return out

    def e_ArrCopy(self, e, st, fr):
        return self.ev(e["s"], st, fr) if e.get("s") else self.e_default(e, st, fr)

    def e_SizeOf(self, e, st, fr):
        if "cv" in e:
            return [(st, Num(int(e["cv"])))]
        return self.e_default(e, st, fr)

    def e_New(self, e, st, fr):
        loc = ("H:new%s.%s" % (e["l"], next(self.ctr)),)
        at = self.T(e["at"])
        sts = [(st, Lin(1))]
        if e.get("n"):
            sts = [(s, self.as_lin(s, v)) for s, v in self.ev(e["n"], st, fr)]
        out = []
        for s, n in sts:
            if e.get("n"):
                s = s.set(loc + ("[]", "#bytes"), Num(n.scale(self.sizeof(at) or 1)))
                out.append((s, Ptr(loc + ("[]",))))
            else:
                if e.get("init"):
                    for s2, v in self.ev(e["init"], s, fr):
                        s2, _ = self.assign(s2, loc, v, at, e, fr)
                        out.append((s2, Ptr(loc)))
                else:
                    out.append((s, Ptr(loc)))
        return out

    def e_Del(self, e, st, fr):
        return [(s, VOID) for s, _ in self.ev(e["s"], st, fr)]

    def e_PDtor(self, e, st, fr):
        return [(st, VOID)]

    def e_Lambda(self, e, st, fr):
        caps = {}
        sts = [st]
        for c in e["caps"]:
            if c.get("this"):
                continue
            if c.get("ref"):
                loc = fr.caps.get(c["id"]) or ("L:" + c["id"], fr.key)
                # reference to a reference variable designates its referent
                v = st.store.get(loc)
                caps[c["id"]] = loc
            else:
                loc = ("C:%s.%d" % (c["id"], next(self.ctr)),)
                if c.get("init"):
                    ns = []
                    for s in sts:
                        for s2, v in self.ev(c["init"], s, fr):
                            s2 = self.copy_obj(s2, v.loc, loc, {"k": "rec"}) if isinstance(v, Obj) else s2.set(loc, v)
                            ns.append(s2)
                    sts = ns
                else:
                    src = fr.caps.get(c["id"]) or ("L:" + c["id"], fr.key)
                    ns = []
                    for s in sts:
                        s = State(dict(s.store), s.facts, s.epochs)
                        L = len(src)
                        for k, v in list(s.store.items()):
                            if k[:L] == src:
                                s.store[loc + k[L:]] = Obj(loc + v.loc[L:]) if isinstance(v, Obj) and v.loc[:L] == src else v
                        ns.append(s)
                    sts = ns
                caps[c["id"]] = loc
        return [(s, Clo(e, caps, fr.this, fr)) for s in sts]

    def e_Ctor(self, e, st, fr):
        return self.mod.construct(self, e, st, fr)

    # ------------------------------------------------------------------ calls
    def args(self, es, ptypes, st, fr):
        """Evaluate call arguments left to right. Reference parameters receive Ptr values (locations)."""
        res = [(st, [])]
        for i, a in enumerate(es):
            nr = []
            pt = self.T(ptypes[i]) if i < len(ptypes) else None
            for s, vs in res:
                if pt is not None and pt["k"] == "ref":
                    for s2, loc in self.lv(a, s, fr):
                        nr.append((s2, vs + [("ref", loc)]))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nr.append((s2, vs + [("val", v)]))
            res = nr
        return res

    def e_Call(self, e, st, fr):
        if "fn" not in e:
            return self.call_indirect(e, st, fr)
        d = self.p.fdecls[e["fn"]]
        fid = e["fn"]
        out = []
        if e.get("obj") is not None:
            objs = self.base_loc({"b": e["obj"], "arrow": e.get("arrow"), "l": e["l"]}, st, fr)
        else:
            objs = [(st, None)]
        for s, obj in objs:
            for s2, argv in self.args(e["args"], d["p"], s, fr):
                out += self.call(e, d, s2, fr, obj, argv)
        return out

    def call_indirect(self, e, st, fr):
        out = []
        for s, f in self.ev(e["callee"], st, fr):
            if isinstance(f, FnV):
                d = self.p.fdecls[f.fn]
                for s2, argv in self.args(e["args"], d["p"], s, fr):
                    out += self.call(e, d, s2, fr, f.obj, argv)
            else:
                for s2, argv in self.args(e["args"], [], s, fr):
                    s2 = self.havoc_args(s2, argv, None, e)
                    out.append((s2, self.unknown(s2, e["t"], "ind")))
        return out

    def call(self, e, d, st, fr, obj, argv):
        fid = d["id"]
        r = self.on_call(st, fr, e, d, obj, argv)
        if r is not None:
            return r
        # lambda call
        if d.get("op") == "()" and obj is not None:
            v = st.store.get(obj)
            if isinstance(v, Clo):
                f = self.p.funs.get(fid)
                if f is not None:
                    return self.inline(f, st, fr, v.this, argv, e, clo=v)
        m = self.models.get(d["q"]) or self.mod.lookup(d)
        if m is not None:
            r = m(self, e, d, st, fr, obj, argv)
            if r is not None:
                return r
        targets = self.targets(e, d, st, obj)
        if targets is not None:
            out = []
            for f in targets:
                if self.can_inline(f, fr):
                    out += self.inline(f, st, fr, obj, argv, e)
                else:
                    out += self.call_unknown(e, d, st, fr, obj, argv)
            return out
        return self.call_unknown(e, d, st, fr, obj, argv)

    def targets(self, e, d, st, obj):
        """Bodies the call may run, or None when unknown."""
        fid = d["id"]
        if e.get("vcall"):
            cls = self.virt.get(obj)
            if cls is not None:
                # most derived override in the chain
                r = self.resolve_virtual(d, cls)
                if r:
                    return [r]
            cands = [fid] + self.p.all_overriders(fid)
            fs = [self.p.funs[c] for c in cands if c in self.p.funs]
            if d.get("pure"):
                fs = [f for f in fs if f["id"] != fid]
            return fs if fs and len(fs) <= 3 else ([self.p.funs[fid]] if False else None)
        f = self.p.funs.get(fid)
        return [f] if f else None

    def resolve_virtual(self, d, cls):
        """cls: record id of the dynamic type."""
        seen = [cls]
        order = []
        while seen:
            c = seen.pop(0)
            order.append(c)
            r = self.p.recs.get(c)
            if r:
                seen += [self.T(b).get("rec") for b in r.get("b", [])]
        over = set([d["id"]] + self.p.all_overriders(d["id"]))
        for c in order:
            for m in self.p.recs.get(c, {}).get("m", []):
                if m in over and m in self.p.funs:
                    return self.p.funs[m]
        return None

    def can_inline(self, f, fr):
        if f["id"] in self.noinline or f["q"] in self.noinline:
            return False
        depth = 0
        x = fr
        while x is not None:
            if x.fn and x.fn["id"] == f["id"]:
                return False
            x = x.parent
            depth += 1
        return depth < self.max_depth

    def inline(self, f, st, fr, this, argv, node, clo=None):
        key = (fr.key + ">" + str(node.get("l"))) if fr else "top"
        if len(key) > 200:
            key = "k%d" % (hash(key) & 0xffffffffff)
        nf = Frame(f, this, fr.depth + 1 if fr else 0, key, fr)
        nf.callline = node.get("l")
        if clo is not None:
            nf.caps = dict(clo.caps)
            nf.this = clo.this
            nf.home = clo.home
        self.visited_fns.add(f["id"])
        s = State(dict(st.store), st.facts, st.epochs)
        for i, prm in enumerate(f["params"]):
            loc = ("L:" + prm["id"], nf.key)
            for k in [k for k in s.store if k[:2] == loc]:
                del s.store[k]
        for i, prm in enumerate(f["params"]):
            loc = ("L:" + prm["id"], nf.key)
            if i >= len(argv):
                break
            kind, v = argv[i]
            pt = self.T(prm["t"])
            if kind == "ref":
                if pt["k"] == "ref":
                    s.store[loc] = self.ptr_to(v)
                else:
                    val = self.load(s, v, pt)
                    s = self.copy_obj(s, val.loc, loc, pt) if isinstance(val, Obj) else s.set(loc, val)
            else:
                if pt["k"] == "ref":
                    if isinstance(v, Ptr) and False:
                        s.store[loc] = v
                    elif isinstance(v, Obj):
                        s.store[loc] = Ptr(v.loc)
                    else:
                        t = ("T:%d" % next(self.ctr),)
                        s.store[t] = v
                        s.store[loc] = Ptr(t)
                elif isinstance(v, Obj):
                    s = self.copy_obj(s, v.loc, loc, pt)
                else:
                    s.store[loc] = v
        s = self.on_enter(s, nf)
        return self.run_body(f, s, nf, node)

    def run_body(self, f, s, nf, node):
        saved = self.thrown
        self.thrown = []
        d = f["decl"]
        sts = [s]
        for ini in f.get("inits", []):
            ns = []
            for s1 in sts:
                ns += self.ctor_init(ini, s1, nf)
            sts = ns
        o = Out()
        o.normal = self.ex(f["body"], sts, nf, o)
        thrown = self.thrown
        self.thrown = saved
        self.thrown += thrown
        rt = self.T(d["r"]) if not d.get("ctor") else {"k": "void", "s": "void"}
        out = []
        for s1 in o.normal:
            if rt["k"] != "void":
                continue          # flowing off the end of a value-returning function is undefined
            s1 = self.on_return(s1, nf, f["body"], VOID)
            out.append((s1, VOID))
        for s1, v in o.ret:
            out.append((s1, v))
        out = self.limit_pairs(out)
        # drop the callee's locals
        res = []
        for s1, v in out:
            s1, v = self.pop_frame(s1, v, nf)
            res.append((s1, v))
        return res

    def pop_frame(self, st, v, nf):
        key = nf.key
        keep = isinstance(v, Obj) and len(v.loc) > 1 and v.loc[1] == key and str(v.loc[0]).startswith("L:")
        if keep:
            dst = ("T:%d" % next(self.ctr),) + v.loc[2:]
            src = v.loc
            n = State({}, st.facts, st.epochs)
            L = len(src)
            for k, x in st.store.items():
                if k[:L] == src:
                    n.store[dst + k[L:]] = Obj(dst + x.loc[L:]) if isinstance(x, Obj) and x.loc[:L] == src else x
                elif len(k) > 1 and k[1] == key and str(k[0]).startswith("L:"):
                    continue
                else:
                    n.store[k] = x
            return n, Obj(dst)
        n = State({k: x for k, x in st.store.items() if not (len(k) > 1 and k[1] == key and isinstance(k[0], str) and k[0].startswith("L:"))}, st.facts, st.epochs)
        return n, v

    def ctor_init(self, ini, st, fr):
        if not ini.get("e"):
            return [st]
        out = []
        if "f" in ini:
            loc = fr.this + ("f:" + ini["f"],)
            e = ini["e"]
            ft = self.field_type(fr, ini["f"])
            if ft is not None and ft["k"] == "ref":
                for s, l in self.lv(e, st, fr):
                    out.append(s.set(loc, Ptr(l)))
                return out
            for s, v in self.ev(e, st, fr):
                t = ft or self.T(e["t"])
                if self.is_num(t) and isinstance(v, (Num, Bool)):
                    v = self.convert(s, v, t) if t["k"] != "bool" else v
                s2, _ = self.assign(s, loc, v, t, e, fr)
                out.append(s2)
            return out
        e = ini["e"]
        if e["k"] == "Ctor" and e["fn"] in self.p.funs:
            f = self.p.funs[e["fn"]]
            d = f["decl"]
            for s, argv in self.args(e["args"], d["p"], st, fr):
                out += [s2 for s2, _ in self.inline(f, s, fr, fr.this, argv, e)]
            return out
        for s, v in self.ev(e, st, fr):
            out.append(s)
        return out

    def field_type(self, fr, fid):
        for r in self.p.recs.values():
            pass
        c = getattr(self, "_ftc", None)
        if c is None:
            c = self._ftc = {}
            for r in self.p.recs.values():
                for f in r.get("f", []):
                    c.setdefault(f["id"], f["t"])
        # prefer the record of the constructor being run (template instantiations share field ids)
        r = self.p.recs.get(fr.fn["decl"].get("cls"))
        if r:
            for f in r.get("f", []):
                if f["id"] == fid:
                    return self.T(f["t"])
        return self.T(c[fid]) if fid in c else None

    def havoc_args(self, st, argv, d, e):
        ps = d["p"] if d else []
        for i, (kind, v) in enumerate(argv):
            pt = self.T(ps[i]) if i < len(ps) else None
            if kind == "ref":
                if pt is not None and self.T(pt["to"]).get("const"):
                    continue
                st = self.havoc(st, v)
            elif isinstance(v, Ptr) and v.reg != NULLREG:
                if pt is not None and pt["k"] == "ptr" and self.T(pt["to"]).get("const"):
                    continue
                keep = {k: x for k, x in st.store.items() if k[:len(v.reg)] == v.reg and k[-1] == "#bytes"}
                st = self.havoc(st, v.reg)
                st.store.update(keep)
            elif isinstance(v, Clo):
                for cid, loc in v.caps.items():
                    st = self.havoc(st, loc)
        return st

    def call_unknown(self, e, d, st, fr, obj, argv):
        self.unknown_calls[d["q"]] = self.unknown_calls.get(d["q"], 0) + 1
        st = self.havoc_args(st, argv, d, e)
        if obj is not None and not d.get("const") and not d.get("static"):
            st = self.havoc(st, obj)
        if d.get("noreturn"):
            return []
        tg = set()
        for kind, v in argv:
            if kind == "val":
                tg |= self.tags_of(v)
        rt = self.T(d["r"])
        if rt["k"] == "void":
            return [(st, VOID)]
        if rt["k"] == "ref":
            return [(st, self.ref_result(st, e, rt, d, obj))]
        return [(st, self.unknown(st, rt, d["n"] or "call", tg))]

    def ref_result(self, st, e, rt, d, obj):
        to = self.T(rt["to"])
        loc = (obj + ("ret:" + d["n"],)) if obj is not None else ("H:%s%d" % (d["n"], next(self.ctr)),)
        if to["k"] in ("rec", "array"):
            return Obj(loc)
        return Ptr(loc)

    # a call returning a reference yields Ptr/Obj; reading it as an r-value must load
    def call_rvalue(self, st, v, e):
        return v

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """(states where e is true, states where e is false)"""
        k = e["k"]
        if "cv" in e and k not in ("Call", "Asg"):
            return ([st], []) if int(e["cv"]) else ([], [st])
        if k == "Bin" and e["op"] in ("&&", "||"):
            tr, fa = self.cond(e["a"], st, fr)
            if e["op"] == "&&":
                T2, F2 = [], list(fa)
                for s in tr:
                    a, b = self.cond(e["b"], s, fr)
                    T2 += a
                    F2 += b
                return T2, F2
            T2, F2 = list(tr), []
            for s in fa:
                a, b = self.cond(e["b"], s, fr)
                T2 += a
                F2 += b
            return T2, F2
        if k == "Un" and e["op"] == "!":
            tr, fa = self.cond(e["s"], st, fr)
            return fa, tr
        if k == "Cast" and e["ck"] in ("IntegralToBoolean", "LValueToRValue", "NoOp", "UserDefinedConversion") and not e.get("lv") and self.T(e["t"])["k"] == "bool" and e["s"]["k"] in ("Bin", "Un", "Cast") and self.T(e["s"]["t"])["k"] == "bool":
            return self.cond(e["s"], st, fr)
        T2, F2 = [], []
        for s, v in self.ev_r(e, st, fr):
            f = self.truth(s, v)
            for x in self.assume(s, f):
                x = self.on_branch(x, fr, e, True)
                if x is not None:
                    T2.append(x)
            for x in self.assume(s, neg(f)):
                x = self.on_branch(x, fr, e, False)
                if x is not None:
                    F2.append(x)
        return T2, F2

    def ev_r(self, e, st, fr):
        """Evaluate as an r-value: references returned by calls are loaded."""
        out = []
        for s, v in self.ev(e, st, fr):
            out.append((s, self.deref_call(s, v, e)))
        return out

    def deref_call(self, st, v, e):
        if e["k"] == "Call" and e.get("lv") and isinstance(v, Ptr):
            t = self.T(e["t"])
            if t["k"] != "ptr" or "fn" in e and self.T(self.p.fdecls[e["fn"]]["r"])["k"] == "ref":
                return self.load(st, self.deref(st, v, e["t"], e, None), t)
        return v

    # ------------------------------------------------------------------ statements
    def limit(self, sts):
        if len(sts) <= self.max_states:
            return self.dedupe(sts)
        sts = self.dedupe(sts)
        if len(sts) <= self.max_states:
            return sts
        # merge states with the same partition key
        groups = {}
        for s in sts:
            groups.setdefault(self.partition(s), []).append(s)
        out = []
        per = max(1, self.max_states // max(1, len(groups)))
        for g in groups.values():
            while len(g) > per:
                a, b = g.pop(), g.pop()
                g.insert(0, self.join(a, b))
            out += g
        return out

    def partition(self, st):
        return ()

    def dedupe(self, sts):
        out = []
        for s in sts:
            for o in out:
                if o is s or (o.store == s.store and o.facts == s.facts):
                    break
            else:
                out.append(s)
        return out

    def limit_pairs(self, prs):
        if len(prs) <= self.max_states:
            return prs
        groups = {}
        for s, v in prs:
            groups.setdefault((self.partition(s), self.vkey(v) if not isinstance(v, (Obj, Num)) or (isinstance(v, Num) and v.l.is_const()) else type(v).__name__), []).append((s, v))
        out = []
        per = max(1, self.max_states // max(1, len(groups)))
        for g in groups.values():
            while len(g) > per:
                (a, va), (b, vb) = g.pop(), g.pop()
                rl = ("R:%d" % next(self.ctr),)
                if isinstance(va, Obj) and isinstance(vb, Obj):
                    if va != vb:
                        a = self.copy_obj(a, va.loc, rl, {"k": "other"})
                        b = self.copy_obj(b, vb.loc, rl, {"k": "other"})
                        g.insert(0, (self.join(a, b), Obj(rl)))
                    else:
                        g.insert(0, (self.join(a, b), va))
                    continue
                j = self.join(a.set(rl, va), b.set(rl, vb))
                jv = j.store.pop(rl, None)
                if jv is None:
                    jv = Opq("j%d" % next(self.ctr))
                g.insert(0, (j, jv))
            out += g
        return out

    def join(self, a, b):
        """Upper bound of two states."""
        store = {}
        ea, eb = a.facts, b.facts
        epochs = dict(a.epochs)
        for k, v in b.epochs.items():
            if epochs.get(k) != v:
                epochs[k] = next(self.ctr) + 1
        for k in a.epochs:
            if k not in b.epochs:
                epochs[k] = next(self.ctr) + 1
        pairs = []
        for k in set(a.store) | set(b.store):
            va, vb = a.store.get(k), b.store.get(k)
            if va is None or vb is None:
                o = va if va is not None else vb
                x = a if va is None else b
                # absent means "lazily initial": equal if the other side's value is the default symbol
                if isinstance(o, Num) and o.l.t and len(o.l.t) == 1 and o.l.c == 0 and next(iter(o.l.t)) == locstr_u(k) and self.epoch(x, k) == 0:
                    store[k] = o
                elif isinstance(o, (Ptr,)) and o.reg[:len(k)] == k and self.epoch(x, k) == 0 and o.off == Lin(0):
                    store[k] = o
                elif k and k[-1] == "#bytes":
                    store[k] = o
                elif isinstance(o, Num) and self.epoch(x, k) == 0 and not (isinstance(k[0], str) and k[0][:2] in ("L:", "T:", "R:", "C:")):
                    d = self.named(locstr_u(k), *self.num_range(o))
                    if va is None:
                        pairs.append((k, d, vb.l))
                    else:
                        pairs.append((k, va.l, d))
                else:
                    # unknown on one side: forget by bumping its epoch
                    epochs[k] = next(self.ctr) + 1
                continue
            if va == vb:
                store[k] = va
            elif isinstance(va, (Num, Bool)) and isinstance(vb, (Num, Bool)):
                pairs.append((k, self.as_lin(a, va), self.as_lin(b, vb)))
                # bind lazily kept conditions
            elif isinstance(va, Ptr) and isinstance(vb, Ptr):
                if va.reg == vb.reg or va.reg == NULLREG or vb.reg == NULLREG:
                    reg = va.reg if va.reg != NULLREG else vb.reg
                    off = va.off if va.reg != NULLREG else vb.off
                    if va.reg != NULLREG and vb.reg != NULLREG and va.off != vb.off:
                        off = self.fresh("off", None, None)
                        pairs.append((None, va.off, vb.off, off))
                    null = va.null
                    if va.null != vb.null:
                        null = self.fresh("null", 0, 1)
                        pairs.append((None, va.null, vb.null, null))
                    store[k] = Ptr(reg, off, null)
                else:
                    reg = ("H:join%d" % next(self.ctr),)
                    if va.reg[-1] == "[]":
                        reg = reg + ("[]",)
                    null = self.fresh("null", 0, 1)
                    pairs.append((None, va.null, vb.null, null))
                    store[k] = Ptr(reg, Lin(0), null)
            elif isinstance(va, Opq) or isinstance(vb, Opq):
                o = Opq("join%d" % next(self.ctr))
                tg = self.tags_of(va) | self.tags_of(vb)
                if tg:
                    self.tags[o.s] = tg
                store[k] = o
            elif isinstance(va, Obj) or isinstance(vb, Obj):
                epochs[k] = next(self.ctr) + 1
            else:
                epochs[k] = next(self.ctr) + 1
        defs_a, defs_b, new = [], [], []
        cache = {}
        for pr in pairs:
            k, la, lb = pr[0], pr[1], pr[2]
            if len(pr) == 4:
                s = pr[3]
            else:
                if (la, lb) in cache:
                    store[k] = Num(cache[(la, lb)])
                    continue
                d = la - lb
                lo, hi = None, None
                ra, rb = self.lin_range(a, la), self.lin_range(b, lb)
                if ra[0] is not None and rb[0] is not None:
                    lo = min(ra[0], rb[0])
                if ra[1] is not None and rb[1] is not None:
                    hi = max(ra[1], rb[1])
                s = self.fresh("j:" + locstr(k), lo, hi, self.tags_of(Num(la)) | self.tags_of(Num(lb)))
                cache[(la, lb)] = s
                store[k] = Num(s)
            defs_a.append(s - la)
            defs_b.append(s - lb)
            new.append(s)
        fa, fb = ea, eb
        for d in defs_a:
            fa = fa.with_eq(d)
        for d in defs_b:
            fb = fb.with_eq(d)
        # candidate facts
        cand_le, cand_eq = [], []
        for src in (fa, fb):
            for e in src.eqs:
                cand_eq.append(e)
            for l in src.les:
                cand_le.append(l)
        # facts about the new symbols obtained by substituting la -> s when la is a single symbol
        for pr, s in zip([p for p in pairs], new):
            pass
        for src, defs in ((ea, [(p[1], n) for p, n in zip(self._pairs_new(pairs), new)]), (eb, [(p[2], n) for p, n in zip(self._pairs_new(pairs), new)])):
            subs = {}
            for l, n in defs:
                if len(l.t) == 1 and abs(next(iter(l.t.values()))) == 1:
                    s0 = next(iter(l.t))
                    k0 = l.t[s0]
                    # s0 = (n - c)/k0
                    subs[s0] = (n - l.c).scale(k0)
            if subs:
                for l in src.les:
                    x = l.subst(subs)
                    if x != l:
                        cand_le.append(x)
                for l in src.eqs:
                    x = l.subst(subs)
                    if x != l:
                        cand_eq.append(x)
        for i, (x, pa) in enumerate(zip(new, self._pairs_new(pairs))):
            la, lb = pa[1], pa[2]
            for l in (la, lb):
                cand_le.append(x - l)
                cand_le.append(l - x)
            for y, pb in list(zip(new, self._pairs_new(pairs)))[i + 1:]:
                # common difference or sum
                d1 = (pa[1] - pb[1]) - (pa[2] - pb[2])
                if not d1.t and d1.c == 0:
                    cand_eq.append((x - y) - (pa[1] - pb[1]))
                d2 = (pa[1] + pb[1]) - (pa[2] + pb[2])
                if not d2.t and d2.c == 0:
                    cand_eq.append((x + y) - (pa[1] + pb[1]))
        f = Facts()
        seen = set()
        for e in cand_eq:
            if e in seen or not e.t:
                continue
            seen.add(e)
            if entails_eq(fa, e, self.rg) and entails_eq(fb, e, self.rg):
                f = f.with_eq(e)
            else:
                cand_le.append(e)
                cand_le.append(-e)
        seen = set()
        for l in cand_le:
            if l in seen or not l.t:
                continue
            seen.add(l)
            if entails_le(fa, l, self.rg) and entails_le(fb, l, self.rg):
                f = f.with_le(l)
        for d in ea.nes:
            if self.decide(b, ("ne", d)):
                f = f.with_ne(d)
        for d in eb.nes:
            if self.decide(a, ("ne", d)):
                f = f.with_ne(d)
        return State(store, f, epochs)

    def _pairs_new(self, pairs):
        seen = {}
        out = []
        for p in pairs:
            if len(p) == 3:
                if (p[1], p[2]) in seen:
                    continue
                seen[(p[1], p[2])] = 1
            out.append(p)
        return out

    def num_range(self, v):
        lo = hi = None
        if isinstance(v, Num) and len(v.l.t) == 1 and v.l.c == 0:
            return self.rg.get(next(iter(v.l.t)))
        return None, None

    def lin_range(self, st, l):
        lo = hi = l.c
        for s, k in l.t.items():
            a, b = self.rg.get(s)
            x, y = (a, b) if k > 0 else (b, a)
            lo = None if lo is None or x is None else lo + k * x
            hi = None if hi is None or y is None else hi + k * y
        return lo, hi

    def ex(self, s, sts, fr, out):
        """Execute statement s from the given states; abnormal outcomes go to `out`; returns normal states."""
        if s is None or not sts:
            return sts
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise AnalysisError("statement kind %s not supported (%s:%s)" % (s["k"], fr.fn["file"], s.get("l")))
        return m(s, sts, fr, out)

    def s_Block(self, s, sts, fr, out):
        for c in s["b"]:
            if not sts:
                break
            sts = self.ex(c, sts, fr, out)
            sts = self.limit(sts)
        return sts

    def s_Nop(self, s, sts, fr, out):
        return sts

    def s_Label(self, s, sts, fr, out):
        return self.ex(s["s"], sts, fr, out)

    def s_OtherStmt(self, s, sts, fr, out):
        return sts

    def s_Expr(self, s, sts, fr, out):
        r = []
        for st in sts:
            r += [x for x, _ in self.ev(s["e"], st, fr)]
        return r

    def s_Decl(self, s, sts, fr, out):
        for v in s["v"]:
            sts = self.decl(v, sts, fr)
        return sts

    def decl(self, v, sts, fr):
        r = []
        t = self.T(v["t"])
        loc = ("L:" + v["id"], fr.key)
        if v.get("static"):
            return sts
        for st in sts:
            st = State({k: x for k, x in st.store.items() if k[:2] != loc}, st.facts, st.epochs)
            if self.writes is not None:
                for w in self.writes:
                    w.add(loc)
            if t["k"] == "array":
                st.store[loc + ("[]", "#bytes")] = Num(self.sizeof(t) or 0)
            if t["k"] == "rec":
                st = self.mod.declare(self, st, loc, t)
            if v.get("init") is None:
                if t["k"] not in ("rec", "array"):
                    st.store[loc] = self.unknown(st, t, "uninit:" + v["n"])
                else:
                    # unique content per declaration execution
                    st.epochs = dict(st.epochs)
                    st.epochs[loc] = next(self.ctr) + 1
                    r0 = self.p.recs.get(t.get("rec"))
                r.append(st)
                continue
            if t["k"] == "ref":
                for s2, l2 in self.lv(v["init"], st, fr):
                    s2 = s2.set(loc, self.ptr_to(l2))
                    r.append(s2)
            else:
                for s2, val in self.ev_r(v["init"], st, fr):
                    if isinstance(val, Obj):
                        s2 = self.copy_obj(s2, val.loc, loc, t) if t["k"] in ("rec", "array") else s2.set(loc, val)
                        if t["k"] == "array":
                            s2.store[loc + ("[]", "#bytes")] = Num(self.sizeof(t) or 0)
                    else:
                        if self.is_num(t) and isinstance(val, Num) and t["k"] != "bool":
                            pass
                        s2 = s2.set(loc, val)
                    s2 = self.on_assign(s2, fr, v, loc, val)
                    r.append(s2)
        if v.get("bind"):
            for b in v["bind"]:
                if b.get("hv"):
                    r = self.decl(b["hv"], r, fr)
        return r

    def s_If(self, s, sts, fr, out):
        if s.get("init"):
            sts = self.ex(s["init"], sts, fr, out)
        if s.get("cv"):
            sts = self.decl(s["cv"], sts, fr)
        tr, fa = [], []
        for st in sts:
            a, b = self.cond(s["c"], st, fr)
            tr += a
            fa += b
        tr, fa = self.limit(tr), self.limit(fa)
        r = self.ex(s["a"], tr, fr, out)
        r = r + (self.ex(s["b"], fa, fr, out) if s.get("b") else fa)
        return self.limit(r)

    def s_Return(self, s, sts, fr, out):
        d = fr.fn["decl"]
        rt = self.T(d["r"])
        for st in sts:
            if s.get("e") is None:
                st2 = self.on_return(st, fr, s, VOID)
                out.ret.append((st2, VOID))
                continue
            if rt["k"] == "ref":
                for s2, loc in self.lv(s["e"], st, fr):
                    to = self.T(rt["to"])
                    v = Obj(loc) if to["k"] in ("rec", "array") else self.ptr_to(loc)
                    s2 = self.on_return(s2, fr, s, v)
                    out.ret.append((s2, v))
            else:
                for s2, v in self.ev_r(s["e"], st, fr):
                    s2 = self.on_return(s2, fr, s, v)
                    out.ret.append((s2, v))
        return []

    def s_Break(self, s, sts, fr, out):
        out.brk += sts
        return []

    def s_Continue(self, s, sts, fr, out):
        out.cont += sts
        return []

    def s_Try(self, s, sts, fr, out):
        saved = self.thrown
        self.thrown = []
        w = set()
        if self.writes is None:
            self.writes = []
        self.writes.append(w)
        res = self.ex(s["b"], sts, fr, out)
        self.writes.pop()
        if not self.writes:
            self.writes = None
        thrown = self.thrown
        self.thrown = saved
        # handler entry: explicit throws, plus "anything inside may have thrown": the pre-state with all writes forgotten
        hs = [st for st, _ in thrown]
        for st in sts:
            x = State(dict(st.store), st.facts, dict(st.epochs))
            for loc in w:
                if loc[-1] == "#all":
                    loc = loc[:-1]
                x = State({k: v for k, v in x.store.items() if k[:len(loc)] != loc}, x.facts, dict(x.epochs))
                x.epochs[loc] = next(self.ctr) + 1
            hs.append(x)
        hs = self.limit(hs)
        for h in s["h"]:
            hin = hs
            if h.get("v"):
                hin = [x.set(("L:" + h["v"]["id"], fr.key), Ptr(("H:exc%d" % next(self.ctr),))) for x in hs]
            hin = [y for y in (self.on_catch(x, fr, h) for x in hin) if y is not None]
            res = res + self.ex(h["b"], hin, fr, out)
        return self.limit(res)

    def on_catch(self, st, fr, h):
        return st

    def s_Switch(self, s, sts, fr, out):
        if s.get("init"):
            sts = self.ex(s["init"], sts, fr, out)
        if s.get("cv"):
            sts = self.decl(s["cv"], sts, fr)
        # linearise: list of (labels, stmt)
        items = []

        def flat(x, labels):
            while x is not None and x["k"] in ("Case", "Default", "Label"):
                if x["k"] == "Case":
                    labels = labels + [("case", int(x["lo"]["cv"]) if "cv" in x["lo"] else None, int(x["hi"]["cv"]) if x.get("hi") else None)]
                elif x["k"] == "Default":
                    labels = labels + [("default",)]
                x = x["s"]
            items.append((labels, x))

        body = s["b"]
        for c in (body["b"] if body["k"] == "Block" else [body]):
            flat(c, [])
        allcases = [l for ls, _ in items for l in ls if l[0] == "case"]
        o = Out()
        # entry states per item
        entry = [[] for _ in items]
        nomatch = []
        hasdef = any(l[0] == "default" for ls, _ in items for l in ls)
        for st in sts:
            for s2, v in self.ev_r(s["c"], st, fr):
                l = self.as_lin(s2, v)
                rest = [s2]
                for i, (ls, _) in enumerate(items):
                    for lab in ls:
                        if lab[0] != "case":
                            continue
                        if lab[2] is None:
                            f = ("eq", l - lab[1])
                        else:
                            f = ("and", ("le", Lin(lab[1]) - l), ("le", l - lab[2]))
                        nrest = []
                        for x in rest:
                            for y in self.assume(x, f):
                                y = self.on_case(y, fr, s, lab[1])
                                if y is not None:
                                    entry[i].append(y)
                            nrest += self.assume(x, neg(f))
                        rest = nrest
                # range of enum: rest may be infeasible
                rest = [x for x in rest]
                if hasdef:
                    for i, (ls, _) in enumerate(items):
                        if any(lab[0] == "default" for lab in ls):
                            entry[i] += rest
                else:
                    nomatch += rest
        cur = []
        for i, (ls, stmt) in enumerate(items):
            cur = self.limit(cur + entry[i])
            if stmt is not None and cur:
                cur = self.ex(stmt, cur, fr, o)
        res = cur + nomatch + o.brk
        out.cont += o.cont
        out.ret += o.ret
        return self.limit(res)

    def on_case(self, st, fr, node, val):
        return st

    # ------------------------------------------------------------------ loops
    def s_While(self, s, sts, fr, out):
        return self.loop(s, sts, fr, out, pre=s.get("cv"), cond=s["c"], inc=None, body=s["b"], dowhile=False)

    def s_Do(self, s, sts, fr, out):
        return self.loop(s, sts, fr, out, pre=None, cond=s["c"], inc=None, body=s["b"], dowhile=True)

    def s_For(self, s, sts, fr, out):
        if s.get("init"):
            sts = self.ex(s["init"], sts, fr, out)
        return self.loop(s, sts, fr, out, pre=s.get("cv"), cond=s.get("c"), inc=s.get("inc"), body=s["b"], dowhile=False)

    def s_RFor(self, s, sts, fr, out):
        if s.get("init"):
            sts = self.ex(s["init"], sts, fr, out)
        r = []
        for st in sts:
            r += self.mod.range_for(self, s, st, fr, out)
        return self.limit(r)

    def try_unroll(self, s, st, fr, out, pre, cond, inc, body, dowhile):
        """Unroll while every head test is decided. Returns exit states or None."""
        self.quiet += 1
        mark = (dict(self.obl), self.steps)
        cur = [st]
        ok = True
        n = 0
        probe = cur
        # probing pass: only the control
        self.quiet -= 1
        exits = []
        o = Out()
        first = dowhile
        while True:
            nxt = []
            for x in cur:
                if first:
                    nxt.append(x)
                    continue
                xs = self.decl(pre, [x], fr) if pre else [x]
                for y in xs:
                    tr, fa = self.cond(cond, y, fr) if cond else ([y], [])
                    if tr and fa and not self.fork_unroll:
                        return None
                    exits += fa
                    nxt += tr
            first = False
            if not nxt:
                break
            n += 1
            if n > self.unroll or len(nxt) > self.max_states:
                return None
            oo = Out()
            res = self.ex(body, nxt, fr, oo)
            exits += oo.brk
            o.ret += oo.ret
            res = res + oo.cont
            if inc:
                res = [y for x in res for y, _ in self.ev(inc, x, fr)]
            cur = self.limit(res)
            if not cur:
                break
        out.ret += o.ret
        return exits

    def loop(self, s, sts, fr, out, pre, cond, inc, body, dowhile):
        exits = []
        pend = []
        for st in sts:
            if self.head_decidable(cond, st, fr) and not dowhile:
                saved = ({k: list(v) for k, v in self.obl.items()}, list(self.thrown))
                o2 = Out()
                r = self.try_unroll(s, st, fr, o2, pre, cond, inc, body, dowhile)
                if r is not None:
                    exits += r
                    out.ret += o2.ret
                    continue
                self.obl, self.thrown = saved
            pend.append(st)
        if pend:
            pend = self.limit_to(pend, 4)
            for st in pend:
                exits += self.loop_inv(s, st, fr, out, pre, cond, inc, body, dowhile)
        return self.limit(exits)

    def limit_to(self, sts, n):
        sts = self.dedupe(sts)
        groups = {}
        for s in sts:
            groups.setdefault(self.partition(s), []).append(s)
        out = []
        per = max(1, n // max(1, len(groups)))
        for g in groups.values():
            while len(g) > per:
                a, b = g.pop(), g.pop()
                g.insert(0, self.join(a, b))
            out += g
        return out

    def head_decidable(self, cond, st, fr):
        if cond is None:
            return False
        if "cv" in cond:
            return False
        if self.fork_unroll:
            return True
        self.quiet += 1
        try:
            sv = self.thrown
            self.thrown = []
            tr, fa = self.cond(cond, st, fr)
            self.thrown = sv
        finally:
            self.quiet -= 1
        if bool(tr) == bool(fa):
            return False
        if not tr:
            return True
        # only unroll when the condition compares against a constant or a small known difference
        return self.unrollable(cond, st, fr)

    def unrollable(self, cond, st, fr):
        if cond["k"] == "Bin" and cond["op"] in ("<", "<=", ">", ">=", "!="):
            self.quiet += 1
            try:
                for s, a in self.ev(cond["a"], st, fr):
                    for s2, b in self.ev(cond["b"], s, fr):
                        if isinstance(a, Num) and isinstance(b, Num):
                            d = a.l - b.l
                            return d.is_const() and abs(d.c) <= self.unroll
                        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg:
                            d = a.off - b.off
                            return d.is_const() and abs(d.c) <= self.unroll * 8
            finally:
                self.quiet -= 1
        return False

    def run_iter(self, heads, fr, pre, cond, inc, body, skipcond=False):
        """One iteration from head states: (exit states, back-edge states, Out)"""
        o = Out()
        tr, fa = [], []
        if skipcond:
            tr = heads
        else:
            for h in heads:
                xs = self.decl(pre, [h], fr) if pre else [h]
                for y in xs:
                    a, b = self.cond(cond, y, fr) if cond else ([y], [])
                    tr += a
                    fa += b
        tr = self.limit(tr)
        res = self.ex(body, tr, fr, o)
        res = res + o.cont
        if inc:
            r2 = []
            for x in res:
                r2 += [y for y, _ in self.ev(inc, x, fr)]
            res = r2
        return fa, self.limit(res), o

    def loop_inv(self, s, st, fr, out, pre, cond, inc, body, dowhile):
        # for do-while: head is the body start; the condition is tested at the back edge
        if dowhile:
            def iterate(heads):
                _, back, o = self.run_iter(heads, fr, None, None, inc, body, True)
                tr, fa = [], []
                for b in back:
                    t1, f1 = self.cond(cond, b, fr)
                    tr += t1
                    fa += f1
                return fa, self.limit(tr), o
        else:
            def iterate(heads):
                return self.run_iter(heads, fr, pre, cond, inc, body)
        return self.generic_loop(s, st, fr, out, iterate, cond)

    def generic_loop(self, s, st, fr, out, iterate, cond):
        """iterate(heads) -> (states leaving at the loop test, back-edge states, Out)"""
        self.quiet += 1
        saved_thrown = self.thrown
        try:
            mod = set()
            # 1. modified locations
            for rnd in range(12):
                head, hs = self.havoc_head(st, mod)
                w = set()
                if self.writes is None:
                    self.writes = []
                self.writes.append(w)
                self.thrown = []
                try:
                    fa, back, o = iterate([head])
                finally:
                    self.writes.pop()
                    if not self.writes:
                        self.writes = None
                nm = {l for l in w if not (isinstance(l[0], str) and l[0][:2] in ("T:", "R:", "C:"))}
                # locals declared inside the body are dead at the head
                if nm <= mod:
                    break
                mod |= nm
            else:
                raise Limit("loop effect does not stabilise at %s:%s" % (fr.fn["file"], s.get("l")))
            # 2. candidate invariants over numeric havocked locations
            head, hs = self.havoc_head(st, mod)
            cands = self.candidates(st, head, hs, back, cond, fr)
            for rnd in range(30):
                f = head.facts
                for c in cands:
                    f = f.with_le(c)
                h2 = State(dict(head.store), f, head.epochs)
                self.thrown = []
                fa, back, o = iterate([h2])
                keep = []
                for c in cands:
                    ok = True
                    for b in back:
                        m = self.back_subst(head, b, hs)
                        if any((x in m and m[x] is None) for x in c.t):
                            ok = False
                            break
                        cc = c.subst({k: v for k, v in m.items() if v is not None})
                        if not entails_le(b.facts, cc, self.rg):
                            ok = False
                            break
                    if ok:
                        keep.append(c)
                if len(keep) == len(cands):
                    break
                cands = keep
            else:
                cands = []
        finally:
            self.quiet -= 1
            self.thrown = saved_thrown
        # 3. final recorded pass
        f = head.facts
        for c in cands:
            f = f.with_le(c)
        h2 = State(dict(head.store), f, head.epochs)
        if self.writes is not None:
            for w in self.writes:
                w |= mod
        fa, back, o = iterate([h2])
        exits = fa + o.brk
        out.ret += o.ret
        self.on_loop(s, st, h2, back, exits, fr)
        return self.limit(exits)

    def on_loop(self, s, entry, head, back, exits, fr):
        pass

    def havoc_head(self, st, mod):
        """Head state with the modified locations unknown; hs maps fresh symbol -> (loc, entry Lin)."""
        n = State(dict(st.store), st.facts, dict(st.epochs))
        hs = {}
        for loc in sorted((l for l in mod), key=lambda l: (l[-1] != "#all", str(l))):
            if loc[-1] == "#all":
                base = loc[:-1]
                old = {k: v for k, v in n.store.items() if k[:len(base)] == base}
                for k in old:
                    if k[-1] != "#bytes":
                        del n.store[k]
                n.epochs[base] = next(self.ctr) + 1
                continue
            v = st.store.get(loc)
            for k in [k for k in n.store if k[:len(loc)] == loc and k[-1] != "#bytes"]:
                if len(k) > len(loc) and loc[-1] == "#p" and k[len(loc)][:1] == "*" and k[len(loc)][1:].isdigit():
                    continue        # the object pointed to outlives the pointer's value
                del n.store[k]
            if loc[-1] == "[*]":
                b = loc[:-1]
                for k in [k for k in n.store if k[:len(b)] == b and k[-1] != "#bytes"]:
                    del n.store[k]
                n.epochs[b] = next(self.ctr) + 1
                continue
            if isinstance(v, Num):
                lo, hi = self.guess_range(st, v, loc)
                s = self.fresh("h:" + locstr(loc), lo, hi, self.tags_of(v))
                n.store[loc] = Num(s)
                hs[next(iter(s.t))] = (loc, v.l, "num")
            elif isinstance(v, Bool):
                s = self.fresh("h:" + locstr(loc), 0, 1, self.tags_of(v))
                n.store[loc] = Num(s)
                hs[next(iter(s.t))] = (loc, self.as_lin(st, v), "num")
            elif isinstance(v, Ptr) and v.reg != NULLREG:
                s = self.fresh("ho:" + locstr(loc), None, None)
                n.store[loc] = Ptr(v.reg, s, v.null)
                hs[next(iter(s.t))] = (loc, v.off, "off")
            else:
                n.epochs[loc] = next(self.ctr) + 1
        return n, hs

    def guess_range(self, st, v, loc):
        """Type range of the location (kept from the declared type recorded in loctypes when known)."""
        t = self.loc_type(loc)
        if t is not None and self.is_num(t):
            return self.range_of(t)
        return None, None

    def loc_type(self, loc):
        for sel in reversed(loc):
            if isinstance(sel, str) and sel.startswith("f:"):
                c = getattr(self, "_ftc", None)
                if c is None:
                    self.field_type(Frame({"decl": {}}, (), 0, ""), "")
                    c = self._ftc
                if sel[2:] in c and sel == loc[-1]:
                    return self.T(c[sel[2:]])
                break
            if isinstance(sel, str) and sel.startswith("L:"):
                if sel == loc[0] and len(loc) == 2:
                    c = self.local_types()
                    return self.T(c[sel[2:]]) if sel[2:] in c else None
                break
        if loc and loc[-1] in ("#n", "#size"):
            return {"k": "int", "u": 1, "w": 64, "s": "size_t"}
        return None

    def local_types(self):
        c = getattr(self, "_ltc", None)
        if c is None:
            c = self._ltc = {}
            for f in self.p.funs.values():
                for x in f["params"]:
                    t = self.T(x["t"])
                    if t["k"] != "ref":
                        c[x["id"]] = x["t"]
                for n in walk(f["body"]):
                    if n["k"] == "Decl":
                        for v in n["v"]:
                            if self.T(v["t"])["k"] not in ("ref", "dep"):
                                c[v["id"]] = v["t"]
        return c

    def back_subst(self, head, b, hs):
        m = {}
        for s, (loc, e, kind) in hs.items():
            v = b.store.get(loc)
            if kind == "num" and isinstance(v, (Num, Bool)):
                m[s] = self.as_lin(b, v)
            elif kind == "off" and isinstance(v, Ptr) and v.reg == head.store[loc].reg:
                m[s] = v.off
            elif v is None and kind == "num":
                m[s] = None
            else:
                m[s] = None
        return m

    def candidates(self, st, head, hs, back, cond, fr):
        """Candidate linear invariants (each Lin <= 0), all true on entry."""
        out = []
        items = list(hs.items())

        def add(l):
            if l.t and l not in seen:
                seen.add(l)
                if entails_le(self.entry_facts(st), self.to_entry(l, hs), self.rg):
                    out.append(l)
        seen = set()
        for s, (loc, e, kind) in items:
            x = Lin.sym(s)
            add(x - e)
            add(e - x)
            if kind == "num":
                add(-x)
        # pairwise conserved sums/differences (also scaled, from observed per-iteration deltas)
        ds = []
        for b in back[:1]:
            pass
        for (s, (loc, e, k)), (s2, (loc2, e2, k2)) in itertools.combinations(items, 2):
            x, y = Lin.sym(s), Lin.sym(s2)
            for ka, kb in ((1, 1), (1, -1)) + self.extra_ratios():
                l = (x - e).scale(ka) + (y - e2).scale(kb)
                add(l)
                add(-l)
            add(x - y)
            add(y - x)
        # facts at entry with entry symbols generalised
        subs = {}
        for s, (loc, e, kind) in items:
            if len(e.t) == 1 and abs(next(iter(e.t.values()))) == 1:
                s0 = next(iter(e.t))
                subs[s0] = (Lin.sym(s) - e.c).scale(e.t[s0])
        if subs:
            for l in st.facts.les:
                x = l.subst(subs)
                if x != l:
                    add(x)
            for l in st.facts.eqs:
                x = l.subst(subs)
                if x != l:
                    add(x)
                    add(-x)
        # bounds from comparisons in the loop condition
        if cond is not None:
            self.quiet += 1
            try:
                for c in self.cond_atoms(cond):
                    try:
                        for s1, a in self.ev(c["a"], head, fr)[:1]:
                            for s2, b in self.ev(c["b"], s1, fr)[:1]:
                                f = self.compare(s2, c["op"], a, b)
                                if f[0] == "le":
                                    add(f[1] - 1)
                                    add(f[1])
                                    add((-f[1]))
                                    add((-f[1]) + 1)
                                elif f[0] in ("eq", "ne"):
                                    add(f[1])
                                    add(-f[1])
                    except AnalysisError:
                        raise
            finally:
                self.quiet -= 1
        # numeric relations with other stored values at entry
        for l in self.extra_candidates(st, head, hs, fr):
            add(l)
        return out

    def extra_ratios(self):
        return ()

    def extra_candidates(self, st, head, hs, fr):
        return []

    def cond_atoms(self, c):
        if c["k"] == "Bin" and c["op"] in ("&&", "||"):
            return self.cond_atoms(c["a"]) + self.cond_atoms(c["b"])
        if c["k"] == "Un" and c["op"] == "!":
            return self.cond_atoms(c["s"])
        if c["k"] == "Cast":
            return self.cond_atoms(c["s"])
        if c["k"] == "Bin" and c["op"] in ("<", "<=", ">", ">=", "!=", "=="):
            return [c]
        return []

    def entry_facts(self, st):
        return st.facts

    def to_entry(self, l, hs):
        return l.subst({s: e for s, (loc, e, k) in hs.items()})

    # ------------------------------------------------------------------ entry point
    thrown = []

    def analyse(self, f, this, st, argv, key="top"):
        """Run function f from state st with bound arguments; returns [(state, value)]."""
        self.thrown = []
        self.visited_fns.add(f["id"])
        fr = Frame(f, this, 0, key, None)
        s = State(dict(st.store), st.facts, dict(st.epochs))
        for i, prm in enumerate(f["params"]):
            loc = ("L:" + prm["id"], key)
            if i < len(argv) and argv[i] is not None:
                v = argv[i]
                if isinstance(v, Obj) and self.T(prm["t"])["k"] == "ref":
                    v = Ptr(v.loc)
                s.store[loc] = v
        s = self.on_enter(s, fr)
        saved_key = fr.key
        o = Out()
        sts = [s]
        for ini in f.get("inits", []):
            sts = [y for x in sts for y in self.ctor_init(ini, x, fr)]
        o.normal = self.ex(f["body"], sts, fr, o)
        d = f["decl"]
        res = [(x, VOID) for x in o.normal] + o.ret
        return res


def locstr_u(l):
    return "|".join(str(x) for x in l)
