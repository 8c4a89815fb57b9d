"""Associative containers seen through one tracked key: present or absent, the value stored, and whether any other entry was touched."""
from .lin import Lin, entails_eq
from .engine import State, Num, Bool, Ptr, Obj, Opq, VOID, neg
from .program import AnalysisError
from .mem import Log
from .sets import SetEngine
from . import models

MAPQ = ("std::unordered_map", "std::map")
NODEIT = ("_Node_iterator", "_Node_const_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator", "_Node_iterator_base")


class MapEngine(SetEngine):
    def __init__(self, prog):
        super().__init__(prog)
        self.maps = {}      # loc -> (key type, value type)
        self.key = None     # scalar identity of the tracked key
        self.npairs = 0

    # the ghost state of the map at loc: loc+("#has",), loc+("#ent", <second>), loc+("#other",)
    def track(self, st, loc):
        h = self.named("has|" + str(loc[-1]), 0, 1)
        v = self.named("val|" + str(loc[-1]), 0, (1 << 64) - 2)
        st.store[loc + ("#has",)] = Num(h)
        st.store[loc + ("#ent", "#second")] = Num(v)
        st.store[loc + ("#other",)] = Log(())
        return h, v

    def other(self, st, loc, what):
        s = State(dict(st.store), st.facts, st.epochs)
        self.touchmap(loc)
        s.store[loc + ("#other",)] = Log(st.store[loc + ("#other",)].e + (what,))
        return s

    def touchmap(self, loc):
        if self.writes is not None:
            for w in self.writes:
                w.add(loc + ("#all",))

    def put(self, st, loc, has=None, val=None):
        s = State(dict(st.store), st.facts, st.epochs)
        self.touchmap(loc)
        if has is not None:
            s.store[loc + ("#has",)] = Num(has)
        if val is not None:
            s.store[loc + ("#ent", "#second")] = val
        return s

    def is_key(self, st, comps):
        return len(comps) == len(self.key) and all(entails_eq(st.facts, a - b, self.rg) for a, b in zip(comps, self.key))

    def has(self, st, loc):
        """[(state, present)]"""
        h = self.as_lin(st, st.store[loc + ("#has",)])
        if h.is_const():
            return [(st, h.c != 0)]
        return [(s, True) for s in self.assume(st, ("ne", h))] + [(s, False) for s in self.assume(st, ("eq", h))]

    def argkey(self, st, loc, argv, i=0):
        """The identity of the key passed as argument i."""
        k, v = argv[i]
        kt = self.strip(self.maps[loc][0])
        if self.is_num(kt):
            if k == "ref":
                v = self.load(st, v, kt)
            elif isinstance(v, (Ptr, Obj)):
                v = self.load(st, v.reg if isinstance(v, Ptr) else v.loc, kt)
            return (self.as_lin(st, v),)
        p = v if k == "ref" else v.loc
        return self.comps(st, p, kt)

    def it(self, loc, end):
        return Ptr(loc + ("#it",), Lin(1 if end else 0), Lin(0))

    def itloc(self, st, v):
        """The iterator value held at a place."""
        if isinstance(v, Ptr):
            return v
        x = st.store.get(v.loc if isinstance(v, Obj) else v)
        return x if isinstance(x, Ptr) else None

    def tmpit(self, st, p):
        loc = ("T:%d" % next(self.ctr),)
        st = State(dict(st.store), st.facts, st.epochs)
        st.store[loc] = p
        return st, Obj(loc)

    def pair(self, st, rec, first, second):
        loc = ("T:%d" % next(self.ctr),)
        st = State(dict(st.store), st.facts, st.epochs)
        st.store[loc + (models.rec_field(self, rec, "first"),)] = first
        st.store[loc + (models.rec_field(self, rec, "second"),)] = second
        return st, Obj(loc)

    def on_call(self, st, fr, e, d, obj, argv):
        q = models.norm(d["q"])
        if obj is not None and obj in self.maps and q.split("::")[1] in ("unordered_map", "map") and q.startswith("std::"):
            r = self.map_call(st, fr, e, d, d["n"], obj, argv)
            if r is not None:
                return r
            raise AnalysisError("operation %s on the tracked map" % d["n"])
        tail = q.split("::")
        if len(tail) > 1 and (tail[-2] in NODEIT or (obj is None and d["n"] in ("operator==", "operator!="))):
            r = self.it_call(st, fr, e, d, tail, obj, argv)
            if r is not None:
                return r
        return super().on_call(st, fr, e, d, obj, argv)

    def on_construct(self, st, fr, e, d, loc, argv):
        q = models.norm(d["q"]).split("::")
        if len(q) > 1 and q[-1] in NODEIT and argv:
            k, v = argv[0]
            p = self.itloc(st, v if k == "ref" else v)
            if p is not None:
                s = State(dict(st.store), st.facts, st.epochs)
                s.store[loc] = p
                return s
        return super().on_construct(st, fr, e, d, loc, argv)

    def it_call(self, st, fr, e, d, tail, obj, argv):
        n = d["n"]
        if n in ("operator==", "operator!="):
            ops = ([obj] if obj is not None else []) + [v for _, v in argv]
            ps = [self.itloc(st, o) for o in ops]
            if len(ps) != 2 or any(p is None or p.reg[-1:] != ("#it",) for p in ps):
                return None
            f = ("eq", ps[0].off - ps[1].off)
            f = f if f[1].t else ("k", 1 if f[1].c == 0 else 0)
            return [(st, Bool(f if n == "operator==" else neg(f)))]
        p = self.itloc(st, obj) if obj is not None else None
        if p is None or p.reg[-1:] != ("#it",):
            return None
        if n in ("operator->", "operator*"):
            if p.off != Lin(0):
                self.oblige(st, False, "map", "an entry is only dereferenced when it exists", e, fr)
            loc = p.reg[:-1] + ("#ent",)
            return [(st, Ptr(loc) if n == "operator->" else Obj(loc))]
        raise AnalysisError("iteration over the tracked map")

    def resolve(self, loc):
        """Places inside an entry: every name of the mapped value is the same place."""
        for i, x in enumerate(loc):
            if x == "#ent" and i + 1 < len(loc) and str(loc[i + 1]).startswith("f:"):
                return loc[:i + 1] + ("#second",) + loc[i + 2:]
        return loc

    def load(self, st, loc, t):
        return super().load(st, self.resolve(loc), t)

    def write(self, st, loc, v):
        return super().write(st, self.resolve(loc), v)

    def map_call(self, st, fr, e, d, n, loc, argv):
        rt = self.strip(d["r"])
        if n in ("clear",):
            s = self.put(st, loc, 0)
            return [(self.other(s, loc, "clear"), VOID)]
        if n in ("size", "empty"):
            out = []
            for s, h in self.has(st, loc):
                z = self.as_lin(s, self.unknown(s, {"k": "int", "u": 1, "w": 64, "s": "size_t"}, "size"))
                lo = [x for t in self.assume(s, ("le", Lin(1 if h else 0) - z)) for x in self.assume(t, ("le", z - Lin(1 << 60)))]
                for t in lo:
                    if n == "size":
                        out.append((t, Num(z)))
                    else:
                        out.append((t, Bool(("eq", z))))
            return out
        if n in ("reserve", "rehash", "max_load_factor") and argv:
            return [(st, VOID)]
        if n in ("end", "cend"):
            s, o = self.tmpit(st, self.it(loc, True))
            return [(s, o)]
        if n == "swap" or n == "operator=":
            k, v = argv[0]
            v = v if k == "ref" else v.loc
            if st.store.get(v + ("#n",)) == Num(0) or not any(x[:len(v)] == v for x in st.store):
                s = self.other(self.put(st, loc, 0), loc, "clear")
                return [(s, VOID if n == "swap" else Obj(loc))]
            return None
        if n in ("operator[]", "find", "count", "contains", "at", "erase", "try_emplace", "insert_or_assign", "emplace", "insert"):
            if n in ("insert", "emplace") and len(argv) == 1:
                k, v = argv[0]
                p = v if k == "ref" else v.loc
                pt = self.strip(d["p"][0])
                f1, f2 = models.rec_field(self, pt["rec"], "first"), models.rec_field(self, pt["rec"], "second")
                kt = self.strip(self.maps[loc][0])
                key = (self.as_lin(st, self.load(st, p + (f1,), kt)),) if self.is_num(kt) else self.comps(st, p + (f1,), kt)
                val = self.load(st, p + (f2,), self.strip(self.maps[loc][1]))
            elif n == "erase" and self.strip(d["p"][0]).get("q", "").split("::")[-1] in NODEIT:
                p = self.itloc(st, argv[0][1])
                if p is None or p.off != Lin(0):
                    return None
                s, o = self.tmpit(self.put(st, loc, 0), self.it(loc, True))
                return [(s, o)]
            else:
                key = self.argkey(st, loc, argv)
                val = None
                if len(argv) > 1:
                    k, v = argv[1]
                    vt = self.strip(self.maps[loc][1])
                    val = self.load(st, v, vt) if k == "ref" else v
            if not self.is_key(st, key):
                if n in ("find", "count", "contains", "at"):
                    raise AnalysisError("a look-up of another key")
                st = self.other(st, loc, n)
                return [(st, models.unk(self, d, st))]
            out = []
            for s, h in self.has(st, loc):
                if n == "operator[]":
                    if not h:
                        s = self.put(s, loc, 1, Num(0))
                    out.append((s, Ptr(loc + ("#ent", "#second"))))
                elif n == "at":
                    if h:
                        out.append((s, Ptr(loc + ("#ent", "#second"))))
                    else:
                        self.oblige(s, False, "map", "an entry is only accessed when it exists", e, fr)
                elif n == "find":
                    out.append(self.tmpit(s, self.it(loc, not h)))
                elif n in ("count", "contains"):
                    out.append((s, Num(1 if h else 0)))
                elif n == "erase":
                    out.append((self.put(s, loc, 0), Num(1 if h else 0)))
                else:
                    if not h or n == "insert_or_assign":
                        s = self.put(s, loc, 1, val if val is not None else Num(0))
                    s, o = self.pair(s, rt["rec"], self.it(loc, False), Num(0 if h else 1))
                    out.append((s, o))
            return out
        return None
