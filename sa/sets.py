"""Vectors used as sets: finite vectors are tracked exactly, the others by membership atoms and a log of insertions and removals."""
from .lin import Lin, entails_eq
from .engine import Engine, State, Num, Bool, Ptr, Obj, Opq, Clo, FnV, Out, VOID, Sym, NULLREG, locstr_u, neg
from .program import AnalysisError
from .mem import Log, MemEngine
from . import models

STR = ("std::basic_string", "std::basic_string_view")
SEARCH = ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count", "count_if", "remove", "for_each")


class SetEngine(MemEngine):
    def __init__(self, prog):
        super().__init__(prog)
        self.lists = {}        # loc -> element type index: membership abstraction
        self.fins = {}         # loc -> element type index: exact content, constant size
        self.at = {}           # offset symbol -> (loc, key)
        self.unroll = 12
        self.summarised = set()

    def sizeof(self, t):
        t = self.T(t) if isinstance(t, int) else t
        return 16 if t["k"] == "memptr" else super().sizeof(t)

    def loop(self, s, sts, fr, out, pre, cond, inc, body, dowhile):
        """Loops that end after a few rounds on every path are followed round by round."""
        exits, pend = [], []
        for st in sts:
            saved = ({k: list(v) for k, v in self.obl.items()}, list(self.thrown))
            o2 = Out()
            r = None if dowhile or cond is None else self.rounds(st, fr, o2, pre, cond, inc, body)
            if r is None:
                self.obl, self.thrown = saved
                pend.append(st)
            else:
                exits += r
                out.ret += o2.ret
        if pend:
            exits += super().loop(s, pend, fr, out, pre, cond, inc, body, dowhile)
        return self.limit(exits)

    def rounds(self, st, fr, out, pre, cond, inc, body):
        cur, exits = [st], []
        for _ in range(10):
            tr = []
            for x in cur:
                for y in (self.decl(pre, [x], fr) if pre else [x]):
                    a, b = self.cond(cond, y, fr)
                    tr += a
                    exits += b
            tr = [x for x in tr if self.feasible(x)]
            if not tr:
                return exits
            if len(tr) > 40:
                return None
            o = Out()
            res = self.ex(body, tr, fr, o)
            exits += o.brk
            out.ret += o.ret
            res = res + o.cont
            if inc:
                res = [y for x in res for y, _ in self.ev(inc, x, fr)]
            cur = self.limit(res)
            if not cur:
                return exits
        return None

    # ------------------------------------------------------------------ content of exact vectors
    def content(self, st, loc):
        n = models.size_of(self, st, loc)
        if not n.is_const():
            raise AnalysisError("the size of %s is not known" % locstr_u(loc))
        es = self.sizeof(self.fins[loc]) or 1
        return [st.store.get(loc + ("#d", "[]", "[%d]" % (i * es))) for i in range(n.c)]

    def setcontent(self, st, loc, vs):
        es = self.sizeof(self.fins[loc]) or 1
        if self.writes is not None:
            for w in self.writes:
                w.add(loc + ("#all",))
        n = State({k: v for k, v in st.store.items() if k[:len(loc)] != loc}, st.facts, st.epochs)
        n.store[loc + ("#n",)] = Num(len(vs))
        for i, v in enumerate(vs):
            n.store[loc + ("#d", "[]", "[%d]" % (i * es))] = v
        return n

    # ------------------------------------------------------------------ element values
    def cid(self, st, loc):
        v = st.store.get(loc + ("#cid",))
        if v is None:
            v = st.store[loc + ("#cid",)] = Num(self.named("text|" + locstr_u(loc), 0, None))
        return self.as_lin(st, v)

    def comps(self, st, loc, t):
        """Scalar identity of the value of type t at loc."""
        t = self.T(t) if isinstance(t, int) else t
        if t["k"] == "ref":
            t = self.T(t["to"])
        q = t.get("q", "")
        if q == "std::tuple":
            out = ()
            for i, a in enumerate(t["ta"]):
                out += self.comps(st, loc + ("#t%d" % i,), a["t"])
            return out
        if q in STR:
            return (self.cid(st, loc),)
        if self.is_num(t):
            return (self.as_lin(st, self.load(st, loc, t)),)
        raise AnalysisError("values of type %s are not identified" % t.get("s"))

    def tuple_init(self, st, loc, i, v, t):
        """Component i of the tuple at loc becomes v."""
        dst = loc + ("#t%d" % i,)
        if isinstance(v, Obj):
            return self.copy_obj(st, v.loc, dst, t)
        return self.write(st, dst, v)

    def materialise(self, st, loc, t, depth=0):
        q = t.get("q", "")
        if q in STR:
            self.cid(st, loc)
        if q == "std::tuple":
            for i, a in enumerate(t["ta"]):
                ct = self.strip(a["t"])
                if ct.get("q", "") in STR + ("std::tuple",):
                    self.materialise(st, loc + ("#t%d" % i,), ct, depth)
                elif self.is_num(ct):
                    self.load(st, loc + ("#t%d" % i,), ct)
            return
        super().materialise(st, loc, t, depth)

    def canon(self, st, l):
        lo, hi = self.num_range(Num(l))
        if lo is not None and lo == hi:
            return Lin(lo)
        for c in self.consts:
            if entails_eq(st.facts, l - c, self.rg):
                return Lin(c)
        for s in sorted(l.t) if len(l.t) == 1 else ():
            pass
        return l

    consts = (0,)

    # ------------------------------------------------------------------ membership
    def atom(self, st, loc, key):
        return self.memo_sym(("IN", loc, tuple(self.canon(st, k) for k in key)), "in", 0, 1)

    def log(self, st, loc):
        v = st.store.get(loc + ("#log",))
        return v.e if v is not None else ()

    def member(self, st, loc, key):
        """[(state, bool)]: is key in the list now?"""
        ops = self.log(st, loc)
        n = models.size_of(self, st, loc)
        for op, k in reversed(ops):
            if op == "clear":
                return [(st, False)]
            if op == "addall":
                raise AnalysisError("membership after a bulk insertion")
            if all(entails_eq(st.facts, a - b, self.rg) for a, b in zip(k, key)):
                return [(st, op == "add")]
            if not any(self.differ(st, a, b) for a, b in zip(k, key)):
                raise AnalysisError("keys that may or may not coincide")
        out = []
        a = self.atom(st, loc, key)
        for s in self.assume(st, ("ne", a)):
            if not ops:
                for s2 in self.assume(s, ("le", Lin(1) - n)):
                    out.append((s2, True))
            else:
                out.append((s, True))
        for s in self.assume(st, ("eq", a)):
            out.append((s, False))
        return out

    def differ(self, st, a, b):
        return not self.assume(st, ("eq", a - b)) if (a - b).t else (a - b).c != 0

    def mutate(self, st, loc, op, key, n):
        ops = self.log(st, loc)
        ops = ((op, key),) if op == "clear" else ops + ((op, key),)
        if self.writes is not None:
            for w in self.writes:
                w.add(loc + ("#all",))
        s = State({k: v for k, v in st.store.items() if k[:len(loc)] != loc}, st.facts, st.epochs)
        s.store[loc + ("#log",)] = Log(ops)
        s.store[loc + ("#n",)] = Num(n)
        return s

    # ------------------------------------------------------------------ existential search
    def elem(self, st, loc, comps):
        """A place holding an element with the given components."""
        el = ("EL%d" % next(self.ctr),)
        t = self.T(self.lists[loc])
        it = iter(comps)

        def put(st, l, t):
            q = t.get("q", "")
            if q == "std::tuple":
                for i, a in enumerate(t["ta"]):
                    put(st, l + ("#t%d" % i,), self.strip(a["t"]))
            elif q in STR:
                st.store[l + ("#cid",)] = Num(next(it))
            else:
                st.store[l] = Num(next(it))
        s = State(dict(st.store), st.facts, st.epochs)
        put(s, el, t)
        return s, el

    def generic(self, loc):
        out = []

        def mk(t):
            q = t.get("q", "")
            if q == "std::tuple":
                for a in t["ta"]:
                    mk(self.strip(a["t"]))
            elif q in STR:
                out.append(self.fresh("some", 0, None))
            else:
                lo, hi = self.range_of(t)
                out.append(self.fresh("some", lo, hi))
        mk(self.T(self.lists[loc]))
        return tuple(out)

    def search(self, st, loc, body):
        """body(state, element place) -> (hits, misses): states where the scan stops at the element, states where it goes on.
        Returns (hits per key [(key, hit)], states where the whole list was scanned)."""
        g = self.generic(loc)
        n = models.size_of(self, st, loc)
        if n.is_const() and n.c == 0:
            return [], [st]
        s0, el = self.elem(st, loc, g)
        hits, misses = body(s0, el)
        pats = []
        for h in hits:
            hs = self.state_of(h)
            if not self.feasible(hs):
                continue
            key = []
            for c in g:
                key.append(self.pinned(hs, st, c))
            if all(k is None for k in key):
                raise AnalysisError("a search that does not determine the element it looks for")
            for j, k in enumerate(key):
                if k is None:         # some element, whatever its component j
                    key[j] = self.memo_sym(("whatever", loc, j, tuple(key[:j]), tuple(key[j + 1:])), "some", *self.lin_range(hs, g[j]))
            if tuple(key) not in pats:
                pats.append(tuple(key))
        found, cur = [], [st]
        for key in pats:
            nxt = []
            for s in cur:
                for s2, isin in self.member(s, loc, key):
                    x, el = self.elem(s2, loc, key)
                    h, m = body(x, el)
                    if isin:
                        # some other pattern may be met first; both outcomes are hits
                        found += [(key, y) for y in h]
                        nxt += [self.shed(y, x, s2) for y in m]
                    else:
                        nxt.append(s2)
            cur = nxt
        for m in misses:
            self.shed(m, s0, st)
        return found, self.dedupe(cur)

    def shed(self, after, before, entry):
        """The state after an element was passed over: the scan must have left everything else alone."""
        for k, v in before.store.items():
            if k in after.store and after.store[k] == v:
                continue
            if str(k[0]).startswith(("L:", "T:", "EL")) and k not in entry.store:
                continue
            raise AnalysisError("a scan that keeps state from one element to the next")
        return State(dict(entry.store), after.facts, entry.epochs)

    def state_of(self, h):
        return h[0] if isinstance(h, tuple) else h

    def pinned(self, hs, st, c):
        lo, hi = self.lin_range(hs, c)
        if lo is not None and lo == hi:
            return Lin(lo)
        for k in self.consts:
            if entails_eq(hs.facts, c - k, self.rg):
                return Lin(k)
        seen = set()
        for v in hs.store.values():
            if isinstance(v, Num) and v.l not in seen and not any(x in v.l.t for x in c.t):
                seen.add(v.l)
                if entails_eq(hs.facts, c - v.l, self.rg):
                    return v.l
        return None

    # ------------------------------------------------------------------ calls
    def invoke(self, f, st, fr, args, e):
        """Call a callable value with places as arguments: [(state, value)]."""
        if isinstance(f, Obj):
            f = st.store.get(f.loc, f)
        if isinstance(f, Clo):
            for sp in ([f.node["fn"]] if f.node.get("fn") else f.node.get("specs", [])):
                b = self.p.funs.get(sp)
                if b is not None and len(b["params"]) == len(args):
                    av = []
                    for prm, a in zip(b["params"], args):
                        pt = self.T(prm["t"])
                        if pt["k"] == "ref":
                            av.append(("ref", a))
                        else:
                            av.append(("val", self.load(st, a, pt)))
                    return self.inline(b, st, fr, f.this, av, e, clo=f)
        raise AnalysisError("call of an unknown callable")

    def cls_of(self, loc):
        return loc if loc in self.lists or loc in self.fins else None

    def container(self, p):
        if isinstance(p, Ptr) and p.reg[-2:] == ("#d", "[]"):
            return self.cls_of(p.reg[:-2])
        return None

    def on_call(self, st, fr, e, d, obj, argv):
        q = models.norm(d["q"])
        r = self.set_call(st, fr, e, d, q, obj, argv)
        if r is not None:
            return r
        return super().on_call(st, fr, e, d, obj, argv)

    def set_call(self, st, fr, e, d, q, obj, argv):
        n = d["n"]
        if q in ("std::make_tuple", "std::tie", "std::forward_as_tuple"):
            loc = ("T:%d" % next(self.ctr),)
            t = self.strip(d["r"])
            for i in range(len(argv)):
                ct = self.strip(t["ta"][i]["t"])
                k, v = argv[i]
                v = models.argval(self, d, st, argv, i)
                st = self.tuple_init(st, loc, i, v, ct)
            return [(st, Obj(loc))]
        if q == "std::get" and argv and self.strip(d["p"][0]).get("q") == "std::tuple":
            i = d["ta"][0].get("v")
            k, v = argv[0]
            base = v if k == "ref" else v.loc
            if i is None:
                return None
            loc = base + ("#t%d" % int(i),)
            return [(st, self.ptr_to(loc) if self.is_num(self.strip(d["r"])) else Obj(loc))]
        if q in ("std::operator==", "std::operator!=") and len(argv) == 2:
            ts = [self.strip(x) for x in d["p"]]
            if all(t.get("q") in STR + ("std::tuple",) for t in ts):
                ks = []
                st = State(dict(st.store), st.facts, st.epochs)
                for (k, v), t in zip(argv, ts):
                    ks.append(self.comps(st, v if k == "ref" else v.loc, t))
                f = ("k", 1)
                for a, b in zip(*ks):
                    g = ("eq", a - b) if (a - b).t else ("k", 1 if (a - b).c == 0 else 0)
                    f = g if f == ("k", 1) else ("and", f, g)
                return [(st, Bool(f if n == "operator==" else neg(f)))]
        if q == "std::basic_string::operator basic_string_view":
            out = models.m_s2sv(self, e, d, State(dict(st.store), st.facts, st.epochs), fr, obj, argv)
            c = self.cid(out[0][0], obj)
            out[0][0].store[out[0][1].loc + ("#cid",)] = Num(c)
            return out
        if obj is not None and self.cls_of(obj) is not None and q.startswith("std::vector::"):
            return self.vec_call(st, fr, e, d, n, obj, argv)
        if q.startswith("std::") and n in SEARCH and len(argv) >= 3:
            a, b = models.argval(self, d, st, argv, 0), models.argval(self, d, st, argv, 1)
            c = self.container(a)
            if c is not None and isinstance(b, Ptr) and b.reg == a.reg:
                if not (a.off == Lin(0) and self.is_end(st, c, b)):
                    raise AnalysisError("a scan of part of a list")
                return self.scan(st, fr, e, d, n, c, a, b, argv)
        return None

    def is_end(self, st, c, p):
        es = self.sizeof((self.lists.get(c) if c in self.lists else self.fins[c])) or 1
        return entails_eq(st.facts, p.off - models.size_of(self, st, c).scale(es), self.rg)

    def scan(self, st, fr, e, d, n, c, a, b, argv):
        byval = n in ("find", "count", "remove")
        if byval:
            k, v = argv[2]
            t = self.strip(d["p"][2])
        else:
            f = models.argval(self, d, st, argv, 2)
        if c in self.fins:
            es = self.sizeof(self.fins[c]) or 1
            vs = self.content(st, c)
            if byval:
                x = self.load(st, v, t) if k == "ref" else v
                if not isinstance(x, FnV) or not all(isinstance(y, FnV) for y in vs):
                    raise AnalysisError("comparison of values that are not functions")
                hit = [i for i, y in enumerate(vs) if y.fn == x.fn]
                if n == "count":
                    return [(st, Num(len(hit)))]
                if n == "find":
                    return [(st, Ptr(a.reg, Lin(hit[0] * es) if hit else b.off, Lin(0)))]
                keep = [y for y in vs if y.fn != x.fn]
                s = self.setcontent(st, c, keep + [x] * (len(vs) - len(keep)))
                return [(s, Ptr(a.reg, Lin(len(keep) * es), Lin(0)))]
            cur, out = [(st, 0)], []
            for i in range(len(vs)):
                nxt = []
                for s, cnt in cur:
                    for s1, val in self.invoke(f, s, fr, [a.reg + ("[%d]" % (i * es),)], e):
                        if n == "for_each":
                            nxt.append((s1, 0))
                            continue
                        tr = self.assume(s1, self.truth(s1, val))
                        fa = self.assume(s1, neg(self.truth(s1, val)))
                        if n == "count_if":
                            nxt += [(x, cnt + 1) for x in tr] + [(x, cnt) for x in fa]
                        elif n in ("all_of", "find_if_not"):
                            out += [(x, Num(0) if n == "all_of" else Ptr(a.reg, Lin(i * es), Lin(0))) for x in fa]
                            nxt += [(x, 0) for x in tr]
                        else:
                            out += [(x, Num(1 if n == "any_of" else 0) if n != "find_if" else Ptr(a.reg, Lin(i * es), Lin(0))) for x in tr]
                            nxt += [(x, 0) for x in fa]
                cur = nxt
            for s, cnt in cur:
                out.append((s, {"all_of": Num(1), "none_of": Num(1), "any_of": Num(0), "count_if": Num(cnt), "for_each": VOID}.get(n, Ptr(a.reg, b.off, Lin(0)))))
            return out
        # membership lists
        if n in ("for_each", "count_if"):
            raise AnalysisError("std::%s over a list" % n)
        out = []
        if byval:
            st = State(dict(st.store), st.facts, st.epochs)
            if isinstance(v, Num):
                key = (v.l,)
            else:
                key = self.comps(st, v if k == "ref" else v.loc, t)
            for s, isin in self.member(st, c, key):
                if n == "count":
                    out.append((s, Num(1 if isin else 0)))
                else:
                    out.append((s, self.place(s, c, a, key) if isin else Ptr(a.reg, b.off, Lin(0))))
            return out

        def body(s, el):
            h, m = [], []
            for s1, val in self.invoke(f, s, fr, [el], e):
                tf = self.truth(s1, val)
                if n in ("all_of", "find_if_not"):
                    tf = neg(tf)
                h += self.assume(s1, tf)
                m += self.assume(s1, neg(tf))
            return h, m
        found, rest = self.search(st, c, body)
        for key, s in found:
            s = State(dict(st.store), s.facts, st.epochs)
            out.append((s, {"any_of": Num(1), "all_of": Num(0), "none_of": Num(0)}.get(n) or self.place(s, c, a, key)))
        for s in rest:
            out.append((s, {"any_of": Num(0), "all_of": Num(1), "none_of": Num(1)}.get(n) or Ptr(a.reg, b.off, Lin(0))))
        return out

    def place(self, st, c, a, key):
        """An iterator to the element with that key."""
        es = self.sizeof(self.lists[c]) or 1
        n = models.size_of(self, st, c)
        o = self.memo_sym(("place", c, tuple(key), n), "place", 0, models.SIZE_MAX)
        self.at[next(iter(o.t))] = (c, tuple(key))
        # strictly before the end
        st.facts = st.facts.with_le(o.scale(es) - n.scale(es) + es)
        return Ptr(a.reg, o.scale(es), Lin(0))

    def vec_call(self, st, fr, e, d, n, obj, argv):
        fin = obj in self.fins
        et = self.fins[obj] if fin else self.lists[obj]
        es = self.sizeof(et) or 1
        if n in ("push_back", "emplace_back"):
            size = models.size_of(self, st, obj)
            if len(argv) != 1:
                raise AnalysisError("%s with %d arguments" % (n, len(argv)))
            k, v = argv[0]
            if fin:
                x = models.argval(self, d, st, argv, 0)
                return [(self.setcontent(st, obj, self.content(st, obj) + [x]), VOID)]
            st = State(dict(st.store), st.facts, st.epochs)
            key = (v.l,) if isinstance(v, Num) else self.comps(st, v if k == "ref" else v.loc, self.T(et))
            out = []
            for s, isin in self.member(st, obj, key):
                self.oblige(s, not isin, "unique", "a list never holds the same entry twice, so that removing the entry removes it", e, fr)
                out.append((self.mutate(s, obj, "add", key, size + 1), VOID))
            return out
        if n == "clear":
            return [((self.setcontent(st, obj, []) if fin else self.mutate(st, obj, "clear", (), Lin(0))), VOID)]
        if n == "erase":
            a = models.argval(self, d, st, argv, 0)
            b = models.argval(self, d, st, argv, 1) if len(argv) > 1 else None
            if not isinstance(a, Ptr) or a.reg != obj + ("#d", "[]"):
                raise AnalysisError("erase at an unknown place")
            if fin:
                vs = self.content(st, obj)
                if not a.off.is_const() or (b is not None and not b.off.is_const()):
                    raise AnalysisError("erase at an unknown place")
                i = a.off.c // es
                j = b.off.c // es if b is not None else i + 1
                self.oblige(st, 0 <= i <= j <= len(vs), "erase", "an entry that exists is erased", e, fr)
                return [(self.setcontent(st, obj, vs[:i] + vs[j:]), Ptr(a.reg, a.off, Lin(0)))]
            if b is not None and entails_eq(st.facts, b.off - a.off, self.rg):
                return [(st, a)]
            if b is not None and not self.is_end(st, obj, b):
                raise AnalysisError("erasure of a range")
            hit = [self.at[s] for s in a.off.t if s in self.at]
            if len(hit) != 1 or hit[0][0] != obj:
                self.oblige(st, False, "erase", "an entry that exists is erased", e, fr)
                return [(self.mutate(st, obj, "del", ("unknown",), self.fresh("size", 0, models.SIZE_MAX)), a)]
            out = []
            for s, isin in self.member(st, obj, hit[0][1]):
                self.oblige(s, isin, "erase", "an entry that exists is erased", e, fr)
                out.append((self.mutate(s, obj, "del", hit[0][1], models.size_of(self, s, obj) - 1), a))
            return out
        if n in ("insert", "emplace", "assign", "resize", "pop_back", "operator=", "swap"):
            raise AnalysisError("vector::%s on a list" % n)
        return None

    def e_Bin(self, e, st, fr):
        if e["op"] in ("->*", ".*"):
            out = []
            for s, a in self.ev(e["a"], st, fr):
                for s2, f in self.ev(e["b"], s, fr):
                    loc = a.reg if isinstance(a, Ptr) else a.loc if isinstance(a, Obj) else None
                    out.append((s2, FnV(f.fn, loc) if isinstance(f, FnV) and loc is not None else f))
            return out
        return super().e_Bin(e, st, fr)

    def on_construct(self, st, fr, e, d, loc, argv):
        t = self.T(e["t"])
        q = t.get("q", "")
        if q in STR and len(argv) >= 1:
            t0 = self.strip(d["p"][0])
            k, v = argv[0]
            if t0.get("q") in STR:
                src = v if k == "ref" else v.loc
                st = State(dict(st.store), st.facts, st.epochs)
                c = self.cid(st, src)
                st.store[loc + ("#cid",)] = Num(c)
                n = models.size_of(self, st, src)
                st.store[loc + ("#n",)] = Num(n)
                if q == STR[1]:
                    p, _ = models.cont_data(self, st, src, t0)
                    st.store[loc + ("#p",)] = p
                return [(st, Obj(loc))]
        if q == "std::tuple" and argv:
            if len(argv) == 1 and self.strip(d["p"][0]).get("q") == "std::tuple":
                k, v = argv[0]
                st = self.copy_obj(st, v if k == "ref" else v.loc, loc, self.strip(d["p"][0]))
                return [(st, Obj(loc))]
            if len(argv) == len(t["ta"]):
                for i in range(len(argv)):
                    st = self.tuple_init(st, loc, i, models.argval(self, d, st, argv, i), self.strip(t["ta"][i]["t"]))
                return [(st, Obj(loc))]
        return super().on_construct(st, fr, e, d, loc, argv)

    # ------------------------------------------------------------------ range-for over a list
    def s_RFor(self, s, sts, fr, out):
        if s.get("init"):
            sts = self.ex(s["init"], sts, fr, out)
        rest, res = [], []
        for st in sts:
            locs = self.lv(s["r"], st, fr)
            if len(locs) == 1 and locs[0][1] in self.lists:
                res += self.over_list(s, locs[0][0], fr, out, locs[0][1])
            else:
                rest.append(st)
        if rest:
            s2 = {k: v for k, v in s.items() if k != "init"}
            res += super().s_RFor(s2, rest, fr, out)
        return self.limit(res)

    def bind_el(self, st, fr, s, el):
        vt = self.T(s["v"]["t"])
        vloc = ("L:" + s["v"]["id"], fr.key)
        if s["v"].get("bind"):
            raise AnalysisError("structured binding over a list")
        if vt["k"] == "ref":
            st.store[vloc] = Ptr(el)
            return st
        v = self.load(st, el, vt)
        return self.copy_obj(st, v.loc, vloc, vt) if isinstance(v, Obj) else st.set(vloc, v)

    def over_list(self, s, st, fr, out, loc):
        if loc in self.bulk:
            return self.over_bulk(s, st, fr, out, loc)

        def body(x, el):
            o = Out()
            r = self.ex(s["b"], [self.bind_el(x, fr, s, el)], fr, o)
            return [(y, "brk", None) for y in o.brk] + [(y, "ret", v) for y, v in o.ret], r + o.cont
        found, rest = self.search(st, loc, body)
        for key, (y, kind, v) in found:
            y = State({k: z for k, z in y.store.items() if not str(k[0]).startswith("EL")}, y.facts, y.epochs)
            if kind == "ret":
                out.ret.append((y, v))
            else:
                rest.append(y)
        return rest

    bulk = ()       # argument lists every entry of which is to be inserted

    def over_bulk(self, s, st, fr, out, arg):
        """A loop over an argument list: any number of iterations, each inserting the element into the same list."""
        n = models.size_of(self, st, arg)
        done = self.assume(st, ("eq", n))
        work = self.assume(st, ("le", Lin(1) - n))
        target = None
        seen, results = [], []
        while work:
            x = work.pop()
            sig = self.signature(x)
            if sig in seen:
                continue
            seen.append(sig)
            if len(seen) > 64:
                raise AnalysisError("a bulk insertion that does not settle")
            key = self.generic(arg)
            y, el = self.elem(x, arg, key)
            o = Out()
            r = self.ex(s["b"], [self.bind_el(y, fr, s, el)], fr, o)
            if o.brk or o.ret:
                for z in o.brk + [a for a, _ in o.ret]:
                    if self.feasible(z):
                        self.oblige(z, False, "bulk", "every entry of the given list is inserted", s, fr)
            for z in r + o.cont:
                if not self.feasible(z):
                    continue
                ok = False
                for L in self.lists:
                    if L == arg or L in self.bulk:
                        continue
                    lg = self.log(z, L)
                    if len(lg) == len(self.log(x, L)) + 1 and lg[-1] == ("add", key) or (lg == self.log(x, L) and not self.assume(z, ("eq", self.atom(z, L, key)))):
                        if target in (None, L):
                            target, ok = L, True
                            break
                self.oblige(z, ok, "bulk", "every entry of the given list is inserted", s, fr)
                if not ok:
                    continue
                size = self.fresh("size", 0, models.SIZE_MAX)
                base = {k: v for k, v in z.store.items() if k[:len(target)] != target and not str(k[0]).startswith("EL")}
                w = State(base, x.facts.with_le(Lin(1) - size), x.epochs)
                w.store[target + ("#n",)] = Num(size)
                results.append(w)
                # the next iteration starts from the list with unknown content again
                w2 = State(dict(base), x.facts.with_le(Lin(1) - size), x.epochs)
                w2.store[target + ("#n",)] = Num(size)
                work.append(w2)
                w.store[target + ("#log",)] = Log((("addall", (arg,)),))
        return done + self.dedupe(results)

    def signature(self, st):
        out = []
        for k, v in sorted(st.store.items(), key=lambda kv: str(kv[0])):
            if k[0] == "this" and k[-1] not in ("#n", "#log"):
                out.append((k, v if not isinstance(v, FnV) else v.fn))
        for c in self.fins:
            out.append((c, tuple(v.fn for v in self.content(st, c))))
        return tuple(map(str, out))
