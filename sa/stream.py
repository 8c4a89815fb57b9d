"""Abstract interpretation of code that consumes a byte stream through the capacity-bounded receive buffer.

The receive buffer is replaced by its contract (established separately by property C01): a window [#base, #base + #sz) over an
immutable, absolutely indexed byte stream.  Loops are analysed with one abstract head state per value of the enumeration-typed
control variables (a disjunctive, difference-bound invariant), which is what a hand-written state machine needs."""
from .lin import Lin, Facts, entails_le, entails_eq
from .engine import Engine, State, Out, Num, Bool, Ptr, Obj, Opq, NULLREG, neg, Sym, locstr, Limit, Frame, VOID
from .mem import MemEngine, Log
from . import models

STREAM = ("stream", "[]")
SZ, BASE, LOG = ("#sz",), ("#base",), ("#log",)
CS, CLO, CHI = ("#cs",), ("#clo",), ("#chi",)
XS, XLO, XHI = ("#xs",), ("#xlo",), ("#xhi",)
RST1, RST2 = ("#initialised",), ("#reset",)
GHOSTS = (SZ, BASE, CS, CLO, CHI, XS, XLO, XHI, RST1, RST2)
NPOS = 2 ** 64 - 1
BUFMAX = 2 ** 31 - 2 ** 16       # assumption: the receive buffer's capacity fits comfortably in 31 bits
LADDER = [-64, -36, -32, -28, -20, -16] + list(range(-12, 13)) + [16, 20, 28, 32, 36, 64]

COARSE = (0, 1, 2, 4, 10, 12, 28)


class Head:
    """Abstract state at a loop head (or between two calls): interval and difference bounds from a fixed ladder, plus known stream bytes."""

    def __init__(self, eng, st, locs, key, anchors, elref=None):
        self.eng, self.locs, self.key, self.anchors, self.elref = eng, [l for l in locs if l not in key], key, anchors, elref
        self.store = dict(st.store)
        self.epochs = dict(st.epochs)
        self.base = st.facts
        self.sym = {}
        for l, c in key.items():
            self.store[l] = Num(c)
        for l in self.locs:
            lo, hi = eng.type_range(l)
            s = eng.fresh("h:" + locstr(l), lo, hi)
            self.sym[l] = s
            self.store[l] = Num(s)
        self.b = None
        self.el = None
        self.nchg = {}

    def terms(self, val, anch):
        out = [(("al", j), -a) for j, (a, both) in enumerate(anch)]
        for l in self.locs:
            out.append((("hi", l), val.get(l)))
            out.append((("lo", l), None if val.get(l) is None else -val[l]))
        for i, l in enumerate(self.locs):
            for m in self.locs[i + 1:]:
                x, y = val.get(l), val.get(m)
                out.append((("d", l, m), None if x is None or y is None else x - y))
                out.append((("d", m, l), None if x is None or y is None else y - x))
            for j, (a, both) in enumerate(anch):
                x = val.get(l)
                out.append((("a", l, j), None if x is None else x - a))
                if both:
                    out.append((("A", l, j), None if x is None else a - x))
        return out

    def ladder(self, kind):
        return self.eng.const_ladder if kind in ("hi", "lo", "al") else LADDER

    def tight(self, kind, facts, l):
        """smallest ladder constant c with l <= c entailed (None when none)"""
        lad = self.ladder(kind)
        rg = self.eng.rg
        if l.is_const():
            for i, c in enumerate(lad):
                if l.c <= c:
                    return i
            return None
        if not entails_le(facts, l - lad[-1], rg):
            return None
        lo, hi = 0, len(lad) - 1
        while lo < hi:
            m = (lo + hi) // 2
            if entails_le(facts, l - lad[m], rg):
                hi = m
            else:
                lo = m + 1
        return lo

    def add(self, b, val, anch, shift=None):
        """Join the state b in; val maps the locations to their values there.  True when the head changed."""
        changed = self.add_(b, val, anch, shift)
        if changed:
            hb = self.eng.headbound
            for k, l in self.terms(self.sym, self.anchors):
                if l is None or not l.t:
                    continue
                i = self.b.get(k)
                if i is None:
                    hb.pop(l.tk, None)
                else:
                    hb[l.tk] = self.ladder(k[0])[i] - l.c
        return changed

    def add_(self, b, val, anch, shift):
        changed = False
        hbs = self.eng.headbound
        ts = self.terms(val, anch)
        if self.b is None:
            self.b = {k: (None if l is None else self.tight(k[0], b.facts, l)) for k, l in ts}
            self.el = self.elfacts(b, val, shift)
            return True
        for k, l in ts:
            i = self.b[k]
            if i is None:
                continue
            c = self.ladder(k[0])[i]
            if l is not None:
                # bounds kept at the head a symbol comes from hold in every state descending from it
                if not l.t:
                    if l.c <= c:
                        continue
                else:
                    hb = hbs.get(l.tk)
                    if hb is not None and hb + l.c <= c:
                        continue
                    o = b.facts._les.get(l.tk)
                    if o is not None and l.c - o.c <= c:
                        continue
                    if entails_le(b.facts, l - c, self.eng.rg):
                        continue
            changed = True
            self.b[k] = None if l is None else self.tight(k[0], b.facts, l)
            j = self.b[k]
            if j is not None:
                # widening: the more often a bound had to give, the coarser the steps it is kept at
                n = self.nchg[k] = self.nchg.get(k, 0) + 1
                lad = self.ladder(k[0])
                if n > 9:
                    j = lad.index(0) if lad[j] <= 0 else None
                elif n > 3:
                    while j is not None and abs(lad[j]) not in COARSE and abs(lad[j]) < 40:
                        j = j + 1 if j + 1 < len(lad) else None
                self.b[k] = j
            if j is not None and j < i:
                raise AssertionError
        keep, lead = {}, None
        for (l, d), c in self.el.items():
            x = val.get(l)
            ok = False
            if l is None:
                if lead is None:
                    lead = self.eng.leading(b)
                ok = lead.get(d) == c
            if x is not None:
                s = self.eng.el(x + d + (shift or Lin(0)), 1)
                ok = entails_eq(b.facts, s - c, self.eng.rg) if c >= 0 else False
            if ok:
                keep[(l, d)] = c
            else:
                changed = True
        self.el = keep
        return changed

    def elfacts(self, b, val, shift):
        out = {}
        if self.elref is None:
            return out
        for d, c in self.eng.leading(b).items():
            out[(None, d)] = c
        for e in b.facts.eqs:
            if len(e.t) != 1:
                continue
            s, k = next(iter(e.t.items()))
            if s in self.eng.elsym and self.eng.elsym[s][0] == STREAM and abs(k) == 1 and self.eng.elsz.get(s) == 1:
                c = -e.c * k
                for l in self.locs:
                    if self.elref(l) and val.get(l) is not None:
                        d = self.eng.elsym[s][1] - (shift or Lin(0)) - val[l]
                        if d.is_const() and abs(d.c) <= 32:
                            out[(l, d.c)] = c
        return out

    def reduced(self, ts):
        """The bounds without those the others imply."""
        edges, ix = [], {(): 0}

        def node(s):
            if s not in ix:
                ix[s] = len(ix)
                lo, hi = self.eng.rg.get(s)
                if hi is not None:
                    fixed.append((0, ix[s], hi))
                if lo is not None:
                    fixed.append((ix[s], 0, -lo))
            return ix[s]
        fixed, other = [], []
        for k, i in self.b.items():
            if i is None or k not in ts:
                continue
            l = ts[k] - self.ladder(k[0])[i]
            t = list(l.t.items())
            if len(t) == 1 and abs(t[0][1]) == 1:
                s, c = t[0]
                edges.append((0, node(s), -l.c, l) if c == 1 else (node(s), 0, -l.c, l))
            elif len(t) == 2 and {t[0][1], t[1][1]} == {1, -1}:
                p = t[0][0] if t[0][1] == 1 else t[1][0]
                m = t[0][0] if t[0][1] == -1 else t[1][0]
                edges.append((node(m), node(p), -l.c, l))
            elif t:
                other.append(l)
        # difference bounds first: single bounds often follow from them, never the other way round for free
        n = len(ix)
        edges.sort(key=lambda e: (e[0] != 0 and e[1] != 0, -abs(e[2])), reverse=True)
        adj = [[] for _ in range(n)]
        for e in edges:
            adj[e[0]].append((e[1], e[2], e))
        for u, v, w in fixed:
            adj[u].append((v, w, None))
        dead = set()
        for e in edges:
            u, v, w = e[0], e[1], e[2]
            d = {u: 0}
            todo = [u]
            hit = False
            steps = 0
            while todo and not hit:
                x = todo.pop(0)
                steps += 1
                if steps > 400:
                    break
                for y, c, ee in adj[x]:
                    if ee is not None and (ee is e or id(ee) in dead):
                        continue
                    z = d[x] + c
                    if y not in d or z < d[y]:
                        d[y] = z
                        if y == v and z <= w:
                            hit = True
                            break
                        todo.append(y)
            if hit:
                dead.add(id(e))
        return [e[3] for e in edges if id(e) not in dead] + other

    def state(self, anchors=None):
        f = self.base
        ts = dict(self.terms(self.sym, anchors if anchors is not None else self.anchors))
        for l in self.reduced(ts):
            f = f.with_le(l)
        for (l, d), c in self.el.items():
            x = self.sym[l] if l is not None else self.store[BASE].l
            f = f.with_eq(self.eng.el(x + d, 1) - c)
        return State(dict(self.store), f, dict(self.epochs))


class StreamEngine(MemEngine):
    track_log = True
    trace = False
    max_steps = 60_000_000
    max_states = 128

    def __init__(self, prog):
        super().__init__(prog)
        self.elsz = {}
        self.convof = {}
        self.xinfo = {}
        self.fcinfo = {}
        self.blk = {}
        self.enumlocs = set()
        self.fbs = Lin.sym("FBS")
        self.const_ladder = sorted(set(list(range(-64, 65)) + [2 ** k for k in range(7, 33)] + [-2 ** k for k in range(7, 17)]))
        self.models = dict(self.models)
        self.models["std::from_chars"] = m_from_chars
        self.heads_seen = 0
        self._enumc = {}
        self.accs = set()       # (checksum accumulator, byte counter) pairs
        self.only = self.want_region

    @property
    def headbound(self):
        if not hasattr(self, "_hb"):
            self._hb = {}
        return self._hb

    def leading(self, st, n=3):
        """The values of the first bytes still held, as far as the path establishes them."""
        base = self.num(st, BASE)
        out = {}
        r = st.facts.red(self.rg)
        for e in st.facts.eqs:
            if len(e.t) != 1:
                continue
            s, k = next(iter(e.t.items()))
            if s not in self.elsym or self.elsym[s][0] != STREAM or abs(k) != 1 or self.elsz.get(s) != 1:
                continue
            d = r.ap(self.elsym[s][1] - base)
            if d.is_const():
                if 0 <= d.c < n:
                    out[d.c] = -e.c * k
                continue
            for i in range(n):
                if i not in out and entails_eq(st.facts, d - i, self.rg):
                    out[i] = -e.c * k
                    break
        return out

    def want_region(self, reg):
        return reg[:1] == ("out",) or reg == STREAM or (reg and isinstance(reg[0], str) and reg[0].startswith(("L:", "S:")))

    # ---- helpers
    def num(self, st, loc):
        v = st.store.get(loc)
        return v.l if isinstance(v, Num) else None

    def type_range(self, loc):
        if loc in (SZ,):
            return 0, BUFMAX
        if loc in GHOSTS:
            return -2 ** 40, 2 ** 40
        t = self.loc_type(loc)
        if t is not None and self.is_num(t):
            return self.range_of(t)
        return None, None

    def init_state(self, st=None):
        st = st or State()
        st = State(dict(st.store), st.facts, dict(st.epochs))
        st.store[SZ] = Num(self.named("SIZE", 0, BUFMAX))
        st.store[BASE] = Num(0)
        st.store[LOG] = Log()
        for g in (CLO, CHI, XLO, XHI):
            st.store[g] = Num(0)
        st.store[CS] = Num(-1)
        st.store[XS] = Num(-1)
        return st

    def el(self, off, size, signed=False):
        key = ("stream", off, size, signed)
        if key not in self.memo:
            lo, hi = (0, 2 ** (8 * size) - 1) if not signed else (-2 ** (8 * size - 1), 2 ** (8 * size - 1) - 1)
            v = self.fresh("byte" if size == 1 else "word%d" % size, lo, hi)
            self.memo[key] = v
            s = next(iter(v.t))
            self.elsym[s] = (STREAM, off)
            self.elsz[s] = size
        return self.memo[key]

    def load(self, st, loc, t):
        if loc[:2] == STREAM and len(loc) == 3:
            tt = self.T(t) if isinstance(t, int) else t
            off = loc[2].off if isinstance(loc[2], Sym) else Lin(int(loc[2][1:-1]))
            if self.is_num(tt):
                lo, hi = self.range_of(tt)
                return Num(self.el(off, self.sizeof(tt) or 1, (lo or 0) < 0))
        return super().load(st, loc, t)

    def memo_sym(self, key, hint, lo, hi, tags=()):
        v = super().memo_sym(key, hint, lo, hi, tags)
        if key[0] in ("conv", "fit") and len(v.t) == 1:
            self.convof[next(iter(v.t))] = key[1]
        return v

    def stream_pos(self, v):
        """Absolute stream offset of the byte a value was read from."""
        if not isinstance(v, Num):
            return None
        l = v.l
        for _ in range(4):
            if len(l.t) != 1 or l.c != 0:
                return None
            s, k = next(iter(l.t.items()))
            if k != 1:
                return None
            if s in self.elsym and self.elsym[s][0] == STREAM:
                return self.elsym[s][1] if self.elsz.get(s) == 1 else None
            if s in self.convof:
                l = self.convof[s]
                continue
            return None
        return None

    # ---- checking
    def access(self, st, ptr, n, mode, node, fr):
        if isinstance(ptr, Ptr) and ptr.reg == STREAM:
            if self.quiet:
                return
            base, sz = self.num(st, BASE), self.num(st, SZ)
            live = [st] if not (n.t or n.c <= 0) else self.assume(st, ("le", Lin(1) - n))
            ok = mode != "w" and all(self.proves_le(s, base - ptr.off) and self.proves_le(s, ptr.off + n - base - sz) for s in live)
            self.checked += 1
            self.oblige(st, ok, "stream-bounds", "read of received bytes stays within the bytes received", node, fr, "" if ok else "offset %r + %r, received %r" % (ptr.off, n, base + sz))
            return
        super().access(st, ptr, n, mode, node, fr)

    def inbuf(self, st, i, n, node, fr):
        if self.quiet:
            return
        sz = self.num(st, SZ)
        ok = self.proves_le(st, -i) and self.proves_le(st, i + n - sz)
        self.checked += 1
        self.oblige(st, ok, "stream-bounds", "index into the receive buffer stays within the bytes received", node, fr, "" if ok else "index %r (+%r), received %r" % (i, n, sz))

    # ---- contract of the receive buffer
    def on_call(self, st, fr, e, d, obj, argv):
        cls = d.get("cls") or ""
        if cls.startswith("FixedBuffer<"):
            m = getattr(self, "fb_" + {"operator[]": "index"}.get(d["n"], d["n"]), None)
            if m is not None:
                return m(e, d, st, fr, argv)
        if not cls and d.get("repo", 1):
            if d["n"] == "CalculateCharacterCrc32":
                return self.char_crc(e, d, st, fr, argv)
            if d["n"] == "CalculateBlockCrc32" and len(argv) >= 2:
                return self.block_crc(e, d, st, fr, argv)
        return None

    def fb_size(self, e, d, st, fr, argv):
        return [(st, Num(self.num(st, SZ)))]

    def fb_empty(self, e, d, st, fr, argv):
        return [(st, Bool(("eq", self.num(st, SZ))))]

    def fb_capacity(self, e, d, st, fr, argv):
        c = self.named("CAPACITY", 1, BUFMAX)
        return [(x, Num(c)) for x in self.assume(st, ("le", self.num(st, SZ) - c))]

    def fb_available_space(self, e, d, st, fr, argv):
        c = self.named("CAPACITY", 1, BUFMAX)
        return [(x, Num(c - self.num(st, SZ))) for x in self.assume(st, ("le", self.num(st, SZ) - c))]

    def fb_full(self, e, d, st, fr, argv):
        c = self.named("CAPACITY", 1, BUFMAX)
        return [(x, Bool(("eq", c - self.num(st, SZ)))) for x in self.assume(st, ("le", self.num(st, SZ) - c))]

    def fb_data(self, e, d, st, fr, argv):
        return [(st, Ptr(STREAM, self.num(st, BASE), Lin(0)))]

    def fb_index(self, e, d, st, fr, argv):
        i = models.arglin(self, d, st, argv, 0)
        self.inbuf(st, i, Lin(1), e, fr)
        return models._elem(self, e, d, st, fr, Ptr(STREAM, self.num(st, BASE), Lin(0)), i, 1)

    def fb_read_value(self, e, d, st, fr, argv):
        i = models.arglin(self, d, st, argv, 0)
        t = models.rt(self, d)
        n = self.sizeof(t)
        self.inbuf(st, i, Lin(n), e, fr)
        if self.is_num(t):
            lo, hi = self.range_of(t)
            return [(st, Num(self.el(self.num(st, BASE) + i, n, (lo or 0) < 0)))]
        return None

    def clamp(self, st, n):
        sz = self.num(st, SZ)
        return [(x, n) for x in self.assume(st, ("le", n - sz))] + [(x, sz) for x in self.assume(st, ("le", sz - n + 1))]

    def fb_copy_out(self, e, d, st, fr, argv):
        p, n = models.argval(self, d, st, argv, 0), models.arglin(self, d, st, argv, 1)
        out = []
        for s, m in self.clamp(st, n):
            if isinstance(p, Ptr) and p.reg == NULLREG:
                out.append((s, VOID))
                continue
            if isinstance(p, Ptr):
                self.access(s, p, m, "w", e, fr)
                s = self.on_copy(s, p, Ptr(STREAM, self.num(s, BASE), Lin(0)), m, e, fr, False)
            out.append((models.write_bytes(self, s, p, m), VOID))
        return out

    def fb_erase_begin(self, e, d, st, fr, argv):
        n = models.arglin(self, d, st, argv, 0)
        out = []
        for s, m in self.clamp(st, n):
            sz = self.num(s, SZ)
            s = self.write(s, BASE, Num(self.num(s, BASE) + m))
            s = self.write(s, SZ, Num(sz - m))
            s = self.on_erase(s, m, n, e, fr)
            out.append((s, VOID))
        return out

    def on_erase(self, st, m, n, node, fr):
        return st

    def fb_write(self, e, d, st, fr, argv):
        p, n = models.argval(self, d, st, argv, 0), models.arglin(self, d, st, argv, 1)
        if isinstance(p, Ptr):
            self.access(st, p, n, "r", e, fr)
        sz = self.num(st, SZ)
        c = self.named("CAPACITY", 1, BUFMAX)
        ok = [(self.write(x, SZ, Num(sz + n)), Num(n)) for x in self.assume(st, ("le", sz + n - c))]
        return ok + [(st, Num(0))]

    def window(self, st, start, cnt):
        """states with the end of the searched window (relative to the buffer); None = nothing to search"""
        sz = self.num(st, SZ)
        out = [(x, None) for x in self.assume(st, ("le", sz - start))]
        for x in self.assume(st, ("le", start - sz + 1)):
            out += [(y, sz) for y in self.assume(x, ("le", sz - start - cnt))]
            out += [(y, start + cnt) for y in self.assume(x, ("le", start + cnt - sz + 1))]
        return out

    def search(self, st, first, start, cnt):
        base = self.num(st, BASE)
        out = []
        for s, end in self.window(st, start, cnt):
            if end is None:
                out.append((s, None, None))
                continue
            # found at once, or at a later position, or not at all
            at0 = self.el(base + start, 1)
            for y in (self.assume(s, ("eq", at0 - first)) if first is not None else [s]):
                for z in self.assume(y, ("le", start - end + 1)):
                    out.append((z, start, end))
            # not at the first position: either the byte differs or (longer patterns) the continuation does
            r = self.fresh("found", 0, BUFMAX)
            f = s.facts.with_le(start + 1 - r).with_le(r + 1 - end)
            if first is not None and self.feasible(State(s.store, f, s.epochs)):
                f = f.with_eq(self.el(base + r, 1) - first)
            z = State(s.store, f, s.epochs)
            if self.feasible(z):
                out.append((z, r, end))
            out.append((s, None, None))
        return out

    def fb_search_char(self, e, d, st, fr, argv):
        c, a, n = [models.arglin(self, d, st, argv, i) for i in range(3)]
        out = []
        for s, r, end in self.search(st, c, a, n):
            if r is None:
                for x in (self.assume(s, ("ne", self.el(self.num(s, BASE) + a, 1) - c)) if self.proves_le(s, a - self.num(s, SZ) + 1) and self.proves_le(s, Lin(1) - n) else [s]):
                    out.append((x, Num(NPOS)))
            elif r == a:
                out.append((s, Num(r)))
            else:
                for x in self.assume(s, ("ne", self.el(self.num(s, BASE) + a, 1) - c)):
                    out.append((x, Num(r)))
        return out

    def learn_byte(self, st, off, b):
        x = State(st.store, st.facts.with_eq(self.el(off, 1) - b), st.epochs)
        return x if self.feasible(x) else None

    def const_elems(self, st, argv, n):
        """The constant elements of a std::array argument, if all are known."""
        if not n:
            return None
        a = argv[0]
        v = a[1] if a[0] == "ref" else a[1] if a[0] == "val" else None
        loc = v.loc if isinstance(v, Obj) else v.reg if isinstance(v, Ptr) else v if isinstance(v, tuple) else None
        if loc is None:
            return None
        out = []
        for i in range(n):
            c = None
            for l, x in st.store.items():
                if l[:len(loc)] == loc and l[-1] == "[%d]" % i and isinstance(x, Num) and x.l.is_const():
                    c = x.l.c
            out.append(c)
        return out if None not in out else None

    def fb_search_chars(self, e, d, st, fr, argv):
        a, n = [models.arglin(self, d, st, argv, i) for i in (1, 2)]
        M = None
        t = self.strip(self.p.funs[d["id"]]["params"][0]["t"]) if d["id"] in self.p.funs else None
        if t is not None and t.get("ta"):
            M = int(t["ta"][1]["v"])
        pat = self.const_elems(st, argv, M)
        out = []
        for s, r, end in self.search(st, None, a, n):
            if r is None:
                out.append((s, Num(NPOS)))
                continue
            # a whole occurrence, or a prefix cut off by the window's end
            if M and M > 1:
                for x in self.assume(s, ("le", r + M - end)):
                    for i, b in enumerate(pat or ()):
                        x = self.learn_byte(x, self.num(x, BASE) + r + i, b)
                        if x is None:
                            break
                    if x is not None:
                        out.append((x, Num(r)))
                for x in self.assume(s, ("le", end - r - M + 1)):
                    for i, b in enumerate((pat or ())[:1]):
                        x = self.learn_byte(x, self.num(x, BASE) + r + i, b)
                    if x is not None:
                        out.append((x, Num(r)))
            else:
                out.append((s, Num(r)))
        return out

    # ---- checksums
    def char_crc(self, e, d, st, fr, argv):
        if argv[0][0] != "ref":
            return None
        loc = argv[0][1]
        cur = self.load(st, loc, self.strip(d["p"][0]) if isinstance(d["p"][0], int) else {"k": "int", "u": 1, "w": 32, "s": "uint32_t"})
        cur = self.as_lin(st, cur)
        p = self.stream_pos(models.argval(self, d, st, argv, 1))
        new = self.fresh("crc", 0, 2 ** 32 - 1)
        if p is not None:
            self.note_acc(st, loc, p)
        s = self.write(st, loc, Num(new))
        return [(self.chain(s, CS, CLO, CHI, cur, p, new), VOID)]

    def chain(self, st, cs, clo, chi, cur, p, new):
        s0, hi = self.num(st, cs), self.num(st, chi)
        if p is not None and s0 is not None and hi is not None and not cur == Lin(0) and entails_eq(st.facts, s0 - cur, self.rg) and entails_eq(st.facts, hi - p, self.rg):
            st = self.write(st, chi, Num(p + 1))
            return self.write(st, cs, Num(new))
        if p is not None and entails_eq(st.facts, cur, self.rg):
            st = self.write(st, clo, Num(p))
            st = self.write(st, chi, Num(p + 1))
            return self.write(st, cs, Num(new))
        return self.write(st, cs, Num(-1))

    def arith(self, st, op, a, b, t, node):
        if op == "^" and isinstance(a, Num) and isinstance(b, Num):
            for x, y in ((a, b), (b, a)):
                p = self.stream_pos(y)
                if p is not None and self.stream_pos(x) is None:
                    lo, hi = self.range_of(t)
                    new = self.fresh("xor", 0, hi)
                    self.xinfo[next(iter(new.t))] = (x.l, p)
                    return [(st, Num(new))]
        return super().arith(st, op, a, b, t, node)

    def on_assign(self, st, fr, node, loc, v):
        if isinstance(v, Num) and len(v.l.t) == 1 and next(iter(v.l.t)) in self.xinfo:
            cur, p = self.xinfo[next(iter(v.l.t))]
            self.note_acc(st, loc, p)
            st = self.chain(st, XS, XLO, XHI, cur, p, v.l)
        elif isinstance(v, Num) and v.l == Lin(0):
            # a cleared accumulator covers the empty range up to the next byte to be read
            for acc, cur in self.accs:
                x = self.num(st, cur) if acc == loc else None
                if x is not None:
                    p = self.num(st, BASE) + x
                    for g, val in ((CS, Lin(0)), (CLO, p), (CHI, p), (XS, Lin(0)), (XLO, p), (XHI, p)):
                        st = self.write(st, g, Num(val))
        return super().on_assign(st, fr, node, loc, v)

    def block_crc(self, e, d, st, fr, argv):
        p, n = models.argval(self, d, st, argv, 0), models.arglin(self, d, st, argv, 1)
        init = models.arglin(self, d, st, argv, 2) if len(argv) > 2 else Lin(0)
        if isinstance(p, Ptr):
            self.access(st, p, n, "r", e, fr)
        v = self.fresh("blockcrc", 0, 2 ** 32 - 1)
        if isinstance(p, Ptr) and p.reg == STREAM and entails_eq(st.facts, init, self.rg):
            self.blk[next(iter(v.t))] = (p.off, n)
        return [(st, Num(v))]

    # ---- loops: one head per value of the enumeration-typed control variables
    def control_key(self, st, locs):
        k = {}
        for l in locs:
            v = st.store.get(l)
            if isinstance(v, Num):
                c = v.l if v.l.is_const() else st.facts.red(self.rg).ap(v.l)
                if c.is_const():
                    k[l] = c.c
        return k

    def chain_key(self, st):
        """Is each running checksum aligned with the reading position (so that the next byte read continues it)?"""
        out = []
        for acc, cur in sorted(self.accs, key=str):
            x = self.num(st, cur)
            if x is None:
                continue
            p = self.num(st, BASE) + x
            for g in (CHI, XHI):
                h = self.num(st, g)
                out.append(h is not None and entails_eq(st.facts, h - p, self.rg))
        return tuple(out)

    def is_control(self, loc, sts):
        t = self.loc_type(loc)
        if t is not None and t["k"] in ("enum", "bool"):
            return True
        return any(isinstance(s.store.get(loc), Num) and s.store[loc].l == Lin(NPOS) for s in sts)

    def is_enum_loc(self, l):
        r = self._enumc.get(l)
        if r is None:
            t = self.loc_type(l)
            r = self._enumc[l] = bool(t is not None and t["k"] == "enum")
        return r

    def partition(self, st):
        k = [(l[-1] if len(l) > 2 and str(l[0])[:2] in ("T:", "R:") else str(l), v.l.c) for l, v in st.store.items() if isinstance(v, Num) and not v.l.t and self.is_enum_loc(l)]
        return (tuple(sorted(k)), str(st.store.get(LOG)))

    def loop(self, s, sts, fr, out, pre, cond, inc, body, dowhile):
        sts = self.dedupe(sts)
        exits, pend = [], []
        for st in sts:
            if not dowhile and not self.on_members(cond) and self.head_decidable(cond, st, fr):
                saved = ({k: list(v) for k, v in self.obl.items()}, list(self.thrown))
                o2 = Out()
                r = self.try_unroll(s, st, fr, o2, pre, cond, inc, body, dowhile)
                if r is not None:
                    exits += r
                    out.ret += o2.ret
                    continue
                self.obl, self.thrown = saved
            pend.append(st)
        groups = {}
        for st in pend:
            groups.setdefault(repr(st.store.get(LOG)), []).append(st)
        if len(groups) > 48:
            groups = {0: pend}
        for g in groups.values():       # what has been delivered so far is kept apart
            exits += self.part_loop(s, g, fr, out, pre, cond, inc, body, dowhile)
        return self.limit(exits)

    def on_members(self, e):
        """Does the expression read a member (a state machine's loop, not a counting one)?"""
        todo = [e]
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                todo += x
            elif isinstance(x, dict):
                if x.get("k") == "Mem":
                    return True
                todo += [y for y in x.values() if isinstance(y, (dict, list))]
        return False

    def common(self, sts):
        """A state keeping what all the given states share; the other locations are returned."""
        b = sts[0]
        diff = set()
        locs = set()
        for x in sts:
            locs |= set(x.store)
        for l in locs:
            vs = [x.store.get(l) for x in sts]
            if any(v != vs[0] for v in vs):
                diff.add(l)
        les = [l for l in b.facts.les if all(l in x.facts.les for x in sts[1:])]
        eqs = [l for l in b.facts.eqs if all(l in x.facts.eqs for x in sts[1:])]
        nes = [l for l in b.facts.nes if all(l in x.facts.nes for x in sts[1:])]
        ep = {}
        for x in sts:
            for k, v in x.epochs.items():
                if any(y.epochs.get(k) != v for y in sts):
                    ep[k] = next(self.ctr) + 1
                else:
                    ep[k] = v
        return State({l: v for l, v in b.store.items() if l not in diff}, Facts(eqs, les, nes), ep), diff

    def part_loop(self, s, sts, fr, out, pre, cond, inc, body, dowhile):
        def iterate(h):
            if dowhile:
                _, back, o = self.run_iter([h], fr, None, None, inc, body, True)
                fa = []
            else:
                fa, back, o = self.run_iter([h], fr, pre, cond, inc, body)
            nb = []
            for b in back:
                if cond is None or pre:
                    nb.append(b)
                    continue
                t, f = self.cond(cond, b, fr)
                if dowhile:
                    nb += t
                    fa += f
                elif not t:
                    fa += f            # leaves at once: keep the precise state
                else:
                    nb.append(b)
            return fa, nb, o

        base, mod = self.common(sts)
        self.quiet += 1
        saved_thrown = self.thrown
        try:
            backs = []
            for rnd in range(12):
                mark = next(self.ctr)
                h, _ = self.havoc_head(base, mod)
                for l in mod:
                    if l in (SZ, BASE) + GHOSTS and l not in h.store:
                        lo, hi = self.type_range(l)
                        h.store[l] = Num(self.fresh("h:" + locstr(l), lo, hi))
                w = set()
                if self.writes is None:
                    self.writes = []
                self.writes.append(w)
                self.thrown = []
                try:
                    fa, backs, o = iterate(h)
                finally:
                    self.writes.pop()
                    if not self.writes:
                        self.writes = None
                nm = {l for l in w if not (isinstance(l[0], str) and l[0][:2] in ("T:", "R:", "C:"))}
                # objects first named during this very iteration cannot be named by the state at the head
                nm = {l for l in nm if not any(isinstance(c, str) and c[:1] == "*" and c[1:].isdigit() and int(c[1:]) > mark for c in l)}
                # written only on the way out of the loop: not modified from the head's point of view
                nm = {l for l in nm if l[-1] in ("#all", "[*]") or l not in h.store or any(b.store.get(l) != h.store[l] for b in backs)}
                if nm <= mod:
                    break
                mod |= nm
            else:
                raise Limit("loop effect does not stabilise at %s:%s" % (fr.fn["file"], s.get("l")))
            live = set()
            for x in sts:
                live |= set(x.store)
            nlocs = []
            for l in sorted(mod, key=str):
                if l[-1] in ("#all", "[*]") or l == LOG:
                    continue
                if str(l[0]).startswith("L:") and l not in live:
                    continue
                t = self.loc_type(l)
                if l in GHOSTS or (t is not None and self.is_num(t) and t["k"] != "float"):
                    nlocs.append(l)
            ctl = [l for l in nlocs if self.is_control(l, sts + backs)]
            self.enumlocs |= set(ctl)
            hbase, _ = self.havoc_head(base, {l for l in mod if l not in nlocs})
            anchors = [(self.num(base, SZ), True)] if SZ not in mod else []
            anchors.append((self.fbs, True))
            heads = {}
            work = []

            def elref(l):
                return l not in GHOSTS

            def enter(b):
                b = self.norm_chain(b, nlocs)
                k = self.control_key(b, ctl)
                kk = (self.chain_key(b),) + tuple(sorted((str(l), c) for l, c in k.items()))
                h = heads.get(kk)
                if h is None:
                    h = heads[kk] = Head(self, hbase, nlocs, k, anchors, elref)
                    if LOG in mod:
                        h.store.pop(LOG, None)
                val = {l: self.num(b, l) for l in h.locs}
                if h.add(b, val, anchors) and kk not in work:
                    work.append(kk)
            for b in sts:
                enter(b)
            steps = 0
            kk = None
            while work:
                kk = work.pop(work.index(kk) if kk in work else 0)
                steps += 1
                if steps > 2000:
                    raise Limit("loop invariant does not stabilise at %s:%s" % (fr.fn["file"], s.get("l")))
                self.thrown = []
                fa, back, o = iterate(heads[kk].state())
                if self.trace:
                    print("step", steps, "heads", len(heads), "work", len(work), "back", len(back), kk and kk[-1], flush=True)
                for b in back:
                    enter(b)
        finally:
            self.quiet -= 1
            self.thrown = saved_thrown
        if self.writes is not None:
            for w in self.writes:
                w |= mod
        exits = []
        for kk in heads:
            fa, back, o = iterate(heads[kk].state())
            exits += fa + o.brk
            out.ret += o.ret
            self.heads_seen += 1
        return exits

    def norm_chain(self, b, nlocs):
        """Forget checksum chains that no longer describe the accumulator."""
        for acc, cur in self.accs:
            v = b.store.get(acc)
            x = self.num(b, cur)
            if isinstance(v, Num) and not v.l == Lin(0):
                # a chain that no longer ends in the accumulator's value is of no further use
                for cs, lo, hi in ((CS, CLO, CHI), (XS, XLO, XHI)):
                    c = self.num(b, cs)
                    if c is not None and not c == Lin(-1) and not entails_eq(b.facts, c - v.l, self.rg):
                        b = State(dict(b.store), b.facts, b.epochs)
                        b.store[cs] = Num(-1)
                        b.store[lo] = b.store[hi] = b.store[BASE]
        return b

    def note_acc(self, st, acc, p):
        """Remember which location accumulates a checksum and which one counts the bytes read."""
        for l, v in st.store.items():
            if isinstance(v, Num) and l != acc and l[0] == acc[0] and l not in GHOSTS and l[-1].__class__ is str and l[-1].startswith("f:") and v.l.t and p - self.num(st, BASE) + 1 == v.l:
                self.accs.add((acc, l))


def resolve_bytes(eng, st, p, n):
    """Stream offsets of the n bytes at p, when they are known to be consecutive: offset of the first one."""
    if p.reg == STREAM:
        return p.off
    if not p.off.is_const():
        return None
    first = None
    for i in range(n):
        v = st.store.get(p.reg + ("[%d]" % (p.off.c + i),))
        q = eng.stream_pos(v)
        if q is None:
            fr = st.store.get(p.reg + ("#from",))
            return fr.off + p.off if isinstance(fr, Ptr) and fr.reg == STREAM else None
        if first is None:
            first = q
        elif not entails_eq(st.facts, q - first - i, eng.rg):
            return None
    return first


def m_from_chars(eng, e, d, st, fr, obj, argv):
    a, b = models.argval(eng, d, st, argv, 0), models.argval(eng, d, st, argv, 1)
    base = models.arglin(eng, d, st, argv, 3) if len(argv) > 3 else Lin(10)
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and argv[2][0] == "ref"):
        return models.m_from_chars(eng, e, d, st, fr, obj, argv)
    n = b.off - a.off
    eng.access(st, a, n, "r", e, fr)
    rid = models.rt(eng, d).get("rec")
    fp, fe = models.rec_field(eng, rid, "ptr"), models.rec_field(eng, rid, "ec")
    out = []
    src = resolve_bytes(eng, st, a, n.c) if n.is_const() and 0 < n.c <= 32 else None
    for good in (True, False):
        loc = ("T:fc%s:%s" % (e.get("l"), id(e)), fr.key)
        s = State(dict(st.store), st.facts, dict(st.epochs))
        k = eng.fresh("parsed", 0, 2 ** 31)
        s.facts = s.facts.with_le(k - n)
        if good:
            t = eng.loc_type(argv[2][1]) or {"k": "int", "u": 1, "w": 32, "s": "uint32_t"}
            lo, hi = eng.range_of(t)
            v = eng.fresh("hexvalue", lo, hi)
            if src is not None and base.is_const():
                eng.fcinfo[next(iter(v.t))] = (src, n.c, base.c)
            s = eng.write(s, argv[2][1], Num(v))
            s.store[loc + (fe,)] = Num(0)
        else:
            ec = eng.fresh("ec", 1, 200)
            s.store[loc + (fe,)] = Num(ec)
        s.store[loc + (fp,)] = Ptr(a.reg, a.off + k, Lin(0))
        out.append((s, Obj(loc)))
    return out
