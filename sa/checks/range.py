"""Range decompression: channel tracking words and bit fields."""
import re
from ..lin import Lin
from ..engine import Engine, State, Num, Bool, Ptr, Obj, Opq, VOID
from ..program import AnalysisError
from ..report import where
from ..bits import BitsMixin
from .. import models
from .header import equal, walk

WORD = ("word",)
SAT, SIG, BLK = ("sat",), ("sig",), ("blk",)
U32 = (1 << 32) - 1


class RangeEngine(BitsMixin, Engine):
    """Small finite loops are unrolled completely; constant floating point expressions are evaluated."""
    fork_unroll = True
    unroll = 80
    max_states = 1200
    max_steps = 40000000

    def as_lin(self, st, v, lo=None, hi=None):
        if isinstance(v, Bool) and v.f[0] == "ne":
            l = v.f[1]
            b = self.bits(l)
            if b is not None:
                ones = [x for x in b if x != 0]
                if len(ones) == 1 and ones[0] != 1:
                    return self.frombits((ones[0],)).l
        return super().as_lin(st, v, lo, hi)

    counters = None
    counting = False    # sums of bits (not only combinations of bits) are of interest

    def s_If(self, s, sts, fr, out):
        """A conditional on one bit whose two outcomes differ in numbers only is folded into one state (value = a + bit * (b - a))."""
        if s.get("init") or s.get("cv"):
            return super().s_If(s, sts, fr, out)
        res = []
        for st in sts:
            tr, fa = self.cond(s["c"], st, fr)
            m0 = (len(out.ret), len(out.brk), len(out.cont))
            r1 = self.ex(s["a"], tr, fr, out) if tr else []
            r0 = (self.ex(s["b"], fa, fr, out) if s.get("b") else fa) if fa else []
            if len(tr) == 1 and len(fa) == 1 and len(r1) == 1 and len(r0) == 1 and (len(out.ret), len(out.brk), len(out.cont)) == m0:
                m = self.fold(st, tr[0], fa[0], r1[0], r0[0])
                if m is not None:
                    res.append(m)
                    continue
            res += r1 + r0
        return self.limit(res)

    def fold(self, st, tr, fa, r1, r0):
        if r1.facts != tr.facts or r0.facts != fa.facts:
            return None
        bit = self.onebit(st, tr, fa)
        if bit is None or r1.epochs != r0.epochs:
            return None
        new = {}
        for k in set(r1.store) | set(r0.store):
            a, b = r1.store.get(k), r0.store.get(k)
            if a == b:
                new[k] = a
                continue
            if not isinstance(a, (Num, Bool)) or not isinstance(b, (Num, Bool)):
                return None
            la, lb = self.as_lin(r1, a), self.as_lin(r0, b)
            v = self.mux(bit, la, lb)
            if v is None:
                return None
            new[k] = v
        return State(new, st.facts, r1.epochs)

    def onebit(self, st, tr, fa):
        """The single bit (or its complement) that is 1 in the first and 0 in the second state."""
        f = self.lastcond
        b = self.bits(f[1]) if f is not None and f[0] in ("ne", "eq") else None
        ones = [x for x in b if x != 0] if b is not None else []
        if len(ones) != 1 or ones[0] == 1:
            return None
        x = self.frombits((ones[0],)).l
        if equal(self, tr, x, Lin(1)) and equal(self, fa, x, Lin(0)):
            return x, True
        if equal(self, tr, x, Lin(0)) and equal(self, fa, x, Lin(1)):
            return x, False
        return None

    def mux(self, bit, a, b):
        x, pos = bit
        if not pos:
            a, b = b, a
        ba, bb = self.bits(a), self.bits(b)
        if ba is not None and bb is not None:
            xb = next(z for z in self.bits(x) if z != 0)
            n = max(len(ba), len(bb))
            r = []
            for p, q in zip(ba + (0,) * (n - len(ba)), bb + (0,) * (n - len(bb))):
                p, q = 1 if p == xb else p, 0 if q == xb else q
                r.append(p if p == q else xb if (p, q) == (1, 0) else None)
            if None not in r:
                return self.frombits(tuple(r))
        d = a - b
        return Num(b + x.scale(d.c)) if self.counting and d.is_const() else None

    def e_Cond(self, e, st, fr):
        tr, fa = self.cond(e["c"], st, fr)
        if len(tr) == 1 and len(fa) == 1 and not e.get("lv"):
            bit = self.onebit(st, tr[0], fa[0])
            if bit is not None:
                a, b = self.ev(e["a"], tr[0], fr), self.ev(e["b"], fa[0], fr)
                if len(a) == 1 and len(b) == 1 and isinstance(a[0][1], (Num, Bool)) and isinstance(b[0][1], (Num, Bool)):
                    m = self.fold(st, tr[0], fa[0], a[0][0], b[0][0])
                    la, lb = self.as_lin(a[0][0], a[0][1]), self.as_lin(b[0][0], b[0][1])
                    v = self.mux(bit, la, lb)
                    if m is not None and v is not None:
                        return [(m, v)]
                return a + b
        return super().e_Cond(e, st, fr)

    lastcond = None

    def assume(self, st, f):
        if f[0] in ("ne", "eq"):
            self.lastcond = f
        return super().assume(st, f)

    def counts_bits(self, f):
        """Whether the function (of one unsigned integer, with a loop) provably returns the number of set bits."""
        if self.counters is None:
            self.counters = {}
        r = self.counters.get(f["id"])
        if r is not None:
            return r
        self.counters[f["id"]] = False
        t = self.T(f["params"][0]["t"]) if len(f["params"]) == 1 else {}
        if t.get("k") != "int" or not t.get("u") or not has_loop(f["body"]):
            return False
        sub = RangeEngine(self.p)
        sub.counters = self.counters
        sub.counting = True
        sub.max_steps = 400000
        x = sub.named("value", 0, (1 << t["w"]) - 1)
        ok = False
        try:
            ok = True
            for s, v in sub.analyse(f, None, State(), [Num(x)]):
                if not sub.feasible(s):
                    continue
                l = sub.as_lin(s, v)
                xs = sub.bits(x)
                ok = ok and any(equal(sub, s, l, sum((sub.frombits((b,)).l for b in xs[:k]), Lin(0))) and
                                (k == t["w"] or equal(sub, s, sub.frombits(xs[k:]).l, Lin(0))) for k in (len(l.t), len(l.t) + 1) if k <= t["w"])
            ok = ok and not sub.thrown
        except AnalysisError:
            ok = False
        self.counters[f["id"]] = ok
        return ok

    def on_call(self, st, fr, e, d, obj, argv):
        if obj is None and len(argv) == 1 and argv[0][0] == "val" and isinstance(argv[0][1], Num) and not argv[0][1].l.is_const():
            f = self.p.funs.get(d["id"])
            if (f is not None and self.counts_bits(f)) or d["n"] in ("__builtin_popcount", "__builtin_popcountl", "__builtin_popcountll"):
                b = self.bits(argv[0][1].l)
                if b is not None:
                    return [(st, Num(sum((Lin(x) if x in (0, 1) else self.frombits((x,)).l for x in b), Lin(0))))]
        if obj is None and argv and all(k == "val" and isinstance(v, Num) and v.l.is_const() for k, v in argv):
            f = self.p.funs.get(d["id"])
            if f is not None and has_loop(f["body"]):
                key = ("const", f["id"]) + tuple(v.l.c for _, v in argv)
                if key not in self.memo:
                    sub = RangeEngine(self.p)
                    r = sub.analyse(f, None, State(), [v for _, v in argv])
                    self.memo[key] = r[0][1] if len(r) == 1 and not sub.thrown and isinstance(r[0][1], Num) and r[0][1].l.is_const() else None
                if self.memo[key] is not None:
                    return [(st, self.memo[key])]
        return super().on_call(st, fr, e, d, obj, argv)

    def convert(self, st, v, t, ft=None):
        if isinstance(v, Bool) and t["k"] in ("int", "enum"):
            return Num(self.as_lin(st, v))
        return super().convert(st, v, t, ft)


def has_loop(b):
    found = []
    walk(b, lambda n: found.append(1) if n.get("k") in ("While", "For", "Do") else None)
    return bool(found)


def number(v):
    """The value of a constant floating point expression, or None."""
    if isinstance(v, Num):
        return float(v.l.c) if v.l.is_const() else None
    if not isinstance(v, Opq):
        return None
    s = re.sub(r"flt:'?([-+0-9.eE]+)'?", r"\1", v.s)
    s = re.sub(r"N\((-?[0-9]+)\)", r"\1", s).replace("flt(", "(")
    if not re.fullmatch(r"[-+*/(). 0-9eE]+", s):
        return None
    try:
        return float(eval(s, {"__builtins__": {}}))
    except Exception:
        return None


# Satellite systems as numbered in the compressed logs, and in the channel tracking status word (7: other).
CTS = {0: 0, 1: 1, 2: 2, 5: 3, 6: 4, 7: 5, 9: 6}
# Signals as numbered in RANGECMP2 (per tracking status system) -> signal type of the tracking status word.
R2 = {0: {1: 0, 4: 9, 5: 17, 6: 5, 7: 14, 15: 16}, 1: {1: 0, 3: 1, 4: 5, 6: 6}, 2: {1: 0, 2: 6}, 3: {1: 2, 2: 12, 3: 17, 4: 20, 5: 7, 12: 6},
      4: {1: 0, 2: 4, 3: 1, 4: 5, 13: 2, 16: 6, 19: 7, 20: 9, 21: 11}, 5: {1: 0, 2: 24, 3: 17, 4: 14, 8: 16, 10: 28, 11: 27}, 6: {1: 0}, 7: {1: 19}}
# The same for RANGECMP4 and RANGECMP5.
R4 = {0: {1: 0, 4: 9, 5: 17, 6: 5, 7: 14, 15: 16}, 1: {1: 0, 3: 1, 4: 5, 6: 6}, 2: {1: 0, 2: 6}, 3: {1: 2, 2: 12, 3: 17, 4: 20, 5: 7, 12: 6},
      4: {1: 0, 2: 4, 3: 1, 4: 5, 5: 2, 6: 6, 7: 7, 9: 9, 11: 11}, 5: {1: 0, 2: 24, 3: 17, 4: 14, 8: 16, 10: 28, 11: 27}, 6: {1: 0}}
L1, L2, L5, E6 = 1575.42e6, 1227.6e6, 1176.45e6, 1278.75e6
# Carrier frequency by tracking status system and signal type; a pair (base, step) depends on the GLONASS frequency number.
CARRIER = {0: {0: L1, 16: L1, 5: L2, 9: L2, 17: L2, 14: L5}, 1: {0: (1602e6, 562500.0), 1: (1246e6, 437500.0), 5: (1246e6, 437500.0), 6: 1202.025e6},
           2: {0: L1, 6: L5}, 3: {2: L1, 6: E6, 7: E6, 12: L5, 17: 1207.14e6, 20: 1191.795e6},
           4: {0: 1561.098e6, 4: 1561.098e6, 1: 1207.14e6, 5: 1207.14e6, 11: 1207.14e6, 2: 1268.52e6, 6: 1268.52e6, 7: L1, 9: L5},
           5: {0: L1, 24: L1, 16: L1, 17: L2, 14: L5, 27: E6, 28: E6}, 6: {0: L5}}
RESERVED = (1 << 19) | (1 << 26)
SPEED = 299792458.0


def sl(eng, l, lo, n):
    b = tuple(eng.bits(l)) + (0,) * 64
    return b[lo:lo + n]


class Words:
    def __init__(self, prog, res):
        self.p, self.res = prog, res
        self.fs = {}
        self.ctors = []
        for f in prog.funs.values():
            d = f["decl"]
            if d.get("cls", "").endswith("::ChannelTrackingStatus") or d["q"].startswith("novatel::edie::oem::ChannelTrackingStatus::"):
                if d.get("ctor"):
                    if f["params"] and not d.get("implicit"):
                        self.ctors.append(f)
                else:
                    self.fs.setdefault(d["n"], f)
        for n in ("GetAsWord", "GetSignalWavelength", "CalculatePrn", "MakeKey", "GetSystem"):
            if n not in self.fs:
                raise AnalysisError("ChannelTrackingStatus::%s not found" % n)
        self.eng = RangeEngine(prog)

    def ctor(self, *pts):
        """The constructor whose parameters' type names end with the given ones."""
        out = []
        for f in self.ctors:
            ts = [self.tyname(p["t"]) for p in f["params"]]
            if len(ts) == len(pts) and all(a.endswith(b) for a, b in zip(ts, pts)):
                out.append(f)
        if len(out) != 1:
            raise AnalysisError("constructor of a channel tracking status from %s" % (pts,))
        return out[0]

    def tyname(self, t):
        t = self.p.types[t]
        while t["k"] in ("ref", "ptr"):
            t = self.p.types[t["to"]]
        return (t.get("q") or t.get("s") or "").replace("const ", "").strip()

    def build(self, f, argv, st=None):
        eng = self.eng
        out = [s for s, _ in eng.analyse(f, WORD, st or State(), argv) if eng.feasible(s)]
        thrown = [x for x in eng.thrown if eng.feasible(x[0])]
        self.res.ob(not thrown and out, where(f), "total", "a channel tracking status is built for every input")
        return out

    def word(self, s):
        eng = self.eng
        f = self.fs["GetAsWord"]
        out = [(x, eng.as_lin(x, v)) for x, v in eng.analyse(f, WORD, State(dict(s.store), s.facts, dict(s.epochs)), []) if eng.feasible(x)]
        thrown = [x for x in eng.thrown if eng.feasible(x[0])]
        self.res.ob(not thrown and out, where(f), "total", "every channel tracking status has a word")
        return out

    def bit_is(self, s, got, want):
        """One bit (constant or slice) equals another on this path."""
        if got == want:
            return True
        a = Lin(got) if got in (0, 1) else self.eng.frombits((got,)).l
        b = Lin(want) if want in (0, 1) else self.eng.frombits((want,)).l
        return equal(self.eng, s, a, b)

    def layout(self, s, w, want, at, msgs, only=None):
        """Compare the word with a list of 32 expected bits (None: not judged)."""
        b = self.eng.bits(w)
        if b is None:
            self.res.ob(False, at, "layout", "the word consists of bits of its source", "%s" % w)
            return
        b = tuple(b) + (0,) * 32
        for name, lo, n in msgs:
            ok = all(want[i] is None or self.bit_is(s, b[i], want[i]) for i in range(lo, lo + n))
            self.res.ob(ok, at, "layout", "%s (bits %d to %d of the word)" % (name, lo, lo + n - 1), "found %s" % (b[lo:lo + n],))
        self.res.ob(not any(b[32:]), at, "layout", "the word has 32 bits")


FIELDS = [("tracking state", 0, 5), ("channel number", 5, 5), ("phase lock", 10, 1), ("parity known", 11, 1), ("code lock", 12, 1), ("correlator type", 13, 3),
          ("satellite system", 16, 3), ("reserved", 19, 1), ("grouping", 20, 1), ("signal type", 21, 5), ("reserved", 26, 1), ("primary channel", 27, 1),
          ("half cycle added", 28, 1), ("digital filtering", 29, 1), ("PRN lock", 30, 1), ("forced assignment", 31, 1)]


def run_words(prog, res, tier):
    m = Words(prog, res)
    eng = m.eng
    byword = m.ctor("int")
    at = where(m.fs["GetAsWord"])
    # a word taken apart and put together again
    w = eng.named("w", 0, U32)
    n = 0
    for s in m.build(byword, [Num(w)]):
        for s2, out in m.word(s):
            want = [0 if RESERVED >> i & 1 else x for i, x in enumerate(eng.bits(w))]
            m.layout(s2, out, want, at, FIELDS)
            n += 1
    res.floor("exits_word_round_trip", n, 1)
    from2(m)
    from45(m)
    signals(m)
    keys(m)
    prns(m)
    res.merge_engine(eng)


def rec_of(m, f, i):
    t = m.p.types[f["params"][i]["t"]]
    while t["k"] == "ref":
        t = m.p.types[t["to"]]
    return m.p.recs[t["rec"]]


def set_fields(m, st, loc, rec, vals):
    st = State(dict(st.store), st.facts, dict(st.epochs))
    for f in rec["f"]:
        st.store[loc + ("f:" + f["id"],)] = vals[f["n"]]
    return st


def from2(m):
    eng, res = m.eng, m.res
    f = m.ctor("rangecmp2::SatelliteBlock", "rangecmp2::SignalBlock")
    at = where(f)
    rs, rg = rec_of(m, f, 0), rec_of(m, f, 1)
    if [x["off"] for x in rs["f"]] != [0, 8, 16] or [x["off"] for x in rg["f"]] != [0, 32]:
        res.ob(False, at, "layout", "the RANGECMP2 blocks are laid out as documented")
        return
    ch, com, one = eng.named("channel", 0, 255), eng.named("sat.field", 0, (1 << 64) - 1), eng.named("sig.field", 0, U32)
    two = eng.named("sig.field2", 0, (1 << 64) - 1)
    sid = eng.named("sat.id", 0, 255)

    def go(chan, sat, sig):
        st = set_fields(m, State(), SAT, rs, dict(zip([x["n"] for x in rs["f"]], (Num(chan), Num(sid), Num(sat)))))
        st = set_fields(m, st, SIG, rg, dict(zip([x["n"] for x in rg["f"]], (Num(sig), Num(two)))))
        return [(s2, w) for s in m.build(f, [Ptr(SAT), Ptr(SIG)], st) for s2, w in m.word(s)]

    def plain(lo, lin):
        return list(sl(eng, lin, lo[0], lo[1]))
    # everything but system and signal type, for arbitrary blocks
    judged = [x for x in FIELDS if x[0] not in ("satellite system", "signal type", "tracking state", "grouping")]
    n = 0
    for system, sig in ((None, None), (0, 1), (4, 1)):
        o = one if sig is None else eng.frombits((1,) + (0,) * 4 + sl(eng, one, 5, 27)).l
        c = com if system is None else eng.frombits(sl(eng, com, 0, 4) + tuple(system >> i & 1 for i in range(5)) + sl(eng, com, 9, 55)).l
        for s, w in go(ch, c, o):
            want = [None] * 32
            want[5:10] = sl(eng, ch, 0, 5)
            want[10:13] = sl(eng, o, 5, 3)
            want[13:16] = sl(eng, o, 25, 3)
            want[19] = want[26] = 0
            want[27:29] = sl(eng, o, 29, 2)
            want[29:32] = [0, 0, 0]
            m.layout(s, w, want, at, judged)
            b = tuple(eng.bits(w) or ()) + (0,) * 32
            prim = eng.frombits((sl(eng, o, 29, 1)[0],)).l
            state = eng.frombits(b[:5]).l
            for val, st8 in ((1, 4), (0, 11)):
                for t in eng.assume(s, ("eq", prim - val)):
                    if eng.feasible(t):
                        res.ob(equal(eng, t, state, Lin(st8)), at, "layout", "the tracking state follows the primary signal flag", "%s" % state)
            cnt = eng.frombits(sl(eng, c, 60, 4)).l
            g = eng.frombits(b[20:21]).l
            for t in eng.assume(s, ("le", cnt - 1)):
                if eng.feasible(t):
                    res.ob(equal(eng, t, g, Lin(0)), at, "layout", "a single signal is not grouped", "%s" % g)
            for t in eng.assume(s, ("le", Lin(2) - cnt)):
                if eng.feasible(t):
                    res.ob(equal(eng, t, g, Lin(1)), at, "layout", "several signals of a satellite are grouped", "%s" % g)
            n += 1
    res.floor("exits_rangecmp2_blocks", n, 3)
    n = 0
    for system in range(32):
        cts = CTS.get(system, 7)
        for sig in range(32):
            for s, w in go(Lin(0), Lin(system << 4), Lin(sig)):
                code = w.c if w.is_const() else None
                want = R2[cts].get(sig, 0) if cts in R2 else 0
                res.ob(code is not None and code >> 16 & 7 == cts, at, "signal", "RANGECMP2 satellite system %d has its documented code" % system, "word %s" % w)
                res.ob(code is not None and code >> 21 & 31 == want, at, "signal", "RANGECMP2 signal %d of system %d has its documented code" % (sig, system), "word %s" % w)
                n += 1
    res.floor("rangecmp2_signals", n, 1024)


def from45(m):
    eng, res = m.eng, m.res
    n = 0
    for kind in ("rangecmp4", "rangecmp5"):
        f = m.ctor("SYSTEM", "rangecmp4::SIGNAL_TYPE", kind + "::MeasurementSignalBlock")
        at = where(f)
        r = rec_of(m, f, 2)
        flags = {x["n"]: eng.named("blk." + x["n"], 0, 1) for x in r["f"] if eng.T(x["t"])["k"] == "bool"}
        names = {"bParityKnown": 11, "bHalfCycleAdded": 28, "bValidPsr": 12, "bValidPhr": 10}
        if not all(k in flags for k in names):
            raise AnalysisError("flags of a %s block" % kind)
        st = State()
        st = State(dict(st.store), st.facts, dict(st.epochs))
        for x in r["f"]:
            if x["n"] in flags:
                st.store[BLK + ("f:" + x["id"],)] = Num(flags[x["n"]])
        for system in range(16):
            cts = CTS.get(system, 7)
            for sig in range(16):
                for s in m.build(f, [Num(system), Num(sig), Ptr(BLK)], st):
                    for s2, w in m.word(s):
                        sg = R4[cts].get(sig, 0) if cts in R4 else 0
                        prim = sig == 1 or (cts, sig) in ((4, 2), (5, 2))
                        code = (4 if prim else 11) | cts << 16 | sg << 21 | (1 << 27 if prim else 0)
                        want = [code >> i & 1 for i in range(32)]
                        for k, b in names.items():
                            want[b] = eng.bits(flags[k])[0]
                        m.layout(s2, w, want, at, FIELDS)
                        n += 1
    res.floor("rangecmp4_and_5_exits", n, 512)


def words(m):
    """(system, signal, state) for every tracking status word, other fields arbitrary but irrelevant."""
    byword = m.ctor("int")
    for cts in range(8):
        for sig in range(32):
            for s in m.build(byword, [Num(cts << 16 | sig << 21)]):
                yield cts, sig, State(dict(s.store), s.facts, dict(s.epochs))


def signals(m):
    eng, res = m.eng, m.res
    f, g = m.fs["GetSignalWavelength"], m.fs["GetSystem"]
    n = 0
    back = {v: k for k, v in CTS.items()}
    for cts, sig, s in words(m):
        want = CARRIER.get(cts, {}).get(sig)
        for fn in (range(-1, 23) if isinstance(want, tuple) else (7,)):
            rs = [(x, v) for x, v in eng.analyse(f, WORD, s, [Num(fn)]) if eng.feasible(x)]
            if isinstance(want, tuple) and not 0 <= fn < 21:
                res.ob(not rs, where(f), "carrier", "a GLONASS frequency number outside the table is refused", "number %d" % fn)
                continue
            hz = want[0] + (fn - 7) * want[1] if isinstance(want, tuple) else want
            for x, v in rs:
                got = number(v)
                exp = SPEED / hz if hz else 0.0
                res.ob(got is not None and abs(got - exp) <= 1e-12 * max(1.0, exp), where(f), "carrier",
                       "system %d signal %d has its carrier's wavelength" % (cts, sig), "%s, expected %r" % (v if got is None else got, exp))
                n += 1
            res.ob(bool(rs), where(f), "carrier", "system %d signal %d has a wavelength" % (cts, sig))
        if sig == 0:
            for x, v in eng.analyse(g, WORD, s, []):
                l = eng.as_lin(x, v)
                res.ob(equal(eng, x, l, Lin(back.get(cts, -1))), where(g), "system", "tracking status system %d is reported as the system it came from" % cts, "%s" % l)
    res.floor("signal_wavelengths", n, 256)


def keys(m):
    eng, res = m.eng, m.res
    f = m.fs["MakeKey"]
    w = eng.named("w", 0, U32)
    prn, src = eng.named("prn", 0, 255), eng.named("source", 0, 1)
    n = 0
    for s in m.build(m.ctor("int"), [Num(w)]):
        for x, v in eng.analyse(f, WORD, State(dict(s.store), s.facts, dict(s.epochs)), [Num(prn), Num(src)]):
            if eng.feasible(x):
                distinct(m, eng, x, v, f, {"satellite system": sl(eng, w, 16, 3), "signal type": sl(eng, w, 21, 5), "satellite number": sl(eng, prn, 0, 8), "source": sl(eng, src, 0, 1)})
                n += 1
    for g in m.p.funs.values():
        if g["decl"]["q"].endswith("rangecmp4::MakeKey"):
            a = [eng.named("key.system", 0, 15), eng.named("key.prn", 0, 63), eng.named("key.signal", 0, 15), src]
            for x, v in eng.analyse(g, None, State(), [Num(y) for y in a]):
                if eng.feasible(x):
                    distinct(m, eng, x, v, g, {"satellite system": sl(eng, a[0], 0, 4), "satellite number": sl(eng, a[1], 0, 6), "signal type": sl(eng, a[2], 0, 4), "source": sl(eng, src, 0, 1)})
                    n += 1
    res.floor("observation_keys", n, 1)


def distinct(m, eng, s, v, f, parts):
    b = eng.bits(eng.as_lin(s, v))
    for name, want in parts.items():
        m.res.ob(b is not None and all(x in b for x in want), where(f), "key", "observations that differ in %s have different keys" % name, "key bits %s" % (b,))


def prns(m):
    eng, res = m.eng, m.res
    f = m.fs["CalculatePrn"]
    n = 0
    for cts in range(8):
        for s in m.build(m.ctor("int"), [Num(cts << 16)]):
            for prn in range(0, 65):
                for x, v in eng.analyse(f, WORD, State(dict(s.store), s.facts, dict(s.epochs)), [Num(prn)]):
                    if cts == 1:
                        want = 0 if 43 <= prn <= 64 else prn + 37
                    elif cts == 2:
                        want = prn + 119 if 1 <= prn <= 39 else prn + 129 if 54 <= prn <= 62 else 0
                    elif cts == 5:
                        want = prn + 192
                    else:
                        want = prn
                    l = eng.as_lin(x, v)
                    res.ob(equal(eng, x, l, Lin(want)), where(f), "prn", "satellites of system %d get their documented numbers" % cts, "%d becomes %s, expected %d" % (prn, l, want))
                    n += 1
    res.floor("satellite_numbers", n, 500)


# ---------------------------------------------------------------- bit fields
DATA = ("data", "[]")
PD, LEFT, OFF = ("pd",), ("left",), ("off",)


class FieldEngine(RangeEngine):
    """Reads from a byte array of `have` bytes; every byte is symbolic."""
    have = 0

    def load(self, st, loc, t):
        if loc[:2] == DATA and len(loc) == 3 and str(loc[2]).startswith("["):
            tt = self.T(t) if isinstance(t, int) else t
            if tt["k"] == "int" and tt["w"] == 8:
                i = int(loc[2][1:-1])
                if not 0 <= i < self.have:
                    self.outside.append(i)
                v = self.named("byte%d" % i, 0, 255)
                return Num(v)
        return super().load(st, loc, t)

    def on_call(self, st, fr, e, d, obj, argv):
        if d["n"] in ("memcpy", "__builtin_memcpy", "memmove") and len(argv) == 3:
            dst, src, n = (v for _, v in argv)
            if isinstance(src, Ptr) and src.reg == DATA and src.off.is_const() and isinstance(n, Num) and n.l.is_const() and isinstance(dst, Ptr) and dst.off == Lin(0):
                o, k = src.off.c, n.l.c
                bits = ()
                for i in range(8):
                    if i < k:
                        if not 0 <= o + i < self.have:
                            self.outside.append(o + i)
                        bits += tuple(self.bits(self.named("byte%d" % (o + i), 0, 255)))
                    else:
                        bits += tuple(self.bits(self.named("junk%d" % i, 0, 255)))
                self.copied = max(self.copied, k)
                reg = dst.reg[:-1] if dst.reg[-1] == "[]" else dst.reg
                s = State(dict(st.store), st.facts, dict(st.epochs))
                s.store[reg] = self.frombits(bits)
                return [(s, dst)]
        return super().on_call(st, fr, e, d, obj, argv)


def template_fns(prog, name):
    out = [f for f in prog.funs.values() if f["decl"]["n"] == name and f["decl"]["q"].startswith("novatel::edie::oem::")]
    return sorted(out, key=lambda f: f["id"])


def extract_fn(prog, f):
    """(bit count or None when it is a parameter) of an instantiation of the extraction template."""
    import re as _re
    m = _re.search(r"Lj(\d+)E", f["id"])
    return int(m.group(1)) if m else None


def twos(eng, l, w):
    b = eng.bits(l)
    if b is None:
        b = eng.bits(l + Lin(1 << w))
    return None if b is None else (tuple(b) + (0,) * w)[:w]


def run_fields(prog, res, tier):
    fs = template_fns(prog, "ExtractBitfield")
    n = thrown_cases = 0
    for f in fs:
        width = extract_fn(prog, f)
        rt = prog.types[f["decl"]["r"]]
        lefts = list(range(0, 19)) if tier == "thorough" else [0, 1, 2, 3, 4, 5, 7, 8, 9, 10]
        for w in ([width] if width is not None else range(0, 66)):
            for left in lefts:
                for off in range(8):
                    if left == 0 and off:
                        continue
                    n += one_field(prog, res, f, rt, w, left, off, width is None)
            for off in range(8):
                n += one_field(prog, res, f, rt, w, None, off, width is None)
    res.floor("extraction_functions", len(fs), 5)
    res.floor("extraction_cases", n, 500)
    sign(prog, res)


def one_field(prog, res, f, rt, w, left, off, runtime):
    eng = FieldEngine(prog)
    eng.have = left
    if left is None:                       # any larger number of bytes
        eng.have, left = 19, eng.named("left", 19, 1 << 24)
    short = left if isinstance(left, int) else 19
    eng.outside, eng.copied = [], 0
    at = where(f)
    st = State()
    st = State(dict(st.store), st.facts, dict(st.epochs))
    st.store[PD] = Ptr(DATA, Lin(0))
    st.store[LEFT], st.store[OFF] = Num(left), Num(off)
    argv = [Ptr(PD), Ptr(LEFT), Ptr(OFF)] + ([Num(w)] if runtime else [])
    name = "%d bits" % w if not runtime else "any number of bits"
    rs = [(s, v) for s, v in eng.analyse(f, None, st, argv) if eng.feasible(s)]
    th = [s for s, _ in eng.thrown if eng.feasible(s)]
    tw = {"bool": 1, "int": rt.get("w", 0), "float": rt.get("w", 64)}[rt["k"]]
    res.ob(not eng.outside, at, "bounds", "only bytes that are left are read (%s)" % name, "%s left, offset %d: byte %s" % (left, off, eng.outside[:2]))
    if w > 8 * short - off or (runtime and w > tw):
        res.ob(bool(th) and not rs, at, "refused", "a field longer than what is left is refused (%s)" % name, "%s left, offset %d" % (left, off))
        return 1
    res.ob(len(rs) >= 1 and not th, at, "read", "a field that is left is read (%s)" % name, "%s left, offset %d, %d bits" % (left, off, w))
    allbits = tuple(b for i in range(20) for b in eng.bits(eng.named("byte%d" % i, 0, 255)))
    want = allbits[off:off + w]
    for s, v in rs:
        if rt["k"] == "float":
            l = eng.fltof.get(v.s) if isinstance(v, Opq) else None
            if l is None and number(v) is not None:
                l = Lin(int(number(v)))
            got = eng.bits(l) if l is not None and w <= (24 if rt.get("w") == 32 else 53) else None
            got = None if got is None else (tuple(got) + (0,) * 64)[:64]
        else:
            got = twos(eng, eng.as_lin(s, v), max(tw, 1))
        exp = (tuple(want) + (0,) * 64)[:64 if rt["k"] == "float" else tw]
        res.ob(got == exp, at, "value", "the value consists of the next bits (%s)" % name, "%s left, offset %d, %d bits: %s" % (left, off, w, v))
        p, l2, o2 = s.store.get(PD), s.store.get(LEFT), s.store.get(OFF)
        k = (off + w) // 8
        ok = isinstance(p, Ptr) and p.reg == DATA and p.off == Lin(k) and eng.as_lin(s, l2) == (left if isinstance(left, Lin) else Lin(left)) - Lin(k) and o2 == Num((off + w) % 8)
        res.ob(ok, at, "advance", "the position moves past exactly the bits read (%s)" % name, "%s left, offset %d, %d bits: %s %s %s" % (left, off, w, p, l2, o2))
    return 1


def sign(prog, res):
    """Sign extension: at its own width for every instantiation, and applied at the width the field was read with."""
    n = 0
    widths = {}
    for f in template_fns(prog, "HandleSignExtension"):
        eng = RangeEngine(prog)
        t = prog.types[f["params"][0]["t"]]
        t = prog.types[t["to"]]
        w = t["w"]
        best = None
        for k in range(2, w):
            x = eng.named("field%d" % k, 0, (1 << k) - 1)
            st = State()
            st = State(dict(st.store), st.facts, dict(st.epochs))
            st.store[("v",)] = Num(x)
            ok = True
            for s, _ in eng.analyse(f, None, st, [Ptr(("v",))]):
                if not eng.feasible(s):
                    continue
                got = twos(eng, eng.as_lin(s, eng.load(s, ("v",), t)), w)
                xb = eng.bits(x)
                top = eng.frombits((xb[-1],)).l
                neg_ = equal(eng, s, top, Lin(1))
                pos = equal(eng, s, top, Lin(0))
                ok = ok and got is not None and (neg_ or pos)
                if ok:
                    exp = tuple(xb[:-1]) + ((1,) if neg_ else (0,)) * (w - k + 1)
                    ok = all(g == e or equal(eng, s, eng.frombits((g,)).l if not isinstance(g, int) else Lin(g), Lin(e) if isinstance(e, int) else eng.frombits((e,)).l)
                             for g, e in zip(got, exp))
                if not ok:
                    break
            if ok:
                best = k
                break
        res.ob(best is not None, where(f), "sign", "sign extension yields the two's complement value at some width", f["id"][-40:])
        widths[f["id"]] = best
        n += 1
    res.floor("sign_extensions", n, 3)
    m = 0
    for f in prog.funs.values():
        if not f["file"].endswith("range_decompressor.cpp") and "rangecmp" not in f["file"]:
            continue
        calls, inits = [], {}

        def v(x):
            if x.get("k") == "Call" and isinstance(x.get("fn"), str) and x["fn"] in widths and x.get("args"):
                calls.append(x)
            if x.get("k") == "Decl":
                for y in x["v"]:
                    c = y.get("init") or y.get("i") or y.get("e")
                    while isinstance(c, dict) and c.get("k") == "Cast":
                        c = c["s"]
                    if isinstance(c, dict) and c.get("k") == "Call":
                        inits[y["id"]] = c
        walk(f["body"], v)
        for c in calls:
            a = c["args"][0]
            if a.get("k") != "Var" or a["id"] not in inits:
                continue
            k = read_width(prog, inits[a["id"]])
            if k is None:
                continue
            res.ob(k == widths[c["fn"]], "%s:%s" % (f["file"], c.get("l") or f["line"]), "sign", "a field is sign extended at the width it is read with", "read %s bits, extended at %s" % (k, widths[c["fn"]]))
            m += 1
    res.floor("sign_extension_sites", m, 5)


def read_width(prog, call):
    f = prog.funs.get(call.get("fn"))
    if f is None:
        return None
    if f["decl"]["n"] == "ExtractBitfield":
        return extract_fn(prog, f)
    if len(f["params"]) == 1:
        eng = RangeEngine(prog)
        x = eng.named("packed", 0, (1 << 64) - 1)
        for s, v in eng.analyse(f, None, State(), [Num(x)]):
            b = eng.bits(eng.as_lin(s, v))
            return len(b) if b is not None else None
    return None
