"""Capacity-bounded FIFO byte buffer: bounds, conservation of content, search."""
from ..lin import Lin, entails_le, entails_eq
from ..engine import State, Num, Bool, Ptr, Obj, NULLREG, neg
from ..mem import MemEngine, Log
from ..program import AnalysisError
from ..report import where
from .. import models

THIS = ("this",)
CAPMAX = 2 ** 56


class FBEngine(MemEngine):
    track_log = True
    null_params = True

    def __init__(self, prog):
        super().__init__(prog)
        self.search = None      # (data Ptr, pattern first-byte location)

    def access(self, st, ptr, n, mode, node, fr):
        super().access(st, ptr, n, mode, node, fr)
        if self.quiet or not isinstance(ptr, Ptr) or ptr.reg == NULLREG:
            return
        if ptr.null.t:
            live = [st] if not (n.t or n.c <= 0) else self.assume(st, ("le", Lin(1) - n))
            ok = all(entails_eq(s.facts, ptr.null, self.rg) for s in live)
            self.oblige(st, ok, "null", "pointer not null when dereferenced", node, fr, "" if ok else "%r may be null" % ptr)

    # -- search bookkeeping: #G = every start position below it (byte offset from the storage) has been ruled out
    def g(self, st):
        v = st.store.get(("#G",))
        return v.l if isinstance(v, Num) else None

    def setg(self, st, l):
        return self.write(st, ("#G",), Num(l))

    def on_find(self, st, p, n, i, node, fr):
        if self.search is None or p.reg != self.search["reg"]:
            return st
        g = self.g(st)
        needle = self.needle(st, node, fr)
        if g is None or not needle or not self.proves_le(st, p.off - g):
            return st
        nxt = p.off + (n if i is None else i)
        if self.proves_le(st, g - nxt):
            st = self.setg(st, nxt)
        if i is not None:
            st = self.write(st, ("#first",), Num(nxt))
        return st

    def needle(self, st, node, fr):
        """Is the byte looked for the first byte of the pattern?"""
        for s, v in self.ev(node["args"][1], st, fr)[:1]:
            return isinstance(v, Num) and v.l == self.search["first"]
        return False


def m_memcmp_search(eng, e, d, st, fr, obj, argv):
    a, b, n = [models.argval(eng, d, st, argv, i) for i in range(3)]
    n = eng.as_lin(st, n)
    eng.access(st, a, n, "r", e, fr)
    eng.access(st, b, n, "r", e, fr)
    S = eng.search
    if S is not None and isinstance(a, Ptr) and isinstance(b, Ptr):
        if b.reg == S["reg"]:
            a, b = b, a
        if a.reg == S["reg"] and b.reg == S["pat"] and b.off == Lin(0):
            eqs = eng.write(st, ("#match",), Num(a.off))
            eqs = eng.write(eqs, ("#matchlen",), Num(n))
            ne = st
            g = eng.g(st)
            # a mismatch of at most the whole pattern rules this position out
            if g is not None and eng.proves_le(st, a.off - g) and eng.proves_le(st, n - S["m"]) and eng.proves_le(st, g - a.off - 1):
                ne = eng.setg(st, a.off + 1)
            r = eng.fresh("memcmp", -2 ** 31, 2 ** 31 - 1)
            return [(eqs, Num(0))] + [(x, Num(r)) for x in eng.assume(ne, ("ne", r))]
    return models.m_memcmp(eng, e, d, st, fr, obj, argv)


def resolve(eng, st, log, reg, lo, hi, xreg, xoff):
    """Does byte lo+j of region reg (now) equal byte xoff+j of region xreg (initially), for all lo+j < hi?"""
    if eng.proves_le(st, hi - lo):
        return True
    ents = list(log)
    while ents:
        dst, src, n = ents.pop()
        if dst.reg != reg:
            continue
        if eng.proves_le(st, n):
            continue
        if eng.proves_le(st, dst.off + n - lo) or eng.proves_le(st, hi - dst.off):
            continue
        if eng.proves_le(st, dst.off - lo) and eng.proves_le(st, hi - dst.off - n):
            return resolve(eng, st, ents, src.reg, src.off + (lo - dst.off), src.off + (hi - dst.off), xreg, xoff)
        # split at a boundary that is known to lie inside
        for cut in (dst.off, dst.off + n):
            if eng.proves_le(st, lo - cut) and eng.proves_le(st, cut - hi) and not (eng.proves_le(st, cut - lo) or eng.proves_le(st, hi - cut)):
                ents2 = ents + [(dst, src, n)]
                return resolve(eng, st, ents2, reg, lo, cut, xreg, xoff) and resolve(eng, st, ents2, reg, cut, hi, xreg, xoff + (cut - lo))
        return False
    return reg == xreg and entails_eq(st.facts, lo - xoff, eng.rg)


def public(prog, cls):
    return [f for f in prog.funs.values() if f["decl"].get("cls") == cls]


def run(prog, res, tier="quick"):
    classes = sorted({f["decl"]["cls"] for f in prog.funs.values() if (f["decl"].get("cls") or "").startswith("FixedBuffer<")})
    res.floor("buffer_instantiations", len(classes), 1)
    nm = 0
    for cls in classes:
        nm += check_class(prog, res, cls)
    res.floor("buffer_methods", nm, 10)


def observe(eng, ms, st):
    """Logical view through the public accessors: size, capacity, data pointer."""
    out = []
    for name in ("size", "capacity", "data"):
        eng.quiet += 1
        saved = eng.thrown
        r = eng.analyse(ms[name], THIS, st, [], key="obs")
        eng.thrown = saved
        eng.quiet -= 1
        if len(r) != 1:
            raise AnalysisError("accessor %s is not a plain observation" % name)
        st, v = r[0]
        out.append(v)
    return st, out


def check_class(prog, res, cls):
    ms = {}
    for f in public(prog, cls):
        ms.setdefault(f["decl"]["n"], f)
    for need in ("size", "capacity", "data", "write", "erase_begin", "copy_out"):
        if need not in ms:
            raise AnalysisError("%s has no %s" % (cls, need))
    probe = FBEngine(prog)
    et = prog.types[prog.fdecls[ms["data"]["id"]]["r"]]
    S = probe.sizeof(et["to"])
    count = 0

    # ---- constructor: empty, requested capacity, storage size k*capacity elements
    ctors = [f for f in public(prog, cls) if f["decl"].get("ctor") and len(f["params"]) == 1 and probe.is_num(probe.T(f["params"][0]["t"]))]
    if not ctors:
        raise AnalysisError("%s: constructor taking a capacity not found" % cls)
    ct = ctors[0]
    eng = FBEngine(prog)
    cap = eng.named("cap", 1, CAPMAX)
    k = None
    for st, _ in eng.analyse(ct, THIS, State(), [Num(cap)]):
        st, (sz, c, D) = observe(eng, ms, st)
        res.ob(isinstance(sz, Num) and entails_eq(st.facts, sz.l, eng.rg), where(ct), "initially-empty", "%s constructed empty" % cls)
        res.ob(isinstance(c, Num) and entails_eq(st.facts, c.l - cap, eng.rg), where(ct), "capacity", "%s constructed with the requested capacity" % cls)
        b = eng.region_bytes(st, D.reg) if isinstance(D, Ptr) else None
        if b is None:
            raise AnalysisError("%s: storage allocated by the constructor is not recognised" % cls)
        if not (set(b.t) <= set(cap.t)):
            raise AnalysisError("%s: storage size %r is not linear in the capacity" % (cls, b))
        k = (b.c, b.t.get(next(iter(cap.t)), 0))
        res.ob(entails_le(st.facts, cap.scale(S) - b, eng.rg), where(ct), "storage", "%s allocates at least its capacity" % cls)
        res.ob(entails_eq(st.facts, D.off, eng.rg), where(ct), "storage", "%s starts inside its storage" % cls)
    res.merge_engine(eng, "buffer-")
    count += 1

    def start():
        eng = FBEngine(prog)
        eng.models = dict(eng.models)
        eng.models["memcmp"] = m_memcmp_search
        st0 = State()
        st, (sz, c, D) = observe(eng, ms, st0)
        f = st.facts
        sz, c = eng.as_lin(st, sz), eng.as_lin(st, c)
        bytes_ = c.scale(k[1]) + k[0]
        f = f.with_le(-sz).with_le(sz - c).with_le(-D.off).with_le(D.off + sz.scale(S) - bytes_).with_le(Lin(1) - c).with_le(c - CAPMAX)
        if D.null.t:
            f = f.with_eq(D.null)
        st = State(dict(st.store), f, st.epochs)
        st.store[D.reg + ("#bytes",)] = Num(bytes_)
        st.store[("#log",)] = Log()
        return eng, st, sz, c, D

    def finish(eng, st, f, c0, D0, note=""):
        """Representation invariant after the call; returns the new view."""
        st, (sz, c, D) = observe(eng, ms, st)
        sz, c = eng.as_lin(st, sz), eng.as_lin(st, c)
        ok = entails_eq(st.facts, c - c0, eng.rg)
        res.ob(ok, where(f), "capacity-constant", "capacity unchanged by %s%s" % (f["q"], note), "" if ok else "capacity becomes %r" % c)
        ok = D.reg == D0.reg
        res.ob(ok, where(f), "storage-constant", "storage not replaced by %s%s" % (f["q"], note))
        b = c0.scale(k[1]) + k[0]
        ok = eng.proves_le(st, -sz) and eng.proves_le(st, sz - c0)
        res.ob(ok, where(f), "size<=capacity", "size never exceeds capacity after %s%s" % (f["q"], note), "" if ok else "size %r" % sz)
        ok = eng.proves_le(st, -D.off) and eng.proves_le(st, D.off + sz.scale(S) - b)
        res.ob(ok, where(f), "contained", "valid data stays inside the storage after %s%s" % (f["q"], note), "" if ok else "data at %r, %r elements, storage %r" % (D.off, sz, b))
        return st, sz, c, D

    def same(eng, st, f, sz0, D0, sz, D, what):
        ok = entails_eq(st.facts, sz - sz0, eng.rg) and content(eng, st, D, Lin(0), sz0, D0.reg, D0.off)
        res.ob(ok, where(f), "unchanged", "%s leaves the stored data unchanged %s" % (f["q"], what), "" if ok else "size %r -> %r" % (sz0, sz))

    def content(eng, st, D, lo, hi, xreg, xoff):
        lg = st.store.get(("#log",))
        if not isinstance(lg, Log):
            return False
        return resolve(eng, st, lg.e, D.reg, D.off + lo.scale(S), D.off + hi.scale(S), xreg, xoff)

    nexit = 0
    # ---- observers
    for name in ("size", "capacity", "data", "empty", "full", "available_space"):
        if name not in ms:
            continue
        for f in [f for f in public(prog, cls) if f["decl"]["n"] == name]:
            eng, st, sz0, c0, D0 = start()
            for s, v in eng.analyse(f, THIS, st, []):
                s2, sz, c, D = finish(eng, s, f, c0, D0)
                same(eng, s2, f, sz0, D0, sz, D, "(observer)")
                if name == "empty":
                    t, u = eng.assume(s, eng.truth(s, v)), eng.assume(s, neg(eng.truth(s, v)))
                    ok = all(entails_eq(x.facts, sz0, eng.rg) for x in t) and all(eng.proves_le(x, Lin(1) - sz0) for x in u)
                    res.ob(ok, where(f), "empty", "empty() iff no element is stored")
                elif name == "full":
                    t, u = eng.assume(s, eng.truth(s, v)), eng.assume(s, neg(eng.truth(s, v)))
                    ok = all(entails_eq(x.facts, sz0 - c0, eng.rg) for x in t) and all(eng.proves_le(x, sz0 - c0 + 1) for x in u)
                    res.ob(ok, where(f), "full", "full() iff size equals capacity")
                elif name == "available_space":
                    ok = entails_eq(s.facts, eng.as_lin(s, v) - (c0 - sz0), eng.rg)
                    res.ob(ok, where(f), "available", "available_space() is capacity minus size")
                nexit += 1
            res.merge_engine(eng, "buffer-")
            count += 1

    # ---- element access
    for f in [f for f in public(prog, cls) if f["decl"]["n"] == "operator[]"]:
        eng, st, sz0, c0, D0 = start()
        i = eng.named("i", 0, CAPMAX)
        st = State(st.store, st.facts.with_le(i - sz0 + 1), st.epochs)
        for s, v in eng.analyse(f, THIS, st, [Num(i)]):
            ok = isinstance(v, Ptr) and v.reg == D0.reg and entails_eq(s.facts, v.off - D0.off - i.scale(S), eng.rg)
            res.ob(ok, where(f), "element", "%s designates element i of the stored data" % f["q"], "" if ok else "designates %r" % (v,))
            s2, sz, c, D = finish(eng, s, f, c0, D0)
            same(eng, s2, f, sz0, D0, sz, D, "(access)")
            nexit += 1
        res.merge_engine(eng, "buffer-")
        count += 1

    # ---- erase_begin
    f = ms["erase_begin"]
    eng, st, sz0, c0, D0 = start()
    n = eng.named("n", 0, 2 ** 64 - 1)
    for s, v in eng.analyse(f, THIS, st, [Num(n)]):
        s2, sz, c, D = finish(eng, s, f, c0, D0)
        for x in eng.assume(s2, ("le", n - sz0)):
            ok = entails_eq(x.facts, sz - (sz0 - n), eng.rg)
            res.ob(ok, where(f), "erase-count", "erasing n stored elements leaves size-n", "" if ok else "size %r" % sz)
            ok = content(eng, x, D, Lin(0), sz0 - n, D0.reg, D0.off + n.scale(S))
            res.ob(ok, where(f), "erase-front", "erasing removes the oldest elements and keeps the rest in order", "" if ok else "data at %r" % D.off)
        for x in eng.assume(s2, ("le", sz0 - n + 1)):
            ok = entails_eq(x.facts, sz, eng.rg)
            res.ob(ok, where(f), "erase-clamp", "erasing more than stored empties the buffer", "" if ok else "size %r" % sz)
        nexit += 1
    res.merge_engine(eng, "buffer-")
    count += 1

    # ---- copy_out
    f = ms["copy_out"]
    eng, st, sz0, c0, D0 = start()
    n = eng.named("n", 0, CAPMAX)
    nul = eng.named("dstnull", 0, 1)
    dreg = ("dst", "[]")
    st = st.set(dreg + ("#bytes",), Num(n.scale(S)))
    for s, v in eng.analyse(f, THIS, st, [Ptr(dreg, Lin(0), nul), Num(n)]):
        s2, sz, c, D = finish(eng, s, f, c0, D0)
        same(eng, s2, f, sz0, D0, sz, D, "(copying out)")
        lg = s2.store.get(("#log",))
        for x in eng.assume(s2, ("eq", nul)):
            for m, g in ((n, ("le", n - sz0)), (sz0, ("le", sz0 - n + 1))):
                for y in eng.assume(x, g):
                    ok = isinstance(lg, Log) and resolve(eng, y, lg.e, dreg, Lin(0), m.scale(S), D0.reg, D0.off)
                    res.ob(ok, where(f), "copy-prefix", "copy_out delivers the oldest min(n, size) elements", "" if ok else "copies %r" % (lg,))
        nexit += 1
    res.merge_engine(eng, "buffer-")
    count += 1

    # ---- write
    f = ms["write"]
    eng, st, sz0, c0, D0 = start()
    n = eng.named("n", 0, 2 ** 64 - 1)
    nul = eng.named("srcnull", 0, 1)
    sreg = ("src", "[]")
    st = st.set(sreg + ("#bytes",), Num(n.scale(S)))
    for s, v in eng.analyse(f, THIS, st, [Ptr(sreg, Lin(0), nul), Num(n)]):
        s2, sz, c, D = finish(eng, s, f, c0, D0)
        r = eng.as_lin(s2, v)
        ok = False
        zero = eng.assume(s2, ("eq", r))
        some = eng.assume(s2, ("ne", r))
        for x in zero:
            same(eng, x, f, sz0, D0, sz, D, "when it reports 0 written")
            # refusing is only right without a source, without a request, or without room
            bad = [b for y in eng.assume(x, ("eq", nul)) for z in eng.assume(y, ("le", Lin(1) - n)) for b in eng.assume(z, ("le", sz0 + n - c0))]
            res.ob(not bad, where(f), "write-accepts", "a write that fits is not refused")
        for x in some:
            ok = entails_eq(x.facts, r - n, eng.rg) and entails_eq(x.facts, sz - sz0 - n, eng.rg)
            res.ob(ok, where(f), "write-all", "a successful write stores and reports every element", "" if ok else "reports %r, size %r" % (r, sz))
            ok = content(eng, x, D, Lin(0), sz0, D0.reg, D0.off)
            res.ob(ok, where(f), "write-keeps", "a write keeps the previously stored elements in order", "" if ok else "log %r" % (x.store.get(("#log",)),))
            ok = content(eng, x, D, sz0, sz0 + n, sreg, Lin(0))
            res.ob(ok, where(f), "write-appends", "a write appends exactly the given elements", "" if ok else "log %r" % (x.store.get(("#log",)),))
        nexit += 1
    res.merge_engine(eng, "buffer-")
    count += 1

    # ---- read_value<U>
    for f in [f for f in public(prog, cls) if f["decl"]["n"] == "read_value"]:
        eng, st, sz0, c0, D0 = start()
        U = eng.sizeof(prog.fdecls[f["id"]]["r"])
        i = eng.named("i", 0, CAPMAX)
        st = State(st.store, st.facts.with_le(i.scale(S) + U - sz0.scale(S)), st.epochs)
        for s, v in eng.analyse(f, THIS, st, [Num(i)]):
            lg = s.store.get(("#log",))
            ok = isinstance(lg, Log) and any(src.reg == D0.reg and entails_eq(s.facts, src.off - D0.off - i.scale(S), eng.rg) and nn == Lin(U) for dst, src, nn in lg.e)
            res.ob(ok, where(f), "read-value", "%s reads the %d bytes at the given position" % (f["q"], U), "" if ok else "log %r" % (lg,))
            s2, sz, c, D = finish(eng, s, f, c0, D0)
            nexit += 1
        res.merge_engine(eng, "buffer-")
        count += 1

    # ---- search_chars
    for f in [f for f in public(prog, cls) if f["decl"]["n"] in ("search_chars", "search_char")]:
        eng, st, sz0, c0, D0 = start()
        start_, cnt = eng.named("start", 0, 2 ** 64 - 1), eng.named("cnt", 0, 2 ** 64 - 1)
        multi = f["decl"]["n"] == "search_chars"
        first = eng.named("first", 0, 255)
        if multi:
            at = eng.strip(f["params"][0]["t"])
            M = int(at["ta"][1]["v"])
            ploc = ("pattern",)
            st = st.set(ploc + ("[]", "[0]"), Num(first))
            eng.search = {"reg": D0.reg, "pat": ploc + ("[]",), "first": first, "m": Lin(M)}
            a0 = Ptr(ploc)
        else:
            M = 1
            eng.search = {"reg": D0.reg, "pat": ("none",), "first": first, "m": Lin(1)}
            a0 = Num(first)
        base = D0.off + start_
        st = st.set(("#G",), Num(base))
        st = st.set(("#match",), Num(-1))
        st = st.set(("#matchlen",), Num(0))
        st = st.set(("#first",), Num(-1))
        # end of the searched window
        results = []
        end1 = sz0
        for s0 in [st]:
            for s, v in eng.analyse(f, THIS, s0, [a0, Num(start_), Num(cnt)]):
                s2, sz, c, D = finish(eng, s, f, c0, D0)
                same(eng, s2, f, sz0, D0, sz, D, "(search)")
                r = eng.as_lin(s, v)
                for x in eng.assume(s, ("le", sz0 - start_)):
                    ok = entails_eq(x.facts, r - (2 ** 64 - 1), eng.rg)
                    res.ob(ok, where(f), "search-none", "a search starting beyond the data finds nothing")
                for x in eng.assume(s, ("le", start_ - sz0 + 1)):
                    wins = [(y, start_ + cnt) for y in eng.assume(x, ("le", cnt - (sz0 - start_)))] + [(y, sz0) for y in eng.assume(x, ("le", sz0 - start_ - cnt + 1))]
                    for y, e in wins:
                        g = eng.g(y)
                        for z in eng.assume(y, ("eq", r - (2 ** 64 - 1))):
                            ok = g is not None and eng.proves_le(z, D0.off + e - g)
                            res.ob(ok, where(f), "search-complete", "%s reports absence only after ruling out every position" % f["q"], "" if ok else "ruled out up to %r of %r" % (g, D0.off + e))
                        for z in eng.assume(y, ("ne", r - (2 ** 64 - 1))):
                            ok = eng.proves_le(z, start_ - r) and eng.proves_le(z, r + 1 - e)
                            res.ob(ok, where(f), "search-range", "%s returns a position inside the searched window" % f["q"], "" if ok else "returns %r" % r)
                            ok = g is not None and eng.proves_le(z, D0.off + r - g)
                            res.ob(ok, where(f), "search-first", "%s returns the first occurrence" % f["q"], "" if ok else "positions below %r ruled out, returns %r" % (g, D0.off + r))
                            fs, mt, ml = [z.store.get(("#" + q,)) for q in ("first", "match", "matchlen")]
                            ok = isinstance(fs, Num) and entails_eq(z.facts, fs.l - D0.off - r, eng.rg)
                            if M > 1:
                                ok = ok and isinstance(mt, Num) and entails_eq(z.facts, mt.l - D0.off - r, eng.rg) and isinstance(ml, Num)
                                if ok:
                                    full = entails_eq(z.facts, ml.l - M, eng.rg)
                                    part = eng.proves_le(z, ml.l - M) and entails_eq(z.facts, ml.l - (e - r), eng.rg)
                                    ok = full or part
                            res.ob(ok, where(f), "search-match", "%s returns a position where the pattern (or its prefix at the window's end) occurs" % f["q"], "" if ok else "returns %r" % r)
                nexit += 1
        res.merge_engine(eng, "buffer-")
        count += 1
    # ---- any further public mutator keeps the invariant
    known = {"size", "capacity", "data", "empty", "full", "available_space", "operator[]", "erase_begin", "copy_out", "write", "read_value", "search_chars", "search_char"}
    for f in public(prog, cls):
        d = f["decl"]
        if d["n"] in known or d.get("ctor") or d.get("dtor") or d.get("acc") != "public" or d["n"].startswith(("~", "operator=")):
            continue
        eng, st, sz0, c0, D0 = start()
        try:
            outs = eng.analyse(f, THIS, st, [])
        except AnalysisError:
            continue
        for s, v in outs:
            finish(eng, s, f, c0, D0)
        count += 1
    res.coverage["exits_checked"] = res.coverage.get("exits_checked", 0) + nexit
    return count
