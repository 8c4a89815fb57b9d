"""Framing: bounded output, conservation of the byte stream, checksum-verified delivery."""
import multiprocessing
import os
import traceback

from ..lin import Lin, Facts, entails_le, entails_eq
from ..engine import State, Num, Bool, Ptr, Obj, Out, Frame, NULLREG, neg, VOID, Limit
from ..mem import Log
from ..program import AnalysisError
from ..report import Result, where
from .. import stream as S
from ..stream import StreamEngine, Head, STREAM, SZ, BASE, LOG, CS, CLO, CHI, XS, XLO, XHI, GHOSTS

THIS = ("this",)
META = ("meta",)
OUT = ("out", "[]")
GH = (CS, CLO, CHI, XS, XLO, XHI)
ABS = (CLO, CHI, XLO, XHI)      # absolute stream positions


def enum_values(prog, name):
    for q, e in prog.enums.items():
        if q.split("::")[-1] == name:
            return {n: v for n, v in e["e"]}
    raise AnalysisError("enumeration %s not found" % name)


def all_fields(prog, rid, seen=None):
    out = []
    r = prog.recs.get(rid)
    if not r:
        return out
    for b in r.get("b", []):
        out += all_fields(prog, prog.types[b].get("rec"))
    return out + list(r.get("f", []))


def derived(prog, base):
    """record ids deriving (transitively) from base that nothing else derives from"""
    kids = {}
    for i, r in prog.recs.items():
        for b in r.get("b", []):
            kids.setdefault(prog.types[b].get("rec"), []).append(i)
    out, todo = [], [base]
    while todo:
        c = todo.pop()
        for k in kids.get(c, []):
            todo.append(k)
            if not kids.get(k):
                out.append(k)
    return sorted(set(out))


def zero_tested(f):
    """Members compared with the literal 0 in a function."""
    out = set()

    def strip(e):
        while isinstance(e, dict) and e.get("k") == "Cast":
            e = e["s"]
        return e

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if x.get("k") == "Bin" and x.get("op") in ("==", "!=", ">", "<"):
                a, b = strip(x["a"]), strip(x["b"])
                for u, w in ((a, b), (b, a)):
                    if u.get("k") == "Mem" and (w.get("k") == "Int" and int(w.get("v", 1)) == 0 or str(w.get("cv")) == "0"):
                        out.add(u["f"])
            for y in x.values():
                if isinstance(y, (dict, list)):
                    walk(y)
    walk(f["body"])
    return out


def has_loop(f):
    todo = [f["body"]]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo += x
        elif isinstance(x, dict):
            if x.get("k") in ("While", "Do", "For", "RFor"):
                return True
            if x.get("k") != "Lambda":
                todo += [y for y in x.values() if isinstance(y, (dict, list))]
    return False


def run_many(eng, f, sts, argv):
    if has_loop(f):
        return run_one(eng, f, sts, argv)      # one loop invariant for all of them
    r = []
    for s in sts:
        r += run_one(eng, f, [s], argv)
    return r


def run_one(eng, f, sts, argv):
    """Like Engine.analyse but from given states."""
    eng.thrown = []
    eng.visited_fns.add(f["id"])
    fr = Frame(f, THIS, 0, "top", None)
    start = []
    for st in sts:
        s = State(dict(st.store), st.facts, dict(st.epochs))
        for i, prm in enumerate(f["params"]):
            loc = ("L:" + prm["id"], "top")
            v = argv[i]
            if isinstance(v, Obj) and eng.T(prm["t"])["k"] == "ref":
                v = Ptr(v.loc)
            s.store[loc] = v
        start.append(eng.on_enter(s, fr))
    o = Out()
    o.normal = eng.ex(f["body"], start, fr, o)
    return [(x, VOID) for x in o.normal] + o.ret


class FramerModel:
    def __init__(self, prog, rid, base_fn):
        self.prog, self.rid = prog, rid
        self.eng = eng = StreamEngine(prog)
        eng.named("FBS", 0, 2 ** 32 - 1)
        eng.virt[THIS] = rid
        self.f = eng.resolve_virtual(base_fn["decl"], rid)
        if self.f is None:
            raise AnalysisError("GetFrame of %s not found" % rid)
        self.rec = prog.recs[rid]
        fs = all_fields(prog, rid)
        self.numf = [THIS + ("f:" + x["id"],) for x in fs if prog.types[x["t"]]["k"] in ("int", "enum")]
        tested = zero_tested(self.f) if not has_loop(self.f) else ()
        self.zerof = [THIS + ("f:" + x["id"],) for x in fs if prog.types[x["t"]]["k"] == "int" and x["id"] in tested]
        self.enumf = [THIS + ("f:" + x["id"],) for x in fs if prog.types[x["t"]]["k"] == "enum"]
        m = [r for r in prog.recs.values() if r.get("n") == "MetaDataBase"]
        if not m:
            raise AnalysisError("MetaDataBase not found")
        self.meta = {x["n"]: META + ("f:" + x["id"],) for x in m[0]["f"]}
        for need in ("uiLength", "eFormat"):
            if need not in self.meta:
                raise AnalysisError("MetaDataBase::%s not found" % need)
        self.STATUS = enum_values(prog, "STATUS")
        self.FMT = enum_values(prog, "HEADER_FORMAT")
        eng.enumlocs = set(self.enumf) | {self.meta["eFormat"]}
        self.flags = {n: self.setter_target(n) for n in ("SetPayloadOnly", "SetReportUnknownBytes")}
        self.locs = self.numf + list(GH) + [self.meta["eFormat"]]
        self.heads = {}
        self.work = []
        self.SIZE = eng.named("SIZE", 0, S.BUFMAX)
        self.only = eng.named("metaonly", 0, 1)
        self.rounds = 0

    def method(self, name, nparams=None):
        seen, order = [self.rid], []
        while seen:
            c = seen.pop(0)
            order.append(c)
            seen += [self.prog.types[b].get("rec") for b in self.prog.recs.get(c, {}).get("b", [])]
        for c in order:
            for m in self.prog.recs.get(c, {}).get("m", []):
                f = self.prog.funs.get(m)
                if f and f["decl"]["n"] == name and (nparams is None or len(f["params"]) == nparams):
                    return f
        return None

    def setter_target(self, name):
        f = self.method(name)
        if f is None:
            raise AnalysisError("%s::%s not found" % (self.rid, name))
        e = StreamEngine(self.prog)
        e.writes = [set()]
        w = e.writes[0]
        e.analyse(f, THIS, e.init_state(), [Num(e.named("b", 0, 1))])
        w = {l for l in w if l[:1] == THIS}
        if len(w) != 1:
            raise AnalysisError("%s::%s does not set exactly one flag" % (self.rid, name))
        return next(iter(w))

    # ---- states between calls
    def enter(self, st):
        eng = self.eng
        st = eng.norm_chain(st, None)
        base = eng.num(st, BASE)
        vals = {}
        for l in self.locs:
            v = eng.num(st, l)
            if v is not None and l in ABS:
                v = v - base
            vals[l] = v
        k = eng.control_key(st, self.enumf + [self.meta["eFormat"]])
        zero = []
        for l in self.zerof:
            v = eng.num(st, l)
            zero.append(None if v is None else 0 if entails_eq(st.facts, v, eng.rg) else 1 if eng.proves_le(st, Lin(1) - v) else None)
        kk = (eng.chain_key(st), tuple(zero)) + tuple(sorted((str(l), c) for l, c in k.items()))
        h = self.heads.get(kk)
        if h is None:
            b = State()
            b = eng.init_state(b)
            h = self.heads[kk] = Head(eng, b, self.locs, k, [(self.SIZE, False)], lambda l: l not in GH)
        if h.add(st, vals, [(eng.num(st, SZ), False)], shift=base) and kk not in self.work:
            self.work.append(kk)

    def states(self):
        out = []
        for h in self.heads.values():
            s = h.state()
            s.store[OUT + ("#bytes",)] = Num(self.eng.fbs)
            out += self.split(s)
        return out

    def split(self, s):
        """Keep apart (trace partitioning) the states where a member the framer compares with zero is zero."""
        sts = [s]
        for l in self.zerof:
            nxt = []
            for x in sts:
                v = self.eng.num(x, l)
                if v is None or v.is_const() or len(v.t) != 1:
                    nxt.append(x)
                    continue
                for z in self.eng.assume(x, ("eq", v)):
                    z = State(dict(z.store), z.facts, dict(z.epochs))
                    z.store[l] = Num(0)
                    nxt.append(z)
                nxt += self.eng.assume(x, ("le", Lin(1) - v))
            sts = nxt
        return sts

    def argv(self):
        return [Ptr(OUT, Lin(0), self.eng.named("outnull", 0, 1)), Num(self.eng.fbs), Ptr(META), Num(self.only)]

    def initial(self):
        eng = self.eng
        ct = [f for f in self.prog.funs.values() if f["decl"].get("ctor") and f["decl"].get("cls") == self.rec["q"] and f["file"] and not f["decl"].get("implicit")]
        ct = [f for f in ct if len(f["params"]) <= 1] or [None]
        st = eng.init_state()
        n = 0
        for f in ct:
            if f is None:
                raise AnalysisError("%s has no constructor" % self.rid)
            eng.quiet += 1
            try:
                r = eng.analyse(f, THIS, st, [None] * len(f["params"]), key="ctor")
            finally:
                eng.quiet -= 1
            for s, _ in r:
                s = State(dict(s.store), s.facts, dict(s.epochs))
                for g, v in ((SZ, Num(self.SIZE)), (BASE, Num(0))):
                    s.store[g] = v
                for l in self.numf:
                    if eng.num(s, l) is None:
                        raise AnalysisError("%s: initial value of a state member unknown (%s)" % (self.rid, l))
                self.enter(s)
                n += 1
        if not n:
            raise AnalysisError("%s: no constructor analysed" % self.rid)

    def mutators(self):
        """Other public operations that change the framing state."""
        eng = self.eng
        for name, argv in (("ResetState", []), ("InitAttributes+ResetState", []), ("HandleUnknownBytes", [Ptr(NULLREG), Num(eng.named("hub", 0, 2 ** 63))]),
                           ("Flush", [Ptr(NULLREG), Num(eng.named("flush", 0, 2 ** 32 - 1))])):
            sts = self.states()
            for nm in name.split("+"):
                f = self.method(nm)
                if f is None:
                    raise AnalysisError("%s::%s not found" % (self.rid, nm))
                sts = [st for st, _ in run_many(eng, f, sts, argv)]
            for st in sts:
                self.enter(st)

    def fixpoint(self):
        eng = self.eng
        self.initial()
        eng.quiet += 1
        try:
            # which members accumulate checksums is found out in a first pass
            run_many(eng, self.f, self.states(), self.argv())
            if eng.accs:
                self.heads, self.work = {}, []
                self.initial()
            while self.work:
                self.rounds += 1
                if self.rounds > 40:
                    raise AnalysisError("%s: state between calls does not stabilise" % self.rid)
                self.work = []
                for st, v in run_many(eng, self.f, self.states(), self.argv()):
                    self.enter(st)
                self.mutators()
        finally:
            eng.quiet -= 1

    def final(self):
        eng = self.eng
        eng.obl = {}
        n0 = eng.steps
        return run_many(eng, self.f, self.states(), self.argv())


def framers(prog):
    base = [f for f in prog.funs.values() if f["decl"]["n"] == "GetFrame" and f["decl"].get("cls", "").endswith("FramerBase") and len(f["params"]) == 4]
    if not base:
        raise AnalysisError("FramerBase::GetFrame not found")
    base_rec = [i for i, r in prog.recs.items() if r.get("n") == "FramerBase"][0]
    return base[0], derived(prog, base_rec)


_job = None


def _one(i):
    prog, base, rids, judge = _job
    res = Result("")
    try:
        m = FramerModel(prog, rids[i], base)
        m.fixpoint()
        m.exits = m.final()
        n = judge(m, res)
    except AnalysisError as ex:
        return rids[i], "AnalysisError: %s" % ex, None, None
    except Limit as ex:
        return rids[i], "limit: %s" % ex, None, None
    except Exception:
        return rids[i], traceback.format_exc(), None, None
    return rids[i], None, res.obligations, {"exits": len(m.exits), "states_between_calls": len(m.heads), "loop_heads": m.eng.heads_seen, "judged": n}


def each_framer(prog, res, judge, counter, least):
    """Analyse every framer (in parallel) and collect the verdicts."""
    global _job
    base, rids = framers(prog)
    _job = (prog, base, rids, judge)
    with multiprocessing.get_context("fork").Pool(min(6, os.cpu_count() or 1)) as pool:
        out = pool.map(_one, range(len(rids)), chunksize=1)
    tot = {}
    for rid, err, obl, cov in out:
        if err:
            raise AnalysisError("%s: %s" % (rid, err))
        res.obligations += obl
        for k, v in cov.items():
            tot[k] = tot.get(k, 0) + v
    res.floor("framers", len(rids), 6)
    res.floor("exits", tot["exits"], 40)
    res.floor(counter, tot.pop("judged"), least)
    res.coverage.update(tot)


def status_of(m, v):
    return v.l.c if isinstance(v, Num) and v.l.is_const() else None


def split_status(m, st, v):
    """(state, status constant) pairs"""
    c = status_of(m, v)
    if c is not None:
        return [(st, c)]
    out = []
    l = m.eng.as_lin(st, v)
    for n, k in m.STATUS.items():
        out += [(x, k) for x in m.eng.assume(st, ("eq", l - k))]
    return out


def split_flag(m, st, l):
    """(state with flag on, state with flag off)"""
    e = m.eng
    return e.assume(st, ("ne", l)), e.assume(st, ("eq", l))


def exits_by(m):
    """(state, status, metadata-only?)"""
    for st, v in m.exits:
        for s, c in split_status(m, st, v):
            on, off = split_flag(m, s, m.only)
            for x in on:
                yield x, c, True
            for x in off:
                yield x, c, False


def name_of(d, v):
    return next((k for k, x in d.items() if x == v), str(v))


# ------------------------------------------------------------------------------------------------ bounded access
def judge_bounds(m, res):
    res.merge_engine(m.eng)
    w = where(m.f)
    for st, c, mo in exits_by(m):
        if mo and c in (m.STATUS["SUCCESS"], m.STATUS["UNKNOWN"]):
            L = m.eng.num(st, m.meta["uiLength"])
            ok = L is not None and m.eng.proves_le(st, L - m.eng.num(st, SZ))
            res.ob(ok, w, "length<=received", "%s: a look-ahead never reports more bytes than were received" % m.rec["q"], "" if ok else "reports %r" % L)
    return m.eng.checked


def run_bounds(prog, res, tier="quick"):
    each_framer(prog, res, judge_bounds, "accesses", 60)


# ------------------------------------------------------------------------------------------------ conservation
def copies(m, st):
    lg = st.store.get(LOG)
    if not isinstance(lg, Log):
        return None
    return [c for c in lg.e if isinstance(c[0], Ptr) and c[0].reg == OUT]


def delivered(m, st, lo, n):
    """Were exactly the stream bytes [lo, lo+n) delivered at the start of the caller's buffer?"""
    cs = copies(m, st)
    if cs is None:
        return False
    e = m.eng
    cs = [c for c in cs if not e.proves_le(st, c[2])]
    if not cs:
        return e.proves_le(st, n)
    return len(cs) == 1 and cs[0][0].off == Lin(0) and cs[0][1].reg == STREAM and entails_eq(st.facts, cs[0][1].off - lo, e.rg) and entails_eq(st.facts, cs[0][2] - n, e.rg)


def judge_conserve(m, res):
    cnt = 0
    e = m.eng
    ST = m.STATUS
    q = m.rec["q"]
    pay = e.as_lin(State(), e.load(State(), m.flags["SetPayloadOnly"], {"k": "bool", "w": 1, "u": 1, "s": "bool"}))
    rep = e.as_lin(State(), e.load(State(), m.flags["SetReportUnknownBytes"], {"k": "bool", "w": 1, "u": 1, "s": "bool"}))
    w = where(m.f)
    for st, c, mo in exits_by(m):
        used = e.num(st, BASE)
        L = e.num(st, m.meta["uiLength"])
        sname = name_of(ST, c)
        cnt += 1
        if mo or c not in (ST["SUCCESS"], ST["UNKNOWN"]):
            ok = entails_eq(st.facts, used, e.rg) and not [x for x in (copies(m, st) or []) if not e.proves_le(st, x[2])] and copies(m, st) is not None
            what = "a metadata-only look-ahead consumes and delivers nothing" if mo else "a call that reports neither a frame nor unknown bytes consumes and delivers nothing"
            res.ob(ok, w, "nothing-consumed", "%s: %s" % (q, what), "" if ok else "status %s: consumes %r" % (sname, used))
            continue
        if c == ST["UNKNOWN"]:
            ok = entails_eq(st.facts, used - L, e.rg)
            res.ob(ok, w, "unknown-consumed", "%s: exactly the reported unknown bytes are consumed" % q, "" if ok else "reports %r, consumes %r" % (L, used))
            for x in e.assume(st, ("ne", rep)):
                ok = delivered(m, x, Lin(0), L)
                res.ob(ok, w, "unknown-delivered", "%s: unknown bytes are handed over unchanged when reporting is on" % q, "" if ok else "copies %r" % (copies(m, x),))
            for x in e.assume(st, ("eq", rep)):
                ok = copies(m, x) == []
                res.ob(ok, w, "unknown-suppressed", "%s: unknown bytes are not handed over when reporting is off" % q)
            continue
        fm = e.num(st, m.meta["eFormat"])
        for x in e.assume(st, ("eq", pay)):
            ok = entails_eq(x.facts, used - L, e.rg)
            res.ob(ok, w, "frame-consumed", "%s: exactly the delivered frame is consumed" % q, "" if ok else "length %r, consumes %r" % (L, used))
            ok = delivered(m, x, Lin(0), L)
            res.ob(ok, w, "frame-delivered", "%s: a frame is delivered whole and unchanged" % q, "" if ok else "copies %r" % (copies(m, x),))
        for x in e.assume(st, ("ne", pay)):
            if entails_eq(x.facts, used - L, e.rg) and delivered(m, x, Lin(0), L):
                continue          # framer (or format) without a payload-only form
            hdr = {m.FMT["BINARY"]: 28, m.FMT["PROPRIETARY_BINARY"]: 28, m.FMT["SHORT_BINARY"]: 12}.get(fm.c if fm is not None and fm.is_const() else None)
            ok = hdr is not None and entails_eq(x.facts, used - L - hdr - 4, e.rg)
            res.ob(ok, w, "payload-consumed", "%s: payload-only framing consumes header, payload and checksum" % q, "" if ok else "format %s payload %r, consumes %r" % (fm, L, used))
            ok = hdr is not None and delivered(m, x, Lin(hdr), L)
            res.ob(ok, w, "payload-delivered", "%s: payload-only framing delivers exactly the bytes between header and checksum" % q, "" if ok else "copies %r" % (copies(m, x),))
    return cnt


def run_conserve(prog, res, tier="quick"):
    each_framer(prog, res, judge_conserve, "exits_judged", 60)


# ------------------------------------------------------------------------------------------------ checksum evidence
def eqsyms(e, st, a):
    """Does the path establish a == b for the symbol names?"""
    return a


def evidence(m, st, hi):
    """Kinds of integrity evidence the path establishes for the frame [0, hi)."""
    e = m.eng
    F = st.facts
    eq = lambda l: entails_eq(F, l, e.rg)
    out = set()
    # checksum over everything including the stored one is zero
    if eq(e.num(st, CS)) and eq(e.num(st, CLO)) and eq(e.num(st, CHI) - hi):
        out.add("residue")
    used = set()
    for l in F.eqs:
        used |= set(l.t)
    for f, (off, n, base) in e.fcinfo.items():
        if f not in used or base != 16:
            continue
        fl = Lin.sym(f)
        if eq(off + n + 2 - hi):
            if n == 8 and eq(e.num(st, CS) - fl) and eq(e.num(st, CLO) - 1) and eq(e.num(st, CHI) - off + 1):
                out.add("ascii")
            if n == 2 and eq(e.num(st, XS) - fl) and eq(e.num(st, XLO) - 1) and eq(e.num(st, XHI) - off + 1):
                out.add("nmea")
            for b, (bo, bn) in e.blk.items():
                if b in used and n == 8 and eq(Lin.sym(b) - fl) and eq(bo - 1) and eq(bo + bn - off + 1):
                    out.add("ascii")
    for b, (bo, bn) in e.blk.items():
        if b not in used:
            continue
        for s, (reg, off) in list(e.elsym.items()):
            if s in used and reg == STREAM and e.elsz.get(s) == 4 and eq(Lin.sym(b) - Lin.sym(s)):
                if eq(bo) and eq(bo + bn - off) and eq(off + 4 - hi):
                    out.add("stored")
    return out


NEED = {"BINARY": {"residue", "stored"}, "SHORT_BINARY": {"residue", "stored"}, "PROPRIETARY_BINARY": {"residue", "stored"},
        "ASCII": {"ascii"}, "SHORT_ASCII": {"ascii"}, "NMEA": {"nmea"}}


SYNC = {"BINARY": (0xAA, 0x44, 0x12), "SHORT_BINARY": (0xAA, None, 0x13), "PROPRIETARY_BINARY": (0xAA, 0x45, 0x12),
        "ASCII": (0x23,), "SHORT_ASCII": (0x25,), "ABB_ASCII": (0x3C,), "NMEA": (0x24,), "JSON": (0x7B,)}


def judge_crc(m, res):
    n = 0
    e, ST, q, w = m.eng, m.STATUS, m.rec["q"], where(m.f)
    pay = e.as_lin(State(), e.load(State(), m.flags["SetPayloadOnly"], {"k": "bool", "w": 1, "u": 1, "s": "bool"}))
    ex = [x for x in exits_by(m) if x[1] == ST["SUCCESS"]]
    m.formats = {repr(e.num(x[0], m.meta["eFormat"])) for x in ex}
    for st, c, mo in ex:
        fm = e.num(st, m.meta["eFormat"])
        L = e.num(st, m.meta["uiLength"])
        f = name_of(m.FMT, fm.c) if fm is not None and fm.is_const() else None
        n += 1
        if f in SYNC and not (f == "ABB_ASCII" and len(m.formats) == 1):
            z = State(dict(st.store), st.facts, st.epochs)
            z.store[BASE] = Num(0)
            got = e.leading(z)
            ok = all(b is None or got.get(i) == b for i, b in enumerate(SYNC[f]))
            res.ob(ok, w, "format-announced", "%s: a frame reported as %s begins with that format's sync bytes" % (q, f), "" if ok else "the path establishes only %s" % (got,))
        if f in ("ABB_ASCII", "JSON"):
            res.ob(True, w, "format-without-checksum", "%s: %s carries no checksum" % (q, f))
            continue
        ends = []
        if not mo:
            ends.append((st, e.num(st, BASE)))
        else:
            ends += [(x, L) for x in e.assume(st, ("eq", pay))]
            for x in e.assume(st, ("ne", pay)):
                hdr = {"BINARY": 28, "PROPRIETARY_BINARY": 28, "SHORT_BINARY": 12}.get(f)
                ends.append((x, L if hdr is None or not isinstance(x, State) else None))
        for x, hi in ends:
            if hi is None:
                hdr = {"BINARY": 28, "PROPRIETARY_BINARY": 28, "SHORT_BINARY": 12}[f]
                ev = evidence(m, x, L) | evidence(m, x, L + hdr + 4)
            else:
                ev = evidence(m, x, hi)
            ok = f in NEED and bool(ev & NEED[f])
            res.ob(ok, w, "checksum-verified", "%s: a %s frame is delivered only after its checksum over the whole frame matched" % (q, f or "frame of undetermined format"),
                   "" if ok else "evidence %s; checksum covers [%r,%r)/[%r,%r), frame length %r" % (sorted(ev), e.num(x, CLO), e.num(x, CHI), e.num(x, XLO), e.num(x, XHI), L))
    return n


def run_crc(prog, res, tier="quick"):
    each_framer(prog, res, judge_crc, "deliveries_judged", 12)
