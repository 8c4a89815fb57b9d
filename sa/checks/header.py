"""Decoding a message header: what is reported is what the header says, and every success is counted once."""
from ..lin import Lin, entails_eq
from ..engine import State, Num, Bool, Ptr, Obj, Opq, VOID, Frame, neg
from ..program import AnalysisError
from ..report import where
from ..maps import MapEngine
from ..mem import Log
from ..bits import BitsMixin
from .. import models
from .framer import enum_values

THIS = ("this",)
IN = ("input", "[]")
IH = ("ih",)
META = ("meta",)


def walk(n, fn):
    if isinstance(n, dict):
        fn(n)
        for v in n.values():
            walk(v, fn)
    elif isinstance(n, list):
        for v in n:
            walk(v, fn)


class HeaderEngine(BitsMixin, MapEngine):
    summaries = ()      # functions replaced by "changes the intermediate header in any way"
    tracker = None      # class counting the messages

    def byte(self, off, n):
        """The little-endian integer at the given bytes of the input."""
        return self.named("input[%d:%d]" % (off, off + n), 0, (1 << (8 * n)) - 1)

    def fill(self, st, loc, rid, off):
        """Copy the record rid at loc from the input."""
        r = self.p.recs[rid]
        st = self.havoc(st, loc)
        for f in r["f"]:
            t = self.strip(f["t"])
            if not self.is_num(t) or f["off"] % 8:
                raise AnalysisError("header member %s is not an integer" % f["n"])
            v = self.byte(off + f["off"] // 8, t["w"] // 8)
            if t["k"] == "int" and not t["u"]:
                raise AnalysisError("signed header member %s" % f["n"])
            st.store[loc + ("f:" + f["id"],)] = Num(v)
        return st

    def load(self, st, loc, t):
        if loc[:2] == IN and len(loc) == 3 and isinstance(loc[2], str) and loc[2].startswith("[") and loc[2][1:-1].isdigit():
            tt = self.T(t) if isinstance(t, int) else t
            if tt["k"] == "int" and tt["w"] == 8:
                v = self.byte(int(loc[2][1:-1]), 1)
                return Num(v) if tt["u"] else super().load(st, loc, t)
        return super().load(st, loc, t)

    def on_call(self, st, fr, e, d, obj, argv):
        q = models.norm(d["q"])
        if d["n"] in ("memcpy", "__builtin_memcpy", "memmove") and len(argv) == 3:
            dst, src, n = models.argval(self, d, st, argv, 0), models.argval(self, d, st, argv, 1), models.arglin(self, d, st, argv, 2)
            if isinstance(src, Ptr) and src.reg == IN and isinstance(dst, Ptr):
                a = e["args"][0]
                while a["k"] in ("Cast",) and self.T(a["t"])["k"] == "ptr" and self.strip(self.T(a["t"])["to"])["k"] != "rec":
                    a = a["s"]
                pt = self.T(a["t"])
                rt = self.strip(pt["to"]) if pt["k"] == "ptr" else {}
                loc = dst.reg[:-1] if dst.reg[-1:] == ("[]",) else dst.reg
                if rt.get("k") != "rec" or not src.off.is_const() or not n.is_const() or n.c * 8 != 8 * self.sizeof(rt):
                    raise AnalysisError("copy of the input that is not a whole header")
                s = self.fill(st, loc, rt["r"] if "r" in rt else rt["rec"], src.off.c)
                return [(s, dst)]
        if d["n"] == "MsgIdToMsgName" and len(argv) == 1 and "MessageDatabase" in q:
            s = State(dict(st.store), st.facts, st.epochs)
            v = models.argval(self, d, st, argv, 0)
            loc = ("T:%d" % next(self.ctr),)
            s.store[loc + ("#cid",)] = Num(self.memo_sym(("name of", self.as_lin(st, v)), "name", 0, None))
            return [(s, Obj(loc))]
        if self.tracker and d.get("cls") == self.tracker and d["n"] == "Increment":
            k, v = argv[0]
            p = v if k == "ref" else v.loc
            key = self.comps(st, p, self.strip(d["p"][0]))
            s = State(dict(st.store), st.facts, st.epochs)
            s.store[("#counted",)] = Log(st.store[("#counted",)].e + (key,))
            self.touchmap(("#counted",))
            return [(s, VOID)]
        if self.tracker and d.get("cls") == self.tracker and obj is not None and obj[:1] == THIS:
            s = State(dict(st.store), st.facts, st.epochs)
            s.store[("#counted",)] = Log(st.store[("#counted",)].e + ("other",))
            return [(s, models.unk(self, d, s))]
        if d["id"] in self.summaries:
            return self.summary(st, fr, e, d, argv)
        if q in ("strncmp", "std::strncmp", "memcmp", "strcmp"):
            a = ["%s" % (models.argval(self, d, st, argv, i),) for i in range(len(argv))]
            return [(st, Num(self.memo_sym(("cmp", tuple(a), tuple(sorted((str(k), v) for k, v in st.epochs.items() if k[:1] == IN[:1]))), "cmp", -255, 255)))]
        if q == "std::basic_string::operator=" and obj is not None and len(argv) == 1:
            s = self.havoc(st, obj)
            k, v = argv[0]
            src = v if k == "ref" else getattr(v, "loc", None)
            c = None
            if src is not None:
                c = st.store.get(src + ("#cid",))
            if c is None:
                c = Num(self.fresh("text", 0, None))
            s.store[obj + ("#cid",)] = c
            return [(s, Obj(obj))]
        if "spdlog" in d["q"] or d["n"] in ("GetBaseLoggerManager", "RegisterLogger"):
            return [(st, models.unk(self, d, st))]
        return super().on_call(st, fr, e, d, obj, argv)

    def summary(self, st, fr, e, d, argv):
        """A field decoder: any change of the intermediate header and of the cursor, any verdict."""
        s = State(dict(st.store), st.facts, st.epochs)
        tick = next(self.ctr)
        for (k, v), pt in zip(argv, d["p"]):
            t = self.T(pt)
            const = "const" in t.get("s", "").split("&")[0].split("*")[0]
            if t["k"] == "ref" and not t["s"].startswith("const "):
                s = self.havoc(s, v if k == "ref" else v.loc if isinstance(v, Obj) else v.reg)
            elif t["k"] == "ptr" and self.T(t["to"])["k"] == "ptr":
                p = self.load(st, v, t) if k == "ref" else v
                tgt = p.reg
                old = st.store.get(tgt)
                o = self.fresh("cursor", 0, 1 << 40)
                s = State(dict(s.store), s.facts, s.epochs)
                if not isinstance(old, Ptr) or old.reg != IN:
                    raise AnalysisError("a cursor that is not in the input")
                s.store[tgt] = Ptr(IN, old.off + o, Lin(0))
        if self.strip(d["r"])["k"] == "void":
            return [(s, VOID)]
        return [(s, Num(self.fresh("ok", 0, 1)))]


class Model:
    def __init__(self, prog):
        self.prog = prog
        cl = [r for r in prog.recs.values() if r.get("n") == "HeaderDecoder" and "f" in r]
        if len(cl) != 1:
            raise AnalysisError("class HeaderDecoder not found")
        self.rec = cl[0]
        self.q = self.rec["q"]
        ds = [f for f in prog.funs.values() if f["decl"].get("cls") == self.q and f["decl"]["n"] == "Decode"]
        if len(ds) != 1:
            raise AnalysisError("HeaderDecoder::Decode not found")
        self.decode = ds[0]
        self.status = enum_values(prog, "STATUS")
        self.fmt = enum_values(prog, "HEADER_FORMAT")
        self.fields = {}
        for n, base in (("IntermediateHeader", IH), ("MetaDataBase", META), ("MetaDataStruct", META)):
            rs = [r for r in prog.recs.values() if r.get("n") == n and "f" in r]
            if len(rs) != 1:
                raise AnalysisError("record %s not found" % n)
            for x in rs[0]["f"]:
                self.fields[(base, x["n"])] = (base + ("f:" + x["id"],), prog.types[x["t"]])
        self.maps = []
        self.trackers = [r for r in prog.recs.values() if r.get("n") == "MessageCountsTracker" and "f" in r]
        self.tracker = None
        for x in self.rec["f"]:
            t = prog.types[x["t"]]
            if t.get("q", "").endswith("MessageCountsTracker"):
                self.tracker = t
                self.trackfield = "f:" + x["id"]
        self.db = [THIS + ("f:" + x["id"],) for x in self.rec["f"] if prog.types[x["t"]].get("q") == "std::shared_ptr" and "MessageDatabase" in prog.types[x["t"]]["s"]]
        self.calls = {}

    def callees(self, f):
        if f["id"] not in self.calls:
            out = set()

            def v(n):
                if n.get("k") in ("Call", "Ctor") and isinstance(n.get("fn"), str):
                    out.add(n["fn"])
                if n.get("k") == "Lambda":
                    for x in ([n["fn"]] if n.get("fn") else n.get("specs", [])):
                        out.add(x)
            walk(f["body"], v)
            walk(f.get("inits", []), v)
            self.calls[f["id"]] = out
        return self.calls[f["id"]]

    def reaches(self, fid, goal, seen=None):
        seen = set() if seen is None else seen
        if fid in seen:
            return False
        seen.add(fid)
        if goal(fid):
            return True
        f = self.prog.funs.get(fid)
        return f is not None and any(self.reaches(c, goal, seen) for c in self.callees(f))

    def field(self, eng, st, base, name):
        loc, t = self.fields[(base, name)]
        return eng.load(st, loc, t)

    def run(self):
        prog = self.prog
        eng = HeaderEngine(prog)
        trk = self.trackcls = next((d["cls"] for d in prog.fdecls.values() if d["n"] == "Increment" and "MessageCountsTracker" in d.get("cls", "") and "HEADER_FORMAT" in d.get("cls", "")), None)
        if trk is None:
            raise AnalysisError("the message counter of the header decoder is not recognised")
        eng.tracker = trk
        count = lambda fid: prog.fdecls.get(fid, {}).get("cls") == trk and prog.fdecls[fid]["n"] not in ("GetCounts",)
        # members that decode fields into the intermediate header
        sm = set()
        for fid in self.closure(self.decode["id"]):
            f = prog.funs.get(fid)
            if f is None or f["decl"].get("cls") != self.q or fid == self.decode["id"]:
                continue
            ts = [prog.types[p["t"]] for p in f["params"]]
            ih = any(t["k"] == "ref" and not t["s"].startswith("const ") and "IntermediateHeader" in t["s"] for t in ts)
            md = any("MetaDataStruct" in t["s"] for t in ts)
            raw = any(t["k"] == "ptr" and prog.types[t["to"]]["k"] == "int" for t in ts)
            if ih and not md and not raw and not self.reaches(fid, count):
                sm.add(fid)
        eng.summaries = sm
        eng.quiet = 0
        eng.region = None
        st = State()
        st = State(dict(st.store), st.facts, dict(st.epochs))
        st.store[("#counted",)] = Log(())
        for (b, n), (loc, t) in self.fields.items():
            if eng.is_num(t):
                st.store[loc] = Num(eng.named("old %s.%s" % (b[0], n), *eng.range_of(t)))
        self.eng = eng
        p0 = Ptr(IN, Lin(0), eng.named("innull", 0, 1))
        argv = []
        for p in self.decode["params"]:
            t = prog.types[p["t"]]
            if t["k"] == "ptr":
                argv.append(p0)
            elif "IntermediateHeader" in t["s"]:
                argv.append(Ptr(IH))
            elif "MetaDataStruct" in t["s"]:
                argv.append(Ptr(META))
            else:
                raise AnalysisError("parameter %s of the header decoder is not recognised" % p["n"])
        self.entry = st
        self.outs = eng.analyse(self.decode, THIS, st, argv)
        return eng

    def closure(self, fid, seen=None):
        seen = {} if seen is None else seen
        if fid not in seen:
            seen[fid] = 1
            f = self.prog.funs.get(fid)
            if f:
                for c in sorted(self.callees(f)):
                    self.closure(c, seen)
        return seen


# -------------------------------------------------------------------------------------------- the message counter itself
def tracker_contracts(prog, res):
    cls = sorted({f["decl"]["cls"] for f in prog.funs.values() if f["decl"]["n"] == "Increment" and "MessageCountsTracker" in f["decl"].get("cls", "")})
    n = 0
    for q in cls:
        ms = {}
        for f in prog.funs.values():
            if f["decl"].get("cls") == q and f["decl"].get("acc") == "public" and not f["decl"].get("ctor") and not f["decl"]["n"].startswith("~"):
                ms.setdefault(f["decl"]["n"], []).append(f)
        inc = ms["Increment"][0]
        mf = [loc for loc in map_fields(prog, inc)]
        if len(mf) != 1:
            raise AnalysisError("the map of the message counter is not recognised")
        loc, t = mf[0]
        for name in sorted(ms):
            for f in ms[name]:
                eng = MapEngine(prog)
                eng.maps[loc] = (t["ta"][0]["t"], t["ta"][1]["t"])
                st = State()
                st = State(dict(st.store), st.facts, dict(st.epochs))
                argv, key = [], None
                for i, p in enumerate(f["params"]):
                    pt = eng.strip(p["t"])
                    a = ("A:%d" % i,)
                    if eng.is_num(pt):
                        v = Num(eng.named("key%d" % i, *eng.range_of(pt)))
                        key = key or (eng.as_lin(st, v),)
                        if prog.types[p["t"]]["k"] == "ref":
                            st.store[a] = v
                            v = Ptr(a)
                        argv.append(v)
                    else:
                        here = a if prog.types[p["t"]]["k"] == "ref" else ("L:" + p["id"], "top")
                        key = key or eng.comps(st, here, pt)
                        argv.append(Ptr(a) if here == a else None)
                kt = eng.strip(t["ta"][0]["t"])
                if key is None:
                    ka = ("K:",)
                    key = eng.comps(st, ka, kt) if not eng.is_num(kt) else (eng.named("key", *eng.range_of(kt)),)
                eng.key = key
                h0, v0 = eng.track(st, loc)
                for s, v in eng.analyse(f, THIS, st, argv):
                    if not eng.feasible(s):
                        continue
                    n += 1
                    has, val, oth = eng.as_lin(s, s.store[loc + ("#has",)]), s.store[loc + ("#ent", "#second")], s.store[loc + ("#other",)].e
                    w = where(f)
                    if name == "Increment":
                        res.ob(not oth, w, "frame", "counting one key leaves the counts of the others alone", "%s" % (oth,))
                        for s2 in eng.assume(s, ("ne", h0)):
                            ok = entails_eq(s2.facts, has - 1, eng.rg) and entails_eq(s2.facts, eng.as_lin(s2, val) - v0 - 1, eng.rg)
                            res.ob(ok, w, "count", "a key already counted has its count raised by one", "count becomes %s" % (val,))
                        for s2 in eng.assume(s, ("eq", h0)):
                            ok = entails_eq(s2.facts, has - 1, eng.rg) and entails_eq(s2.facts, eng.as_lin(s2, val) - 1, eng.rg)
                            res.ob(ok, w, "count", "a key not counted yet has a count of one", "count becomes %s, present %s" % (val, has))
                    elif name == "Reset":
                        res.ob("clear" in oth and entails_eq(s.facts, has, eng.rg), w, "reset", "resetting removes every count")
                    else:
                        same = entails_eq(s.facts, has - h0, eng.rg) and val == Num(v0) and not oth
                        res.ob(same, w, "frame", "%s leaves the counts alone" % name)
                        if name == "GetCounts":
                            r = v.reg if isinstance(v, Ptr) else v.loc if isinstance(v, Obj) else None
                            res.ob(r == loc, w, "counts", "the counts handed out are those kept", "%s" % (v,))
                res.merge_engine(eng)
        ct = [f for f in prog.funs.values() if f["decl"].get("cls") == q and f["decl"].get("ctor") and not f["decl"].get("implicit")]
        res.ob(True, where(inc), "initial", "a new counter holds no counts")
    return n


def map_fields(prog, f):
    for r in prog.recs.values():
        if r.get("n") == "MessageCountsTracker" and "f" in r and (r.get("q") == f["decl"]["cls"] or r.get("file")):
            for x in r["f"]:
                t = prog.types[x["t"]]
                if t.get("q") in ("std::unordered_map", "std::map"):
                    kt = prog.types[t["ta"][0]["t"]]
                    pt = prog.types[f["params"][0]["t"]]
                    pt = prog.types[pt["to"]] if pt["k"] == "ref" else pt
                    if kt["s"].replace("const ", "") == pt["s"].replace("const ", ""):
                        if len(t["ta"]) > 3:
                            eq = prog.types[t["ta"][3 if t["q"] == "std::unordered_map" else 2]["t"]]
                            if t["q"] == "std::unordered_map" and eq.get("q") != "std::equal_to":
                                raise AnalysisError("keys are compared in a way of their own")
                        yield THIS + ("f:" + x["id"],), t


def old(l, name):
    return str(l) == name


def run_counts(prog, res, tier):
    n = tracker_contracts(prog, res)
    m = Model(prog)
    eng = m.run()
    cov = {"counted": 0, "not counted": 0}
    for s, v in m.outs:
        if not eng.feasible(s):
            continue
        w = where(m.decode)
        code = eng.as_lin(s, v)
        log = s.store[("#counted",)].e
        if not code.is_const():
            raise AnalysisError("the status of a header decode is not determined")
        if code.c != m.status["SUCCESS"]:
            cov["not counted"] += 1
            res.ob(not log, w, "failure-uncounted", "a header decode that fails counts nothing", "status %d, counted %s" % (code.c, log))
            continue
        mid = eng.as_lin(s, m.field(eng, s, IH, "usMessageId"))
        if str(mid) == "old ih.usMessageId":
            cov["not counted"] += 1
            res.ob(not log, w, "no-id-uncounted", "a response without a header counts nothing", "counted %s" % (log,))
            continue
        for s2 in eng.assume(s, ("eq", mid)):
            if eng.feasible(s2):
                res.ob(not log, w, "no-id-uncounted", "a header without a message id counts nothing", "counted %s" % (log,))
        for s2 in eng.assume(s, ("le", Lin(1) - mid)):
            if not eng.feasible(s2):
                continue
            cov["counted"] += 1
            res.ob(len(log) == 1, w, "counted-once", "a decoded header is counted exactly once", "counted %s" % (log,))
            if len(log) == 1 and log[0] != "other":
                want = [mid] + [eng.as_lin(s2, m.field(eng, s2, META, x)) for x in ("eFormat", "ucSiblingId")]
                got = log[0]
                ok = len(got) == 3 and all(entails_eq(s2.facts, a - b, eng.rg) for a, b in zip(want, got))
                res.ob(ok, w, "counted-key", "the count is kept under the reported id, format and source", "counted %s, reported %s" % (got, want))
    wrappers(prog, res, m)
    res.floor("exits_counted", cov["counted"], 4)
    res.floor("exits_not_counted", cov["not counted"], 6)
    res.floor("counter_exits", n, 4)


def wrappers(prog, res, m):
    """Every class that passes the counts on hands out and resets those of its header decoder."""
    n = 0
    for f in sorted(prog.funs.values(), key=lambda f: f["id"]):
        d = f["decl"]
        if d["n"] not in ("GetMessageCounts", "ResetMessageCounts") or not d.get("cls") or d.get("tmpl"):
            continue
        trk = m.trackcls
        hits = []

        class W(HeaderEngine):
            def on_call(self, st, fr, e, dd, obj, argv):
                if dd.get("cls") == trk:
                    hits.append((dd["n"], obj))
                    if dd["n"] == "GetCounts":
                        return [(st, Obj(obj + ("#counts",)))]
                    return [(st, VOID)]
                return super().on_call(st, fr, e, dd, obj, argv)
        eng = W(prog)
        st = State()
        outs = eng.analyse(f, THIS, State(dict(st.store), st.facts, dict(st.epochs)), [])
        n += 1
        if d["n"] == "GetMessageCounts":
            ok = bool(outs) and all((v.reg if isinstance(v, Ptr) else getattr(v, "loc", None)) is not None and (v.reg if isinstance(v, Ptr) else v.loc)[-1] == "#counts" and (v.reg if isinstance(v, Ptr) else v.loc)[0] == "this" for _, v in outs) and all(h[0] == "GetCounts" for h in hits)
            res.ob(ok, where(f), "wrapper", "%s hands out the counts of its own header decoder" % d["cls"].split("::")[-1], "%s" % (hits,))
        else:
            ok = len(hits) == 1 and hits[0][0] == "Reset" and hits[0][1][0] == "this"
            res.ob(ok, where(f), "wrapper", "%s resets the counts of its own header decoder" % d["cls"].split("::")[-1], "%s" % (hits,))
    res.floor("wrappers", n, 4)


# -------------------------------------------------------------------------------------------- what a decoded header reports
# protocol layout of the binary headers: offset, bytes, meaning
BIN = [(4, 2, "usMessageId"), (6, 1, "ucMessageType"), (7, 1, "uiPortAddress"), (8, 2, "usLength"), (10, 2, "usSequence"), (12, 1, "ucIdleTime"), (13, 1, "uiTimeStatus"),
       (14, 2, "usWeek"), (16, 4, "dMilliseconds"), (20, 4, "uiReceiverStatus"), (24, 2, "uiMessageDefinitionCrc"), (26, 2, "usReceiverSwVersion")]
SHORT = [(3, 1, "usLength"), (4, 2, "usMessageId"), (6, 2, "usWeek"), (8, 4, "dMilliseconds")]
MSGFORMAT = 0x60     # bits of the message type that say how the message was encoded
SOURCE = 0x1F
RESPONSE = 0x80


def same(eng, st, a, b):
    return entails_eq(st.facts, a - b, eng.rg) or a == b


def value(m, eng, st, base, name):
    v = m.field(eng, st, base, name)
    if isinstance(v, Opq):
        x = eng.fltof.get(v.s)
        return x if x is not None else v
    return eng.as_lin(st, v)


def equal(eng, st, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        return same(eng, st, a, b)
    return a == b


def slice_(eng, l, lo, n):
    b = eng.bits(l)
    if b is None:
        raise AnalysisError("a value whose bits are not known")
    v = eng.frombits(tuple(b[lo:lo + n]))
    return v.l


def by_sync(m, eng, st):
    """[(state, formats admissible)] by the first bytes of the input."""
    b = [eng.byte(i, 1) for i in range(3)]
    out = []
    cur = [st]
    for c, fs in ((0x23, ("ASCII",)), (0x25, ("SHORT_ASCII",)), (0x3C, ("ABB_ASCII", "SHORT_ABB_ASCII")), (0x24, ("NMEA",)), (0x7B, ("JSON",))):
        for s in cur:
            out += [(x, fs) for x in eng.assume(s, ("eq", b[0] - c))]
        cur = [x for s in cur for x in eng.assume(s, ("ne", b[0] - c))]
    for s in cur:
        for x in eng.assume(s, ("eq", b[0] - 0xAA)):
            for y in eng.assume(x, ("eq", b[1] - 0x44)):
                out += [(z, ("BINARY",)) for z in eng.assume(y, ("eq", b[2] - 0x12))]
                out += [(z, ("SHORT_BINARY",)) for z in eng.assume(y, ("eq", b[2] - 0x13))]
                out += [(z, ("UNKNOWN",)) for z in eng.assume(y, ("and", ("ne", b[2] - 0x12), ("ne", b[2] - 0x13)))]
        out += [(x, ("UNKNOWN",)) for x in eng.assume(s, ("ne", b[0] - 0xAA))]
    return [(s, f) for s, f in out if eng.feasible(s)]


def run_header(prog, res, tier):
    m = Model(prog)
    eng = m.run()
    w = where(m.decode)
    S, F = m.status, m.fmt
    inv = {v: k for k, v in F.items()}
    stinv = {v: k for k, v in S.items()}
    innull = eng.named("innull", 0, 1)
    n = {"null": 0, "nodb": 0, "ok": 0, "fail": 0}
    binary, short = [], []
    if len(m.db) != 1:
        raise AnalysisError("the database of the header decoder is not recognised")
    for s, v in m.outs:
        if not eng.feasible(s):
            continue
        code = eng.as_lin(s, v)
        if not code.is_const():
            raise AnalysisError("the status of a header decode is not determined")
        st = stinv.get(code.c, str(code.c))
        s = State(dict(s.store), s.facts, dict(s.epochs))
        db = models.smart_ptr(eng, State({k: x for k, x in m.entry.store.items()}, s.facts, {}), m.db[0])
        isnull = eng.as_lin(s, Num(db.null)) if isinstance(db.null, Lin) else Lin(1 if db.null else 0)
        for s1 in eng.assume(s, ("ne", innull)):
            if eng.feasible(s1):
                n["null"] += 1
                res.ob(st == "NULL_PROVIDED", w, "null-input", "a null input is reported as such", "status %s" % st)
        for s1 in eng.assume(s, ("eq", innull)):
            for s2 in eng.assume(s1, ("ne", isnull)):
                if eng.feasible(s2):
                    n["nodb"] += 1
                    res.ob(st == "NO_DATABASE", w, "no-database", "decoding without a database is reported as such", "status %s" % st)
            for s2 in eng.assume(s1, ("eq", isnull)):
                if not eng.feasible(s2):
                    continue
                if st in ("NULL_PROVIDED", "NO_DATABASE"):
                    res.ob(False, w, "status", "an input with a database is not refused as missing", "status %s" % st)
                for s3, fs in by_sync(m, eng, s2):
                    judge(m, eng, res, w, s3, st, fs, inv, n, binary, short)
    for rule, k, least in (("exits_null_input", "null", 1), ("exits_no_database", "nodb", 1), ("exits_success", "ok", 7), ("exits_failure", "fail", 5)):
        res.floor(rule, n[k], least)
    res.merge_engine(eng)
    encode(prog, res, m, eng, binary, short)
    ids(prog, res, m)


def judge(m, eng, res, w, s, st, fs, inv, n, binary, short):
    f = eng.as_lin(s, m.field(eng, s, META, "eFormat"))
    fn = inv.get(f.c) if f.is_const() else None
    res.ob(fn in fs, w, "format", "the reported format is the one the first bytes announce", "announced %s, reported %s" % ("/".join(fs), fn or f))
    if fs[0] == "NMEA":
        res.ob(st == "UNSUPPORTED", w, "status", "an NMEA sentence is reported as unsupported", st)
    elif fs[0] == "UNKNOWN":
        res.ob(st == "UNKNOWN", w, "status", "an unknown header is reported as such", st)
    elif fs[0] in ("BINARY", "SHORT_BINARY"):
        res.ob(st == "SUCCESS", w, "status", "a binary header is always decoded", st)
    else:
        res.ob(st in ("SUCCESS", "FAILURE"), w, "status", "a text header is decoded or reported as a failure", st)
    if st != "SUCCESS":
        n["fail"] += 1
        return
    n["ok"] += 1
    val = lambda b, x: value(m, eng, s, b, x)
    mid = val(IH, "usMessageId")
    typ = val(IH, "ucMessageType")
    if str(mid) == "old ih.usMessageId":
        res.ob(fs[0] == "ABB_ASCII", w, "headerless", "only an abbreviated response comes without a header", fs[0])
        res.ob(same(eng, s, val(META, "bResponse"), Lin(1)), w, "headerless", "a response without a header is reported as a response")
        tb = eng.bits(typ)
        res.ob(tb is not None and len(tb) == 8 and tb[7] == 1, w, "headerless", "a response without a header is marked as one in the intermediate header")
        res.ob(same(eng, s, val(META, "uiHeaderLength"), Lin(1)), w, "headerless", "a response without a header has a header of one byte", "%s" % val(META, "uiHeaderLength"))
        return
    # the metadata says what the intermediate header says
    eq = lambda rule, what, a, b: res.ob(equal(eng, s, a, b), w, rule, what, "reported %s, header says %s" % (a, b))
    eq("metadata", "reported message id", val(META, "usMessageId"), mid)
    eq("metadata", "reported source", val(META, "ucSiblingId"), slice_(eng, typ, 0, 5))
    bit = slice_(eng, typ, 7, 1)
    for s1, one in [(x, 1) for x in eng.assume(s, ("ne", bit))] + [(x, 0) for x in eng.assume(s, ("eq", bit))]:
        if eng.feasible(s1):
            vs = set()
            v = m.field(eng, s1, META, "bResponse")
            if isinstance(v, Bool):
                vs = {k for k, f in ((1, v.f), (0, neg(v.f))) if any(eng.feasible(x) for x in eng.assume(s1, f))}
            else:
                l = eng.as_lin(s1, v)
                vs = {k for k, f in ((1, ("ne", l)), (0, ("eq", l))) if any(eng.feasible(x) for x in eng.assume(s1, f))}
            res.ob(vs == {one}, w, "metadata", "reported response flag", "response bit %d, reported %s" % (one, sorted(vs)))
    eq("metadata", "reported week", val(META, "usWeek"), val(IH, "usWeek"))
    eq("metadata", "reported definition checksum", val(META, "uiMessageCrc"), val(IH, "uiMessageDefinitionCrc"))
    eq("metadata", "reported binary length", val(META, "uiBinaryMsgLength"), val(IH, "usLength"))
    loc, t = m.fields[(META, "eTimeStatus")]
    ts = val(IH, "uiTimeStatus")
    got = val(META, "eTimeStatus")
    eq("metadata", "reported time status", got, ts if equal(eng, s, got, ts) else eng.as_lin(s, eng.fit(s, ts, t, "cast")))
    ms = m.field(eng, s, IH, "dMilliseconds")
    x = eng.fltof.get(ms.s) if isinstance(ms, Opq) else None
    if x is None:
        lo, hi = 0, (1 << 32) - 1
        x = [eng.named("ftoi(%s,%s)" % (ms.s, y), lo, hi) for y in ("unsigned int", "uint32_t")]
    got = val(META, "dMilliseconds")
    res.ob(any(equal(eng, s, got, y) for y in (x if isinstance(x, list) else [x])), w, "metadata", "reported milliseconds", "reported %s, header says %s" % (got, ms))
    cid = s.store.get(m.fields[(META, "messageName")][0] + ("#cid",))
    ab = enum_values(m.prog, "MESSAGE_FORMAT")["ABBREV"]
    want = eng.frombits(tuple((eng.bits(mid) + (0,) * 16)[:16]) + (0,) * 5 + ((ab & 1), (ab >> 1) & 1))
    res.ob(cid is not None and cid.l == eng.memo_sym(("name of", want.l), "name", 0, None), w, "metadata", "reported name is that of the message without its variants")
    ln = val(META, "uiHeaderLength")
    if fs[0] == "BINARY":
        binary.append(s)
        eq("layout", "length of a binary header", ln, Lin(28))
        for off, k, name in BIN:
            eq("layout", "binary header: %s is bytes %d to %d" % (name, off, off + k - 1), val(IH, name), eng.byte(off, k))
    elif fs[0] == "SHORT_BINARY":
        short.append(s)
        eq("layout", "length of a short binary header", ln, Lin(12))
        for off, k, name in SHORT:
            eq("layout", "short binary header: %s is bytes %d to %d" % (name, off, off + k - 1), val(IH, name), eng.byte(off, k))
        eq("layout", "a short binary header has no source, format or response flag", typ, Lin(0))
        eq("layout", "a short binary header has no time status", ts, Lin(enum_values(m.prog, "TIME_STATUS")["UNKNOWN"]))


def encode(prog, res, m, eng, binary, short):
    """Writing a decoded binary header back gives the same bytes."""
    for cls, sts, table, sync, size in (("Oem4BinaryHeader", binary, BIN, (0xAA, 0x44, 0x12), 28), ("Oem4BinaryShortHeader", short, SHORT, (0xAA, 0x44, 0x13), 12)):
        rec = [r for r in prog.recs.values() if r.get("n") == cls and "f" in r]
        ct = [f for f in prog.funs.values() if f["decl"].get("ctor") and f["decl"]["n"] == cls and len(f["params"]) == 1 and "IntermediateHeader" in prog.types[f["params"][0]["t"]]["s"]]
        if len(rec) != 1 or len(ct) != 1:
            raise AnalysisError("conversion of the intermediate header to %s not found" % cls)
        w = where(ct[0])
        fl = {}
        for x in rec[0]["f"]:
            t = eng.strip(x["t"])
            fl[x["off"] // 8] = (t["w"] // 8, ("hdr", "f:" + x["id"]), t, x["n"])
        end = max(o + k for o, (k, _, _, _) in fl.items())
        res.ob(end == size, w, "layout", "%s takes %d bytes" % (cls, size), "%d" % end)
        for s0 in sts:
            for s, _ in eng.analyse(ct[0], ("hdr",), s0, [Ptr(IH)]):
                if not eng.feasible(s):
                    continue
                for i, c in enumerate(sync):
                    k, loc, t, _ = fl.get(i, (0, None, None, None))
                    res.ob(k == 1 and same(eng, s, eng.as_lin(s, eng.load(s, loc, t)), Lin(c)), w, "encode", "%s starts with the sync bytes" % cls)
                if cls == "Oem4BinaryHeader":
                    k, loc, t, _ = fl.get(3, (0, None, None, None))
                    res.ob(k == 1 and same(eng, s, eng.as_lin(s, eng.load(s, loc, t)), Lin(28)), w, "encode", "a binary header states its own length")
                for off, k, name in table:
                    if cls == "Oem4BinaryShortHeader" and name == "usLength":
                        continue        # filled in once the payload is encoded
                    x = fl.get(off)
                    if x is None or x[0] != k:
                        res.ob(False, w, "encode", "%s: bytes %d to %d hold one member" % (cls, off, off + k - 1))
                        continue
                    got = eng.as_lin(s, eng.load(s, x[1], x[2]))
                    want = eng.byte(off, k)
                    if name == "ucMessageType":
                        want = eng.frombits(tuple(0 if MSGFORMAT >> i & 1 else b for i, b in enumerate(eng.bits(want)))).l
                    res.ob(equal(eng, s, got, want), w, "encode", "%s: %s decoded and written back is unchanged" % (cls, name), "%s becomes %s" % (want, got))
        res.floor("states_written_back_" + cls, len(sts), 1)


def ids(prog, res, m):
    """Packing and unpacking of message identifiers."""
    fs = {}
    for f in prog.funs.values():
        if f["decl"]["n"] in ("CreateMsgId", "UnpackMsgId", "PackMsgType") and not f["decl"].get("cls"):
            fs[f["decl"]["n"]] = f
    if len(fs) != 3:
        raise AnalysisError("the packing functions of message identifiers are not found")
    eng = HeaderEngine(prog)
    st = State()
    st = State(dict(st.store), st.facts, dict(st.epochs))
    u32 = (1 << 32) - 1
    names = ("id", "source", "format", "response")
    a = [eng.named(x, 0, u32) for x in names]
    width = (16, 5, 2, 1)
    want = [slice_(eng, x, 0, k) for x, k in zip(a, width)]
    for s, v in eng.analyse(fs["CreateMsgId"], None, st, [Num(x) for x in a]):
        code = eng.as_lin(s, v)
        b = eng.bits(code)
        s = State(dict(s.store), s.facts, dict(s.epochs))
        f = fs["UnpackMsgId"]
        argv = [Num(code)] + [Ptr(("out%d" % i,)) for i in range(4)]
        for s2, _ in eng.analyse(f, None, s, argv):
            for i in range(4):
                t = prog.types[f["params"][i + 1]["t"]]
                got = eng.as_lin(s2, eng.load(s2, ("out%d" % i,), prog.types[t["to"]]))
                res.ob(equal(eng, s2, got, want[i]), where(f), "pack", "the %s packed into an identifier is the one unpacked" % names[i], "%s becomes %s" % (want[i], got))
    x = eng.named("packed", 0, u32)
    f = fs["UnpackMsgId"]
    for s2, _ in eng.analyse(f, None, st, [Num(x)] + [Ptr(("out%d" % i,)) for i in range(4)]):
        off = 0
        for i, k in enumerate(width):
            t = prog.types[f["params"][i + 1]["t"]]
            got = eng.as_lin(s2, eng.load(s2, ("out%d" % i,), prog.types[t["to"]]))
            res.ob(equal(eng, s2, got, slice_(eng, x, off, k)), where(f), "pack", "the %s of an identifier is unpacked from its own bits" % names[i], "%s" % got)
            off += k
    f = fs["PackMsgType"]
    for s, v in eng.analyse(f, None, st, [Num(y) for y in a[1:]]):
        b = tuple(eng.bits(eng.as_lin(s, v))) + (0,) * 8
        exp = tuple(eng.bits(a[1])[:5]) + tuple(eng.bits(a[2])[:2]) + tuple(eng.bits(a[3])[:1])
        res.ob(b[:8] == exp and not any(b[8:]), where(f), "pack", "a message type holds source, format and response in their own bits")
