"""The parser: a message is delivered exactly when every stage accepted it, and nothing else is."""
from ..lin import Lin, entails_eq, entails_le
from ..engine import State, Num, Bool, Ptr, Obj, Opq, Clo, VOID
from ..program import AnalysisError
from ..report import where
from ..maps import MapEngine
from ..mem import Log
from .. import models
from .framer import enum_values
from .header import walk

THIS = ("this",)
G = ("#stages",)
LEN = ("#lengths",)
CLS = {"Framer", "FramerBase", "FramerManager", "HeaderDecoder", "HeaderDecoderBase", "Filter", "RangeDecompressor", "RxConfigHandler",
       "MessageDecoder", "MessageDecoderBase", "Encoder", "EncoderBase"}


def base(q):
    return (q or "").split("<")[0].split("::")[-1]


class ParserEngine(MapEngine):
    """Every stage of the parser is an event with an arbitrary verdict; what the parser makes of the verdicts is interpreted."""
    max_states = 4000
    max_steps = 8000000
    lowest = None       # functions of the parser itself that are events as well

    def __init__(self, prog):
        super().__init__(prog)
        self.ST = enum_values(prog, "STATUS")
        self.again = []
        mb = [r for r in prog.recs.values() if r.get("n") == "MetaDataBase"][0]
        self.meta = {x["n"]: x for x in mb["f"]}
        for r in prog.recs.values():
            if r.get("n") == "MetaDataStruct" and (r.get("q") or "").startswith("novatel"):
                self.meta.update({x["n"]: x for x in r["f"]})

    def mf(self, name):
        return "f:" + self.meta[name]["id"]

    def event(self, st, *ev, first=False):
        """first: the event opens a round, what came before has been judged (see feed)."""
        s = State(dict(st.store), st.facts, st.epochs)
        g = None if first else st.store.get(G)
        s.store[G] = Log((g.e if g is not None else ()) + (ev,))
        return s

    def status(self, name):
        return self.fresh(name, 0, max(self.ST.values()))

    def changed(self, st, loc, keep=()):
        """The object may hold anything afterwards (members named in keep unchanged)."""
        old = [(loc + (k,), st.store.get(loc + (k,))) for k in keep]
        s = self.havoc(st, loc)
        s = State(dict(s.store), s.facts, s.epochs)
        for k, v in old:
            if v is not None:
                s.store[k] = v
        return s

    def refloc(self, st, d, argv, i):
        k, v = argv[i]
        return v if k == "ref" else v.loc if isinstance(v, Obj) else v.reg if isinstance(v, Ptr) else None

    def on_call(self, st, fr, e, d, obj, argv):
        c, n = base(d.get("cls")), d["n"]
        q = d["q"]
        if "spdlog" in q or n in ("GetBaseLoggerManager", "GetLoggerManager", "RegisterLogger") or "CPPLoggerManager" in q:
            return [(st, models.unk(self, d, st))]
        if self.lowest and d["id"] in self.lowest:
            return self.lowest[d["id"]](st, fr, e, d, obj, argv)
        if c in CLS or (c not in ("Parser", "FileParserBase", "FileParser") and d.get("cls", "") and q.startswith("novatel") and n in ("GetFrame", "Decode", "Encode", "DoFiltering", "Decompress")):
            r = self.stage(st, fr, e, d, obj, argv, c, n)
            return r if r is not None else self.call_unknown(e, d, st, fr, obj, argv)
        if c in ("basic_istream", "basic_ios", "ios_base", "istream") and n in ("read", "gcount", "eof", "clear", "seekg", "good", "fail", "bad", "operator bool", "operator!", "tellg"):
            return self.istream(st, d, obj, argv, n)
        if n == "LoadJsonDbFile":
            return [(st, models.unk(self, d, st))]
        return super().on_call(st, fr, e, d, obj, argv)

    def stage(self, st, fr, e, d, obj, argv, c, n):
        def arg(i):
            return models.argval(self, d, st, argv, i)

        def ps(i):
            v = arg(i)
            return v if isinstance(v, Ptr) else None
        if n == "GetFrame":
            self.feed(st)
            m = self.refloc(st, d, argv, 2)
            s = self.changed(st, m)
            L, F, R = self.fresh("length", 0, 2 ** 32 - 1), self.fresh("format", 0, 255), self.fresh("response", 0, 1)
            s.store[m + (self.mf("uiLength"),)] = Num(L)
            s.store[m + (self.mf("eFormat"),)] = Num(F)
            s.store[m + (self.mf("bResponse"),)] = Num(R)
            v = self.status("framed")
            return [(self.event(s, "frame", v, L, F, R, ps(0), models.arglin(self, d, st, argv, 1), m, first=True), Num(v))]
        if n == "Flush":
            v = self.fresh("flushed", 0, 2 ** 32 - 1)
            return [(self.event(st, "flush", v, ps(0), models.arglin(self, d, st, argv, 1)), Num(v))]
        if n == "Decode" and c.startswith("HeaderDecoder"):
            h, m = self.refloc(st, d, argv, 1), self.refloc(st, d, argv, 2)
            s = self.changed(self.changed(st, h), m, (self.mf("uiLength"),))
            v = self.status("header")
            hl = self.fresh("headerlength", 0, 2 ** 32 - 1)
            s.store[m + (self.mf("uiHeaderLength"),)] = Num(hl)
            s = State(s.store, s.facts.with_le(hl - self.as_lin(s, self.load(s, m + (self.mf("uiLength"),), U32))), s.epochs)   # the header is part of the message
            return [(self.event(s, "header", v, ps(0), h, m), Num(v))]
        if n == "DoFiltering":
            v = self.fresh("accepted", 0, 1)
            member = obj is not None and len(obj) == 2 and obj[:1] == THIS
            return [(self.event(st, "range" if member else "user", v, obj, self.refloc(st, d, argv, 0)), Num(v))]
        if n == "Decompress":
            m = self.refloc(st, d, argv, 2)
            s = self.changed(st, m)
            v = self.status("decompressed")
            nl, nh = self.fresh("newlength", 0, 2 ** 32 - 1), self.fresh("newheader", 0, 2 ** 32 - 1)
            s.store[m + (self.mf("uiLength"),)] = Num(nl)
            s.store[m + (self.mf("uiHeaderLength"),)] = Num(nh)
            s = State(s.store, s.facts.with_le(nh - nl), s.epochs)
            s.store[m + (self.mf("usMessageId"),)] = Num(self.fresh("newid", 0, 65535))
            return [(self.event(s, "decompress", v, ps(0), models.arglin(self, d, st, argv, 1), m), Num(v))]
        if n == "IsRxConfigTypeMsg":
            l = models.arglin(self, d, st, argv, 0)
            v = self.memo_sym(("rxconfig", l), "rxconfig", 0, 1)
            return [(self.event(st, "rx", v, l), Num(v))]
        if n == "Decode":
            b, m = self.refloc(st, d, argv, 1), self.refloc(st, d, argv, 2)
            s = self.changed(st, b)
            s = self.changed(s, m, [self.mf(x) for x in ("uiLength", "uiHeaderLength", "usMessageId", "eFormat")])
            v = self.status("decoded")
            return [(self.event(s, "message", v, c == "RxConfigHandler", ps(0), b, m), Num(v))]
        if n == "Encode" and len(argv) >= 6:
            p = arg(0)
            tgt = self.load(st, p.reg, self.T(self.T(d["p"][0])["to"])) if isinstance(p, Ptr) else None
            md = self.refloc(st, d, argv, 4)
            s = self.changed(st, md)
            v = self.status("encoded")
            rx = c == "RxConfigHandler"
            return [(self.event(s, "encode", v, rx, tgt, models.arglin(self, d, st, argv, 1), self.refloc(st, d, argv, 2), self.refloc(st, d, argv, 3), md,
                                models.arglin(self, d, st, argv, len(argv) - 1), None if rx else models.arglin(self, d, st, argv, 5)), Num(v))]
        if n == "LoadJsonDb":
            k, v = argv[0]
            p = models.smart_ptr(self, State(dict(st.store), st.facts, st.epochs), v if k == "ref" else v.loc) if (k == "ref" or isinstance(v, Obj)) else v
            return [(self.event(st, "db", obj, p.reg if isinstance(p, Ptr) else None), VOID)]
        if n in ("IncludeMessageId", "IncludeMessageName") and c == "Filter":
            return [(self.event(st, "include", obj, n, tuple(models.argval(self, d, st, argv, i) for i in range(len(argv)))), VOID)]
        if n == "Reset":
            return [(self.event(st, "reset", obj), VOID)]
        if n in ("Write", "GetAvailableSpace", "GetMessageCounts", "ResetMessageCounts"):
            v = models.unk(self, d, st)
            return [(self.event(st, n, obj, tuple(arg(i) for i in range(len(argv))), v), v)]
        return None

    def istream(self, st, d, obj, argv, n):
        a = tuple(models.argval(self, d, st, argv, i) for i in range(len(argv)))
        if n == "read":
            s = self.havoc(st, a[0].reg) if isinstance(a[0], Ptr) else st
            l = self.as_lin(st, a[1])
            v = self.fresh("got", 0, 2 ** 62)
            s = State(dict(s.store), s.facts.with_le(v - l), s.epochs)
            return [(self.event(s, "sread", obj, a[0], l, v), Obj(obj))]
        if n == "gcount":
            for e in reversed((st.store.get(G) or Log(())).e):
                if e[0] == "sread" and e[1] == obj:
                    return [(st, Num(e[4]))]
        v = models.unk(self, d, st)
        return [(self.event(st, "s" + n, obj, a, v), v)]

    def feed(self, st):
        """A further frame is asked for although this one has not been dealt with."""
        g = st.store.get(G)
        if g is not None and g.e and not self.quiet:
            self.again.append(State(dict(st.store), st.facts, st.epochs))

    def on_loop(self, s, entry, head, back, exits, fr):
        if not self.quiet:
            self.again += [State(dict(b.store), b.facts, b.epochs) for b in back]
        return super().on_loop(s, entry, head, back, exits, fr)


def eq(eng, s, a, b):
    return isinstance(a, Lin) and isinstance(b, Lin) and entails_eq(s.facts, a - b, eng.rg)


def split(eng, s, l, vals):
    """[(state, value or None)] deciding which of vals l is."""
    out, rest = [], [s]
    for v in vals:
        nxt = []
        for x in rest:
            out += [(y, v) for y in eng.assume(x, ("eq", l - v)) if eng.feasible(y)]
            nxt += [y for y in eng.assume(x, ("ne", l - v)) if eng.feasible(y)]
        rest = nxt
    return out + [(x, None) for x in rest]


def method(prog, cls, name, n=None):
    fs = [f for f in prog.funs.values() if base(f["decl"].get("cls")) == cls and f["decl"]["n"] == name and (n is None or len(f["params"]) == n)]
    if len(fs) != 1:
        raise AnalysisError("%s::%s: %d definitions" % (cls, name, len(fs)))
    return fs[0]


def setting(prog, name, res):
    """The location the setter writes, checked against its getter; nothing else is changed."""
    f = method(prog, "Parser", "Set" + name)
    g = method(prog, "Parser", "Get" + name)
    eng = ParserEngine(prog)
    v = eng.named("v", 0, 1)
    arg = Num(v)
    t = prog.types[f["params"][0]["t"]]
    if t["k"] == "ref":
        arg = Ptr(("arg",))
    eng.writes = [set()]
    w = eng.writes[0]
    st = State()
    rs = eng.analyse(f, THIS, st, [arg])
    w = {l for l in w if l[:1] == THIS}
    roots = {l[:2] for l in w}
    res.ob(len(roots) == 1 and len(rs) == 1, where(f), "setting", "a setting is stored in a place of its own (%s)" % name, "%s" % (sorted(map(str, roots)),))
    if len(roots) != 1 or len(rs) != 1:
        return None
    loc = next(iter(roots))
    eng.writes = None
    if t["k"] != "ref":
        back = eng.analyse(g, THIS, rs[0][0], [])
        ok = len(back) == 1 and eng.as_lin(back[0][0], back[0][1]) == v
        res.ob(ok, where(g), "setting", "the value set is the value reported (%s)" % name)
    else:
        s = rs[0][0]
        a, b = models.smart_ptr(eng, s, loc), models.smart_ptr(eng, s, ("arg",))
        res.ob(isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg, where(f), "setting", "the object set is the object used (%s)" % name)
    return loc


def capacity(prog, eng, fid):
    """Bytes allocated for the buffer member, from its initialiser."""
    best = []
    for r in prog.recs.values():
        for x in r.get("f", []):
            if "f:" + x["id"] == fid and "init" in x:
                walk(x["init"], lambda y: best.append(y["args"][0]["cv"]) if y.get("k") == "Call" and y.get("args") and "cv" in y["args"][0] else None)
    for f in prog.funs.values():
        for i in f.get("inits") or []:
            if "f:" + str(i.get("f")) == fid and i.get("e"):
                got = []
                walk(i["e"], lambda y: got.append(y["args"][0]["cv"]) if y.get("k") == "Call" and y.get("args") and "cv" in y["args"][0] else None)
                best += got
    return min(int(b) for b in best) if best else None


def run(prog, res, tier="quick"):
    names = ("IgnoreAbbreviatedAsciiResponses", "DecompressRangeCmp", "ReturnUnknownBytes", "EncodeFormat", "Filter")
    locs = {n: setting(prog, n, res) for n in names}
    vals = [v for v in locs.values() if v is not None]
    res.ob(len(set(vals)) == len(vals), "include/novatel_edie/decoders/oem/parser.hpp", "setting", "no two settings share a place")
    if None in locs.values():
        return
    res.floor("settings", len(vals), 5)
    intermediate(prog, res, locs)
    read(prog, res, locs)
    rest(prog, res)
    fileparser(prog, res)


def record(prog, name):
    return {x["n"]: x for r in prog.recs.values() if r.get("n") == name and (r.get("q") or "").startswith("novatel") for x in r["f"]}


U8, U32, U16, BOOL = ({"k": "int", "w": 8, "u": 1, "s": "u8"}, {"k": "int", "w": 32, "u": 1, "s": "u32"}, {"k": "int", "w": 16, "u": 1, "s": "u16"}, {"k": "bool", "w": 1, "u": 1, "s": "bool"})
MSG, HDR, BODY, META = ("msgdata",), ("header",), ("message",), ("metadata",)


def intermediate(prog, res, locs):
    f = method(prog, "Parser", "ReadIntermediate")
    w = where(f)
    eng = ParserEngine(prog)
    ST = eng.ST
    fmt = enum_values(prog, "HEADER_FORMAT")
    st = State()
    flag = eng.named("decodeincomplete", 0, 1)
    by = {"MessageDataStruct": MSG, "IntermediateHeader": HDR, "CompositeField": BODY, "MetaDataStruct": META}
    argv = []
    for p in f["params"]:
        t = eng.T(p["t"])
        argv.append(Ptr(by[base(eng.T(t["to"]).get("q"))]) if t["k"] == "ref" else Num(flag))
    exits = [(s, v) for s, v in eng.analyse(f, THIS, st, argv) if eng.feasible(s)]
    res.ob(not [1 for s, _ in eng.thrown if eng.feasible(s)], w, "verdict", "reading does not throw by itself")
    res.merge_engine(eng)
    again = eng.again
    md = record(prog, "MessageDataStruct")
    hid = "f:" + record(prog, "IntermediateHeader")["usMessageId"]["id"]

    def opt(s, n):
        return eng.as_lin(s, eng.load(s, locs[n], BOOL))

    def mval(s, n):
        v = s.store.get(MSG + ("f:" + md[n]["id"],))
        return v

    def num(s, loc, t):
        return eng.as_lin(s, eng.load(s, loc, t))
    n = [0]
    buffers = set()

    def judge(s, v):
        """v is None when the parser moves on to the next frame."""
        ev = s.store.get(G)
        ev = list(ev.e) if ev is not None else []
        if not ev or ev[0][0] != "frame":
            res.ob(False, w, "order", "every round starts by asking for a frame", str([x[0] for x in ev])[:200])
            return
        _, fs, L, F, R, buf, size, m = ev.pop(0)
        if not isinstance(buf, Ptr) or buf.off != Lin(0):
            res.ob(False, w, "buffer", "frames are received at the start of the parser's buffer")
            return
        buffers.add((buf.reg, size))
        rep = opt(s, "ReturnUnknownBytes")
        out = {}

        def verdict(x, want, why):
            n[0] += 1
            if want is None:
                res.ob(v is None, w, "verdict", "%s: the parser moves on to the next message" % why, "" if v is None else "returns %s" % (v,))
            else:
                got = v is not None and eq(eng, x, eng.as_lin(x, v), want if isinstance(want, Lin) else Lin(want))
                res.ob(got, w, "verdict", "%s: that is what is reported" % why, "" if got else "returns %s instead of %s" % ("nothing" if v is None else v, want))
                return got

        def pointers(x, body, hdr=None):
            p = mval(x, "pucMessage")
            ok = isinstance(p, Ptr) and p.reg == buf.reg and eq(eng, x, p.off, Lin(0))
            res.ob(ok, w, "pointers", "what is handed over starts where the frame was received", "" if ok else str(p))
            b = mval(x, "pucMessageBody")
            if body is None:
                bl = num(x, MSG + ("f:" + md["uiMessageBodyLength"]["id"],), U32)
                ok = isinstance(b, Ptr) and eq(eng, x, b.null, Lin(1)) or isinstance(b, Ptr) and b.reg == ("null",) or isinstance(b, Ptr) and "null" in str(b.reg).lower()
                res.ob(ok and eq(eng, x, bl, Lin(0)), w, "pointers", "bytes that are no message are handed over without a body", "" if ok else str(b))
            else:
                h = num(x, m + (eng.mf("uiHeaderLength"),), U32)
                ok = isinstance(b, Ptr) and b.reg == buf.reg and eq(eng, x, b.off, h)
                res.ob(ok, w, "pointers", "the body starts behind the header", "" if ok else str(b))
                bl = num(x, MSG + ("f:" + md["uiMessageBodyLength"]["id"],), U32)
                tl = num(x, m + (eng.mf("uiLength"),), U32)
                ok = eq(eng, x, bl, tl - h)
                res.ob(ok, w, "pointers", "the body is what is left behind the header", "" if ok else str(bl))
            ml = num(x, MSG + ("f:" + md["uiMessageLength"]["id"],), U32)
            tl = num(x, m + (eng.mf("uiLength"),), U32)
            ok = eq(eng, x, ml, tl)
            res.ob(ok, w, "pointers", "the length handed over is that of the message", "" if ok else "%s instead of %s" % (ml, tl))

        def unknown(x, why):
            for y, r in split(eng, x, rep, (0, 1)):
                if r == 0:
                    verdict(y, None, why + ", unknown bytes not wanted")
                elif verdict(y, ST["UNKNOWN"], why + ", unknown bytes wanted"):
                    pointers(y, None)

        def nothing(x, e, why):
            res.ob(not e, w, "order", "%s: no further stage runs" % why, str([y[0] for y in e])[:100])

        judge_tools = (verdict, pointers, unknown, nothing)
        for x, k in split(eng, s, fs, (ST["SUCCESS"], ST["UNKNOWN"], ST["INCOMPLETE"], ST["BUFFER_EMPTY"])):
            e = list(ev)
            if k == ST["INCOMPLETE"]:
                for y, fl in split(eng, x, flag, (0, 1)):
                    for z, ff in split(eng, y, F, (fmt["ABB_ASCII"], fmt["SHORT_ABB_ASCII"])):
                        e2 = list(e)
                        if fl == 1 and ff is not None:
                            ok = bool(e2) and e2[0][0] == "flush" and isinstance(e2[0][2], Ptr) and e2[0][2].reg == buf.reg and e2[0][3] == size
                            res.ob(ok, w, "order", "an unterminated abbreviated message is taken out of the framer on request")
                            if not ok:
                                continue
                            fl_ = e2.pop(0)[1]
                            for u, zero in split(eng, z, fl_, (0,)):
                                if zero == 0:
                                    nothing(u, e2, "nothing to flush")
                                    verdict(u, ST["BUFFER_EMPTY"], "nothing left")
                                else:
                                    ml = None
                                    if not [q for q in e2 if q[0] == "decompress"]:
                                        ml = num(u, m + (eng.mf("uiLength"),), U32)
                                        res.ob(eq(eng, u, ml, fl_), w, "pointers", "an unterminated message is as long as what was taken out of the framer")
                                    framed(u, e2, F, R, m, buf, judge_tools)
                        else:
                            nothing(z, e2, "incomplete frame")
                            verdict(z, ST["BUFFER_EMPTY"], "more bytes are needed")
            elif k == ST["BUFFER_EMPTY"]:
                nothing(x, e, "empty buffer")
                verdict(x, ST["BUFFER_EMPTY"], "more bytes are needed")
            elif k == ST["UNKNOWN"]:
                nothing(x, e, "unknown bytes")
                unknown(x, "unknown bytes")
            elif k is None:
                nothing(x, e, "framing error")
                verdict(x, None, "framing error")
            else:
                framed(x, e, F, R, m, buf, judge_tools)

    def framed(s, e0, F, R, m, buf, tools):
        verdict, pointers, unknown, nothing = tools
        ign = opt(s, "IgnoreAbbreviatedAsciiResponses")
        for a, resp in split(eng, s, R, (0,)):
            for b, ff in split(eng, a, F, (fmt["ABB_ASCII"],)):
                for c, ig in split(eng, b, ign, (0,)):
                    e = list(e0)
                    if resp is None and ff is not None and ig is None:
                        nothing(c, e, "ignored response")
                        verdict(c, None, "abbreviated response to be ignored")
                        continue
                    if not e or e[0][0] != "header":
                        res.ob(False, w, "order", "a frame's header is decoded", str([y[0] for y in e])[:100])
                        continue
                    _, hs, hp, h, hm = e.pop(0)
                    ok = isinstance(hp, Ptr) and hp.reg == buf.reg and hp.off == Lin(0) and h == HDR and hm == m
                    res.ob(ok, w, "order", "the header is decoded from the start of the frame into what the caller gets")
                    for x, k in split(eng, c, hs, (ST["SUCCESS"],)):
                        if k is None:
                            nothing(x, e, "undecodable header")
                            unknown(x, "undecodable header")
                        else:
                            decoded(x, list(e), m, buf, tools)

    def decoded(s, e, m, buf, tools):
        verdict, pointers, unknown, nothing = tools
        up = models.smart_ptr(eng, State(dict(s.store), s.facts, s.epochs), locs["Filter"])
        us = [y for y in e if y[0] == "user"]
        for a, null in split(eng, s, up.null, (0, 1)):
            if null == 1:
                res.ob(not us, w, "filter", "without a filter nothing is filtered")
                filtered(a, e, m, buf, tools)
                continue
            ok = len(us) == 1 and e[0][0] == "user" and us[0][3] == m
            res.ob(ok, w, "filter", "the user's filter judges every decoded header once, before anything else", "%d times" % len(us))
            if not ok:
                continue
            for x, acc in split(eng, a, us[0][1], (0,)):
                if acc == 0:
                    nothing(x, e[1:], "filtered message")
                    verdict(x, None, "message the filter rejects")
                else:
                    filtered(x, e[1:], m, buf, tools)

    def filtered(s, e0, m, buf, tools):
        verdict, pointers, unknown, nothing = tools
        opt_ = opt(s, "DecompressRangeCmp")
        for a, o in split(eng, s, opt_, (0,)):
            e = list(e0)
            rng = None
            if e and e[0][0] == "range":
                rng = e.pop(0)
                res.ob(rng[3] == m, w, "order", "the message is looked up by its metadata")
            if o == 0:
                res.ob(not [y for y in e if y[0] == "decompress"], w, "decompress", "nothing is decompressed unless wanted")
                message(a, e, m, buf, tools)
                continue
            if rng is None:
                res.ob(False, w, "decompress", "compressed ranges are recognised when they are to be decompressed")
                continue
            for b, is_ in split(eng, a, rng[1], (0,)):
                e2 = list(e)
                if is_ == 0:
                    res.ob(not [y for y in e2 if y[0] == "decompress"], w, "decompress", "only compressed ranges are decompressed")
                    message(b, e2, m, buf, tools)
                    continue
                ok = bool(e2) and e2[0][0] == "decompress" and isinstance(e2[0][2], Ptr) and e2[0][2].reg == buf.reg and e2[0][2].off == Lin(0) and e2[0][4] == m
                res.ob(ok, w, "decompress", "compressed ranges are decompressed in place when wanted")
                if not ok:
                    continue
                d = e2.pop(0)
                buffers.add((buf.reg, d[3]))
                for x, k in split(eng, b, d[1], (ST["SUCCESS"],)):
                    if k is None:
                        nothing(x, e2, "failed decompression")
                        verdict(x, d[1], "failed decompression")
                    else:
                        ok = eq(eng, x, num(x, HDR + (hid,), U16), num(x, m + (eng.mf("usMessageId"),), U16))
                        res.ob(ok, w, "decompress", "the header names the decompressed message")
                        message(x, list(e2), m, buf, tools)

    def message(s, e, m, buf, tools):
        verdict, pointers, unknown, nothing = tools
        rx = None
        while e and e[0][0] == "rx":
            y = e.pop(0)
            ok = eq(eng, s, y[2], num(s, HDR + (hid,), U16))
            res.ob(ok, w, "order", "the kind of message is told by the header's id")
            rx = y[1]
        ok = len(e) == 1 and e[0][0] == "message"
        res.ob(ok, w, "order", "a message that passed the earlier stages is decoded once", str([y[0] for y in e])[:100])
        if not ok:
            return
        _, ms, kind, p, b, mm = e[0]
        h = num(s, m + (eng.mf("uiHeaderLength"),), U32)
        ok = isinstance(p, Ptr) and p.reg == buf.reg and eq(eng, s, p.off, h) and b == BODY and mm == m
        res.ob(ok, w, "order", "the body is decoded from behind the header into what the caller gets")
        if rx is None:
            rx = eng.memo_sym(("rxconfig", num(s, HDR + (hid,), U16)), "rxconfig", 0, 1)
        ok = eq(eng, s, rx, Lin(1 if kind else 0))
        res.ob(ok, w, "order", "configuration messages go to their own decoder, all others to the general one")
        for x, k in split(eng, s, ms, (ST["SUCCESS"], ST["NO_DEFINITION"])):
            if k is None:
                unknown(x, "undecodable body")
            elif verdict(x, k, "decoded message" if k == ST["SUCCESS"] else "message without a definition"):
                pointers(x, True)
    for s, v in exits:
        judge(s, v)
    for s in again:
        if eng.feasible(s):
            judge(s, None)
    res.floor("verdicts_judged", n[0], 20)
    res.floor("rounds", len(exits) + len(again), 10)
    sizes(prog, res, eng, buffers, w)


def sizes(prog, res, eng, buffers, w):
    k = 0
    for reg, size in sorted(buffers, key=str):
        fid = next((c for c in reg if isinstance(c, str) and c.startswith("f:")), None)
        cap = capacity(prog, eng, fid)
        ok = cap is not None and size.is_const() and size.c <= cap
        res.ob(ok, w, "buffer", "stages are told no more room than the parser's buffer has", "" if ok else "%s of %s" % (size, cap))
        k += 1
    res.floor("buffers", k, 1)


def read(prog, res, locs):
    f = method(prog, "Parser", "Read")
    w = where(f)
    eng = ParserEngine(prog)
    ST = eng.ST
    inner = method(prog, "Parser", "ReadIntermediate")
    hid = "f:" + record(prog, "IntermediateHeader")["usMessageId"]["id"]

    def low(st, fr, e, d, obj, argv):
        eng.feed(st)
        ls = {}
        for i, p in enumerate(d["p"]):
            t = eng.T(p)
            if t["k"] == "ref":
                ls[base(eng.strip(t["to"]).get("q"))] = eng.refloc(st, d, argv, i)
        s = st
        for l in ls.values():
            s = eng.changed(s, l)
        v = eng.status("read")
        last = models.arglin(eng, d, st, argv, len(argv) - 1)
        idl = eng.as_lin(s, eng.load(s, ls["IntermediateHeader"] + (hid,), U16))
        return [(eng.event(s, "read", v, ls, last, idl, first=True), Num(v))]
    eng.lowest = {inner["id"]: low}
    flag = eng.named("decodeincomplete", 0, 1)
    by = {"MessageDataStruct": MSG, "MetaDataStruct": META}
    argv = [Ptr(by[base(eng.T(eng.T(p["t"])["to"]).get("q"))]) if eng.T(p["t"])["k"] == "ref" else Num(flag) for p in f["params"]]
    eng.again = []
    exits = eng.analyse(f, THIS, State(), argv)
    res.merge_engine(eng)
    n = 0
    buffers = set()
    for s, v in [(s, v) for s, v in exits] + [(s, None) for s in eng.again]:
        if not eng.feasible(s):
            continue
        ev = list((s.store.get(G) or Log(())).e)
        if not ev or ev[0][0] != "read":
            res.ob(False, w, "order", "every round starts by reading a message")
            continue
        _, rs, ls, last, idl = ev.pop(0)
        ok = ls.get("MessageDataStruct") == MSG and ls.get("MetaDataStruct") == META and eq(eng, s, last, flag)
        res.ob(ok, w, "order", "the message is read into what the caller gets")
        for x, k in split(eng, s, rs, (ST["SUCCESS"],)):
            n += 1
            if k is None:
                res.ob(not ev, w, "order", "only a message that was read is encoded")
                ok = v is not None and eq(eng, x, eng.as_lin(x, v), rs)
                res.ob(ok, w, "verdict", "the outcome of reading is reported as it is", "" if ok else str(v))
                continue
            e = list(ev)
            rx = eng.memo_sym(("rxconfig", idl), "rxconfig", 0, 1)
            while e and e[0][0] == "rx":
                y = e.pop(0)
                res.ob(eq(eng, x, y[2], idl), w, "order", "the kind of message is told by the header's id")
            ok = len(e) == 1 and e[0][0] == "encode"
            res.ob(ok, w, "order", "a message that was read is encoded once", str([y[0] for y in e])[:100])
            if not ok:
                continue
            _, es, kind, tgt, size, h, b, md, fmt, hf = e[0]
            ok = h == ls["IntermediateHeader"] and b == ls["CompositeField"] and md == MSG
            res.ob(ok, w, "order", "what is encoded is what was read")
            ok = eq(eng, x, rx, Lin(1 if kind else 0))
            res.ob(ok, w, "order", "configuration messages go to their own encoder, all others to the general one")
            want = eng.as_lin(x, eng.load(x, locs["EncodeFormat"], {"k": "int", "w": 32, "u": 0, "s": "int"}))
            ok = eq(eng, x, fmt, want)
            res.ob(ok, w, "order", "messages are encoded in the format that was set", "" if ok else "%s %s" % (fmt, want))
            if hf is not None:
                ok = eq(eng, x, hf, eng.as_lin(x, eng.load(x, META + (eng.mf("eFormat"),), eng.strip(eng.meta["eFormat"]["t"]))))
                res.ob(ok, w, "order", "the encoder is told the format the message had")
            ok = isinstance(tgt, Ptr) and eq(eng, x, tgt.off, Lin(0))
            res.ob(ok, w, "buffer", "messages are encoded at the start of the parser's buffer")
            if ok:
                buffers.add((tgt.reg, size))
            for y, kk in split(eng, x, es, (ST["SUCCESS"],)):
                ok = (v is None) == (kk is None) and (kk is None or eq(eng, y, eng.as_lin(y, v), Lin(ST["SUCCESS"])))
                res.ob(ok, w, "verdict", "a message is delivered exactly when it could be encoded", "" if ok else str(v))
                if kk is not None and v is not None:
                    g = method(prog, "Parser", "GetInternalBuffer")
                    back = eng.analyse(g, THIS, y, [])
                    ok = len(back) == 1 and isinstance(back[0][1], Ptr) and back[0][1].reg == tgt.reg and eq(eng, y, back[0][1].off, Lin(0))
                    res.ob(ok, where(g), "buffer", "the buffer reported is the one encoded into")
    res.floor("encodings_judged", n, 3)
    sizes(prog, res, eng, buffers, w)


def rest(prog, res):
    # the database reaches every stage
    f = method(prog, "Parser", "LoadJsonDb")
    eng = ParserEngine(prog)
    null = eng.named("dbnull", 0, 1)
    st = State()
    byref = eng.T(f["params"][0]["t"])["k"] == "ref"
    st.store[("dbarg", "#p") if byref else ("L:" + f["params"][0]["id"], "top", "#p")] = Ptr(("db",), Lin(0), null)
    comps = {("this", "f:" + x["id"]): x["n"] for r in prog.recs.values() if base(r.get("q")) == "Parser" for x in r["f"]
             if base(eng.strip(x["t"]).get("q")) in ("HeaderDecoder", "MessageDecoder", "Encoder", "RangeDecompressor", "RxConfigHandler")}
    n = 0
    for s, _ in eng.analyse(f, THIS, st, [Obj(("dbarg",)) if byref else None]):
        if not eng.feasible(s):
            continue
        ev = [e for e in (s.store.get(G) or Log(())).e if e[0] == "db"]
        for x, k in split(eng, s, null, (0, 1)):
            n += 1
            if k == 1:
                res.ob(not ev, where(f), "database", "no database: nothing is loaded", str(ev)[:100])
                continue
            got = {e[1] for e in ev if e[2] == ("db",)}
            for loc, name in sorted(comps.items()):
                res.ob(loc in got, where(f), "database", "every stage gets the database the parser is given", "" if loc in got else name + str(ev)[:90])
            inc = set()
            for e in (x.store.get(G) or Log(())).e:
                if e[0] == "include":
                    a = [eng.as_lin(x, q) for q in e[3]]
                    ok = len(e[1]) == 2 and e[1][:1] == THIS and e[2] == "IncludeMessageId" and all(q.is_const() for q in a)
                    res.ob(ok, where(f), "database", "which messages are compressed ranges is told once and for all", str(e)[:200])
                    if ok:
                        inc.add(tuple(int(q.c) for q in a))
            fmts = enum_values(prog, "HEADER_FORMAT")
            srcs = enum_values(prog, "MEASUREMENT_SOURCE")
            ids = range_ids(prog)
            want = {(i, fmts["ALL"], srcs[m]) for i in ids for m in ("PRIMARY", "SECONDARY")}
            res.ob(inc == want, where(f), "database", "compressed ranges of both antennas are recognised in every format, and nothing else", "" if inc == want else "missing %s, extra %s" % (sorted(want - inc)[:3], sorted(inc - want)[:3]))
    res.floor("database_stages", len(comps), 5)
    res.floor("database_cases", n, 2)
    # flushing
    f = method(prog, "Parser", "Flush")
    eng = ParserEngine(prog)
    p = Ptr(("out",), Lin(0), eng.named("outnull", 0, 1))
    size = eng.named("outsize", 0, 2 ** 32 - 1)
    for s, v in eng.analyse(f, THIS, State(), [p, Num(size)]):
        ev = list((s.store.get(G) or Log(())).e)
        fl = [e for e in ev if e[0] == "flush"]
        ok = len(fl) == 1 and isinstance(fl[0][2], Ptr) and fl[0][2].reg == ("out",) and fl[0][3] == size and eng.as_lin(s, v) == fl[0][1]
        res.ob(ok, where(f), "flush", "flushing hands over what the framer held and reports how much")
        res.ob(bool([e for e in ev if e[0] == "reset"]), where(f), "flush", "flushing forgets the reference observations")
    for name, n in (("Write", 2), ("GetAvailableSpace", 0)):
        f = method(prog, "Parser", name)
        eng = ParserEngine(prog)
        a = [Ptr(("in",), Lin(0), Lin(0)), Num(eng.named("insize", 0, 2 ** 40))][:n]
        for s, v in eng.analyse(f, THIS, State(), a):
            ev = [e for e in (s.store.get(G) or Log(())).e if e[0] == name]
            ok = len(ev) == 1 and list(ev[0][2]) == a and eng.as_lin(s, v) == eng.as_lin(s, ev[0][3])
            res.ob(ok, where(f), "input", "input goes to the framer as it is (%s)" % name)


def fileparser(prog, res):
    fs = [f for f in prog.funs.values() if base(f["decl"].get("cls")) in ("FileParserBase", "FileParser") and f["decl"]["n"] in ("Read", "ReadIntermediate")]
    n = 0
    for f in fs:
        eng = ParserEngine(prog)
        ST = eng.ST
        w = where(f)
        inner = method(prog, "Parser", f["decl"]["n"])

        def low(st, fr, e, d, obj, argv):
            s = st
            ls = []
            for i, p in enumerate(d["p"]):
                t = eng.T(p)
                if t["k"] == "ref":
                    l = eng.refloc(st, d, argv, i)
                    ls.append(l)
                    s = eng.changed(s, l)
            v = eng.status("parsed")
            return [(eng.event(s, "read", v, tuple(ls), models.arglin(eng, d, st, argv, len(argv) - 1)), Num(v))]

        def stream(st, fr, e, d, obj, argv):
            v = eng.fresh("more", 0, 1)
            return [(eng.event(st, "stream", v), Num(v))]
        eng.lowest = {inner["id"]: low}
        for g in prog.funs.values():
            if base(g["decl"].get("cls")) in ("FileParserBase", "FileParser") and g["decl"]["n"] == "ReadStream":
                eng.lowest[g["id"]] = stream
        argl = [("arg%d" % i,) for i in range(len(f["params"]))]
        exits = eng.analyse(f, THIS, State(), [Ptr(a) for a in argl])
        res.merge_engine(eng)
        for s, v in exits + [(s, None) for s in eng.again]:
            if not eng.feasible(s):
                continue
            ev = list((s.store.get(G) or Log(())).e)
            ok = bool(ev) and ev[0][0] == "read" and ev[0][2] == tuple(argl)
            res.ob(ok, w, "file", "every round starts by asking the parser, for what the caller gets", str(ev[:1])[:150])
            if not ok:
                continue
            _, rs, _, last = ev.pop(0)
            for x, k in split(eng, s, rs, (ST["INCOMPLETE"], ST["BUFFER_EMPTY"])):
                n += 1
                res.ob(eq(eng, x, last, Lin(0)), w, "file", "an incomplete message is not decoded while the stream may go on")
                if k is None:
                    ok = not ev and v is not None and eq(eng, x, eng.as_lin(x, v), rs)
                    res.ob(ok, w, "file", "what the parser reports is reported as it is", "" if ok else "%s" % (v,))
                    continue
                ok = bool(ev) and ev[0][0] == "stream"
                res.ob(ok, w, "file", "when the parser needs more bytes the stream is read")
                if not ok:
                    continue
                for y, more in split(eng, x, ev[0][1], (0,)):
                    if more is None:
                        res.ob(v is None and len(ev) == 1, w, "file", "bytes read from the stream are parsed", "" if v is None else str(v))
                        continue
                    ok = v is not None and len(ev) == 2 and ev[1][0] == "read" and ev[1][2] == tuple(argl) and eq(eng, y, ev[1][3], Lin(1))
                    res.ob(ok, w, "file", "at the end of the stream an incomplete message is decoded once", "" if ok else "%s %s" % (v, ev[1:]))
                    if not ok:
                        continue
                    for z, kk in split(eng, y, ev[1][1], (ST["SUCCESS"],)):
                        r = eng.as_lin(z, v)
                        ok = eq(eng, z, r, Lin(ST["SUCCESS"])) if kk is not None else eq(eng, z, r, Lin(ST["STREAM_EMPTY"])) or eq(eng, z, r, ev[1][1])
                        res.ob(ok, w, "file", "the end of the stream is reported once nothing is left", "" if ok else str(v))
    streams(prog, res)
    res.floor("file_reads", len(fs), 2)
    res.floor("file_cases", n, 8)


def streams(prog, res):
    sf = ["f:" + x["id"] for r in prog.recs.values() if base(r.get("q")) == "FileParserBase" for x in r["f"] if "istream" in str(prog.types[x["t"]])]
    if len(set(sf)) != 1:
        raise AnalysisError("input stream of the file parser: %d members" % len(set(sf)))
    SF = THIS + (sf[0],)

    def fn(name):
        fs = [g for g in prog.funs.values() if base(g["decl"].get("cls")) == "FileParserBase" and g["decl"]["n"] == name]
        if not fs:
            raise AnalysisError("no FileParserBase::" + name)
        return fs[0]

    def members():
        eng = ParserEngine(prog)
        st = State()
        null = eng.named("streamnull", 0, 1)
        st.store[SF + ("#p",)] = Ptr(("stream",), Lin(0), null)
        return eng, st, null

    def evs(s):
        return [e for e in (s.store.get(G) or Log(())).e]
    # taking bytes from the stream
    f = fn("ReadStream")
    w = where(f)
    eng, st, null = members()
    n = 0
    space = eng.named("space", 0, 2 ** 40)

    old = eng.stage

    def stage(st_, fr, e, d, obj, argv, c, nm):
        if nm == "GetAvailableSpace":
            return [(eng.event(st_, nm, obj), Num(space))]
        if nm == "Write":
            a = tuple(models.argval(eng, d, st_, argv, i) for i in range(len(argv)))
            v = eng.fresh("written", 0, 2 ** 40)
            return [(eng.event(st_, nm, obj, a, v), Num(v))]
        return old(st_, fr, e, d, obj, argv, c, nm)
    eng.stage = stage
    exits = eng.analyse(f, THIS, st, [])
    res.merge_engine(eng)
    for s, v in exits:
        if not eng.feasible(s):
            continue
        ev = [e for e in evs(s) if e[0] in ("sread", "Write")]
        for x, k in split(eng, s, null, (1, 0)):
            n += 1
            if k == 1:
                res.ob(not ev and eq(eng, x, eng.as_lin(x, v), Lin(0)), w, "stream", "without a stream nothing is read and none is touched", str([e[0] for e in ev]))
                continue
            rd = [e for e in ev if e[0] == "sread"]
            ok = len(rd) == 1 and rd[0][1] == ("stream",) and isinstance(rd[0][2], Ptr)
            res.ob(ok, w, "stream", "bytes are read from the stream once")
            if not ok:
                continue
            _, _, p, l, got = rd[0]
            res.ob(entails_le(x.facts, l - space, eng.rg), w, "stream", "no more is read from the stream than the framer can take")
            cap = room(prog, eng, x, p)
            res.ob(cap is not None and entails_le(x.facts, l - cap, eng.rg), w, "stream", "what is read from the stream fits where it is put", str((p, cap)))
            wr = [e for e in ev if e[0] == "Write"]
            for y, zero in split(eng, x, got, (0,)):
                r = eng.as_lin(y, v)
                if zero == 0:
                    res.ob(eq(eng, y, r, Lin(0)), w, "stream", "reading nothing is reported as the end of the stream")
                    continue
                ok = len(wr) == 1 and isinstance(wr[0][2][0], Ptr) and wr[0][2][0].reg == p.reg and eq(eng, y, wr[0][2][0].off, p.off) and eq(eng, y, eng.as_lin(y, wr[0][2][1]), got)
                res.ob(ok, w, "stream", "exactly the bytes read are given to the parser")
                if ok:
                    for z, all_ in split(eng, y, wr[0][3] - got, (0,)):
                        res.ob(eq(eng, z, eng.as_lin(z, v), Lin(1 if all_ == 0 else 0)), w, "stream", "reading succeeds exactly when all bytes were taken")
    res.floor("stream_cases", n, 3)

    def fresh_start(x, w, loc):
        kinds = [e[0] for e in evs(x)]
        res.ob("flush" in kinds, w, "stream", "bytes held from before are dropped")
        res.ob("ResetMessageCounts" in kinds, w, "stream", "the counts start again at zero")
        ok = "sclear" in kinds and "sseekg" in kinds and kinds.index("sclear") < kinds.index("sseekg")
        res.ob(ok, w, "stream", "the stream starts from its beginning again, whatever state it was in")
        if ok:
            e = [y for y in evs(x) if y[0] == "sseekg"][-1]
            res.ob(e[1] == loc and eq(eng, x, eng.as_lin(x, e[2][0]), Lin(0)) and (len(e[2]) < 2 or eq(eng, x, eng.as_lin(x, e[2][1]), Lin(0))), w, "stream", "the stream's beginning is position zero")
    f = fn("Reset")
    w = where(f)
    eng, st, null = members()
    for s, v in eng.analyse(f, THIS, st, []):
        for x, k in split(eng, s, null, (1, 0)):
            if k == 1:
                res.ob(not [e for e in evs(x) if e[0][:1] == "s" and e[0] not in ("status",)], w, "stream", "without a stream none is touched")
                res.ob("ResetMessageCounts" in [e[0] for e in evs(x)], w, "stream", "the counts start again at zero")
            else:
                fresh_start(x, w, ("stream",))
    f = fn("SetStream")
    w = where(f)
    eng, st, null = members()
    new = eng.named("newnull", 0, 1)
    prm = f["params"][0]
    byref = eng.T(prm["t"])["k"] == "ref"
    st.store[("newarg", "#p") if byref else ("L:" + prm["id"], "top", "#p")] = Ptr(("newstream",), Lin(0), new)
    n = 0
    for s, v in eng.analyse(f, THIS, st, [Ptr(("newarg",)) if byref else None]):
        if not eng.feasible(s):
            continue
        held = models.smart_ptr(eng, s, SF)
        for x, k in split(eng, s, new, (1, 0)):
            eofs = [e for e in evs(x) if e[0] == "seof"]
            r = eng.as_lin(x, v)
            for y, ended in split(eng, x, eng.as_lin(x, eofs[0][3]) if eofs else Lin(0), (0,)):
                n += 1
                if k == 1 or ended is None:
                    res.ob(eq(eng, y, r, Lin(0)) and held.reg == ("stream",), w, "stream", "a stream that cannot be read is refused, the old one stays")
                else:
                    res.ob(eq(eng, y, r, Lin(1)) and held.reg == ("newstream",), w, "stream", "the stream accepted is the one read from then on")
                    fresh_start(y, w, ("newstream",))
    res.floor("stream_sets", n, 3)


# the logs of compressed range measurements in the receiver's documentation
def range_ids(prog):
    return (140, 1273, 1734, 2050, 2537)


def room(prog, eng, st, p):
    """Bytes behind p in the object it points into, if that is known."""
    for f, t in ((k, v) for k, v in LOCALS(prog, eng).items()):
        if any(isinstance(c, str) and c == "L:" + f for c in p.reg):
            return Lin(t) - p.off
    return None


def LOCALS(prog, eng):
    out = {}
    for f in prog.funs.values():
        if base(f["decl"].get("cls")) == "FileParserBase" and f.get("body"):
            def visit(x):
                if x.get("k") == "Decl":
                    for v in x["v"]:
                        z = eng.sizeof(eng.strip(v["t"])) if "t" in v else None
                        if z:
                            out[v["id"]] = z
            walk(f["body"], visit)
    return out
