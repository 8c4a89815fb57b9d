"""The framer manager: bounded, conserving, and never leaving a framer in the middle of bytes that are gone."""
from ..lin import Lin, entails_eq, entails_le
from ..engine import State, Num, Ptr, Obj, NULLREG, VOID
from ..program import AnalysisError
from ..report import where
from ..stream import StreamEngine, SZ, BASE, LOG, RST1, RST2
from ..mem import Log
from .framer import run_one, enum_values, delivered, copies, OUT

PERMUTE = ("rotate", "swap", "iter_swap", "move", "move_backward", "swap_ranges", "reverse", "stable_partition", "partition", "rotate_copy")
METAP = ("metap",)


class ManagerEngine(StreamEngine):
    """Framers are represented by the contract C03/C04 establish for them."""

    def on_call(self, st, fr, e, d, obj, argv):
        if (d.get("cls") or "").endswith("FramerBase") or d["n"] in ("GetFrame", "InitAttributes", "ResetState") and self.derives(d.get("cls")):
            if d["n"] == "GetFrame" and len(argv) == 4:
                return self.look(e, d, st, fr, argv)
            if d["n"] == "InitAttributes":
                return [(self.write(st, RST1, Num(self.num(st, RST1) + 1)), VOID)]
            if d["n"] == "ResetState":
                return [(self.write(st, RST2, Num(self.num(st, RST2) + 1)), VOID)]
            if d["n"] == "HandleUnknownBytes":
                return None
        return super().on_call(st, fr, e, d, obj, argv)

    def call_unknown(self, e, d, st, fr, obj, argv):
        """Reordering the registry moves the owners, not the objects they own."""
        out = super().call_unknown(e, d, st, fr, obj, argv)
        if d["q"].startswith("std::") and d["n"] in PERMUTE:
            kept = {k: v for k, v in st.store.items() if any(isinstance(c, str) and c[:1] == "*" and (c == "*" or c[1:].isdigit()) for c in k)}
            out = [(State({**kept, **s.store}, s.facts, s.epochs), v) for s, v in out]
        return out

    def derives(self, cls):
        return bool(cls) and "Framer" in cls and "FramerManager" not in cls

    def look(self, e, d, st, fr, argv):
        from .. import models
        self.looks.add(e.get("l"))
        mo = models.arglin(self, d, st, argv, 3)
        ok = entails_eq(st.facts, mo - 1, self.rg)
        if not self.quiet:
            self.oblige(st, ok, "look-ahead", "the framers are only asked to look ahead, so that none consumes bytes the others still need", e, fr)
        n = models.arglin(self, d, st, argv, 1)
        p = models.argval(self, d, st, argv, 0)
        if not self.quiet and isinstance(p, Ptr):
            self.access(st, p, n, "w", e, fr)
        m = argv[2][1]
        loc = m.loc if isinstance(m, Obj) else m.reg if isinstance(m, Ptr) else m
        out = []
        for kind in sorted(self.ST):
            L = self.fresh("length", 0, 2 ** 32 - 1)
            F = self.fresh("format", 0, 255)
            s = self.write(st, loc + (self.fl,), Num(L))
            s = self.write(s, loc + (self.ff,), Num(F))
            if kind in ("SUCCESS", "UNKNOWN"):
                s = State(s.store, s.facts.with_le(L - self.num(s, SZ)), s.epochs)
                if not self.feasible(s):
                    continue
            out.append((s, Num(self.ST[kind])))
        return out

    def on_erase(self, st, m, n, node, fr):
        for g in (RST1, RST2):
            st = self.write(st, g, Num(0))
        return st


def run(prog, res, tier="quick"):
    fs = [f for f in prog.funs.values() if f["decl"]["n"] == "GetFrame" and f["decl"].get("cls", "").endswith("FramerManager")]
    if len(fs) != 1:
        raise AnalysisError("FramerManager::GetFrame not found")
    f = fs[0]
    w = where(f)
    eng = ManagerEngine(prog)
    eng.looks = set()
    eng.ST = enum_values(prog, "STATUS")
    eng.named("FBS", 0, 2 ** 32 - 1)
    mb = [r for r in prog.recs.values() if r.get("n") == "MetaDataBase"][0]
    meta = {x["n"]: "f:" + x["id"] for x in mb["f"]}
    eng.fl, eng.ff = meta["uiLength"], meta["eFormat"]
    st = eng.init_state()
    st.store[OUT + ("#bytes",)] = Num(eng.fbs)
    st.store[RST1] = st.store[RST2] = Num(0)
    report = next(iter(flag(prog, f["decl"]["cls"])))
    # at least one framer is registered
    sizes = nonempty(eng, prog, f["decl"]["cls"], st)
    if len(sizes) != 1:
        raise AnalysisError("the manager is expected to keep one list of framers")
    size = sizes[0][1]
    for l, v in sizes:
        st = State(st.store, st.facts.with_le(Lin(1) - v), st.epochs)
    exits = run_one(eng, f, [st], [Ptr(OUT, Lin(0), eng.named("outnull", 0, 1)), Num(eng.fbs), Ptr(METAP)])
    res.merge_engine(eng)

    class M:
        pass
    m = M()
    m.eng = eng
    cnt = 0
    rep = eng.as_lin(State(), eng.load(State(), report, {"k": "bool", "w": 1, "u": 1, "s": "bool"}))
    for s0, v in exits:
        l = eng.as_lin(s0, v)
        for name, k in eng.ST.items():
            for s in ([s0] if l.is_const() and l.c == k else [] if l.is_const() else eng.assume(s0, ("eq", l - k))):
                cnt += 1
                used = eng.num(s, BASE)
                if name not in ("SUCCESS", "UNKNOWN"):
                    cs = copies(m, s)
                    ok = entails_eq(s.facts, used, eng.rg) and cs is not None and not [c for c in cs if not eng.proves_le(s, c[2])]
                    res.ob(ok, w, "nothing-consumed", "a call that reports neither a frame nor unknown bytes consumes and delivers nothing", "" if ok else "status %s consumes %r" % (name, used))
                    continue
                mp = s.store.get(METAP)
                L = eng.num(s, mp.reg + (eng.fl,)) if isinstance(mp, Ptr) else None
                if L is None and isinstance(mp, Ptr):
                    L = eng.as_lin(s, eng.load(s, mp.reg + (eng.fl,), {"k": "int", "u": 1, "w": 32, "s": "unsigned int"}))
                ok = L is not None and entails_eq(s.facts, used - L, eng.rg)
                res.ob(ok, w, "consumed-is-reported", "exactly the reported bytes are consumed (%s)" % name, "" if ok else "reports %r, consumes %r" % (L, used))
                ok = all(entails_le(s.facts, size - eng.num(s, g), eng.rg) for g in (RST1, RST2)) or entails_eq(s.facts, used, eng.rg)
                res.ob(ok, w, "framers-reset", "once bytes are consumed every framer starts over from the bytes that are left (%s)" % name)
                if L is None:
                    continue
                if name == "SUCCESS":
                    ok = delivered(m, s, Lin(0), L)
                    res.ob(ok, w, "frame-delivered", "a frame is delivered whole and unchanged", "" if ok else "copies %r" % (copies(m, s),))
                else:
                    for x in eng.assume(s, ("ne", rep)):
                        for y in eng.assume(x, ("eq", Lin.sym("outnull"))):
                            ok = delivered(m, y, Lin(0), L)
                            res.ob(ok, w, "unknown-delivered", "unknown bytes are handed over unchanged when reporting is on", "" if ok else "copies %r" % (copies(m, y),))
                    for x in eng.assume(s, ("eq", rep)):
                        ok = copies(m, x) == []
                        res.ob(ok, w, "unknown-suppressed", "unknown bytes are not handed over when reporting is off")
    res.floor("exits_judged", cnt, 6)
    res.floor("look_ahead_calls", len(eng.looks), 1)
    reset_loops(prog, res, f["decl"]["cls"])


def flag(prog, cls):
    """The member SetReportUnknownBytes sets."""
    fs = [f for f in prog.funs.values() if f["decl"]["n"] == "SetReportUnknownBytes" and f["decl"].get("cls") == cls]
    if not fs:
        raise AnalysisError("FramerManager::SetReportUnknownBytes not found")
    e = StreamEngine(prog)
    e.writes = [set()]
    w = e.writes[0]
    e.analyse(fs[0], ("this",), e.init_state(), [Num(e.named("b", 0, 1))])
    w = {l for l in w if l[:1] == ("this",)}
    if len(w) != 1:
        raise AnalysisError("FramerManager::SetReportUnknownBytes does not set exactly one flag")
    return w


def nonempty(eng, prog, cls, st):
    """Sizes of the registry vectors."""
    from .. import models
    rec = [r for r in prog.recs.values() if r.get("q") == cls][0]
    out = []
    for x in rec["f"]:
        t = prog.types[x["t"]]
        if t.get("q") == "std::vector":
            n = models.cont_size(eng, st, ("this", "f:" + x["id"]), t)
            if n is not None:
                out.append((x["n"], n))
    return out


def reset_loops(prog, res, cls):
    """A loop that starts the framers over visits all of them."""
    n = 0
    for f in prog.funs.values():
        if f["decl"].get("cls") != cls:
            continue
        for l in find_loops(f["body"]):
            resets, early = [], []
            todo = [l["b"]]
            while todo:
                x = todo.pop()
                if isinstance(x, list):
                    todo += x
                elif isinstance(x, dict):
                    k = x.get("k")
                    if k in ("Break", "Return", "Goto"):
                        early.append(x)
                    if k == "Call" and isinstance(x.get("fn"), str) and (prog.fdecls.get(x["fn"]) or {}).get("n") in ("InitAttributes", "ResetState"):
                        resets.append(x)
                    todo += [y for y in x.values() if isinstance(y, (dict, list))]
            if resets and not any(i is not l and find_in(l, i) for i in find_loops(f["body"]) if find_in(i, resets[0])):
                n += 1
                res.ob(not early, where(f, l), "reset-visits-all", "the loop that starts the framers over visits all of them")
    res.coverage["reset_loops"] = n


def find_in(x, y):
    todo = [x]
    while todo:
        z = todo.pop()
        if z is y:
            return True
        if isinstance(z, list):
            todo += z
        elif isinstance(z, dict):
            todo += [w for w in z.values() if isinstance(w, (dict, list))]
    return False


def find_loops(x):
    out, todo = [], [x]
    while todo:
        y = todo.pop()
        if isinstance(y, list):
            todo += y
        elif isinstance(y, dict):
            if y.get("k") in ("For", "RFor", "While", "Do"):
                out.append(y)
            todo += [z for z in y.values() if isinstance(z, (dict, list))]
    return out
