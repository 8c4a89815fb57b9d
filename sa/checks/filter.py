"""The message filter: what it lets through is exactly what the criteria currently set say."""
import itertools
from ..lin import Lin, entails_eq
from ..engine import State, Num, Bool, Ptr, Obj, Opq, FnV, VOID, neg
from ..program import AnalysisError
from ..report import where
from ..sets import SetEngine
from .. import models
from .framer import enum_values

THIS = ("this",)
META = ("meta",)


class FilterEngine(SetEngine):
    preds = {}          # function id -> symbol standing for its verdict (while the dispatch is judged)

    def on_call(self, st, fr, e, d, obj, argv):
        if self.preds and d["id"] in self.preds:
            return [(st, Num(self.preds[d["id"]]))]
        if "spdlog" in d["q"] or d["n"] in ("GetBaseLoggerManager", "RegisterLogger"):
            return [(st, models.unk(self, d, st))]
        return super().on_call(st, fr, e, d, obj, argv)

    def arith(self, st, op, a, b, t, node):
        if op in ("%", "/") and node is not None:
            lb = self.as_lin(st, b)
            ok = not self.assume(st, ("eq", lb)) if lb.t else lb.c != 0
            self.oblige(st, ok, "division", "no division by zero", node, self.cur)
        return super().arith(st, op, a, b, t, node)

    cur = None

    def on_enter(self, st, fr):
        self.cur = fr
        return super().on_enter(st, fr)


class Model:
    """Fields of the filter, by the role the public setters give them."""

    def __init__(self, prog):
        self.prog = prog
        self.cls = [r for r in prog.recs.values() if r.get("n") == "Filter" and "f" in r and any(x["n"] == "DoFiltering" for x in (prog.fdecls.get(m, {"n": ""}) for m in r.get("m", [])))]
        if len(self.cls) != 1:
            raise AnalysisError("class Filter not found")
        self.q = self.cls[0]["q"]
        self.ms = {}
        for f in prog.funs.values():
            if f["decl"].get("cls") == self.q and not f["decl"].get("tmpl"):
                self.ms.setdefault(f["decl"]["n"], []).append(f)
        self.fn = None
        self.lists = {}
        self.scal = {}
        for x in self.cls[0]["f"]:
            t = prog.types[x["t"]]
            loc = THIS + ("f:" + x["id"],)
            if t.get("q") == "std::vector":
                et = t["ta"][0]["t"]
                k = prog.types[et]
                if k["k"] in ("memptr", "mptr", "other") and "(" in k["s"] or "::*" in k["s"]:
                    if self.fn is not None:
                        raise AnalysisError("two lists of predicates")
                    self.fn = (loc, et)
                elif k["k"] == "enum":
                    self.lists["status"] = (loc, et)
                elif k.get("q") == "std::tuple":
                    k0 = prog.types[k["ta"][0]["t"]]
                    self.lists["name" if k0.get("q", "").startswith("std::basic_string") else "id"] = (loc, et)
                else:
                    raise AnalysisError("list of unknown kind %s" % x["n"])
            elif t["k"] in ("int", "bool", "enum"):
                self.scal[loc] = t
        if self.fn is None or len(self.lists) != 3:
            raise AnalysisError("the lists of the filter are not recognised")
        mb = {}
        for n in ("MetaDataBase", "MetaDataStruct"):
            for r in prog.recs.values():
                if r.get("n") == n and "f" in r:
                    for x in r["f"]:
                        mb[x["n"]] = (META + ("f:" + x["id"],), x["t"])
        self.meta = mb
        self.role = {}
        for n in ("InvertTimeFilter", "InvertDecimationFilter", "InvertTimeStatusFilter", "InvertMessageIdFilter", "InvertMessageNameFilter",
                  "IncludeNmeaMessages", "IncludeResponses", "IncludeNonResponses"):
            w = [k for k, v in self.effect(n).items()]
            if len(w) != 1:
                raise AnalysisError("%s is expected to set one member" % n)
            self.role[n] = w[0]
        for n, tag in (("SetIncludeLowerTimeBound", "lower"), ("SetIncludeUpperTimeBound", "upper")):
            w = self.effect(n)
            fl = [k for k in w if self.scal[k]["k"] == "bool"]
            wk = [k for k, v in w.items() if isinstance(v, Num) and v.l == self.arg[0]]
            ms = [k for k in w if k not in fl and k not in wk]
            if len(fl) != 1 or len(wk) != 1 or len(ms) != 1:
                raise AnalysisError("%s: the members it sets are not recognised" % n)
            self.role[tag + "flag"], self.role[tag + "week"], self.role[tag + "ms"] = fl[0], wk[0], ms[0]
        w = self.effect("SetIncludeDecimationMs")
        fl = [k for k in w if self.scal[k]["k"] == "bool"]
        pd = [k for k in w if k not in fl]
        if len(pd) != 1 or len(fl) > 1:
            raise AnalysisError("SetIncludeDecimationMs: the members it sets are not recognised")
        self.role["period"] = pd[0]
        self.role["decimate"] = fl[0] if fl else None
        # the predicate each criterion registers
        self.pred = {}
        for crit, n in (("time", "SetIncludeLowerTimeBound"), ("decimation", "SetIncludeDecimationMs"), ("status", "IncludeTimeStatus"), ("id", "IncludeMessageId"),
                        ("name", "IncludeMessageName")):
            for f in self.ms[n]:
                eng, outs = self.exec(f, ())
                for s, _ in outs:
                    for v in eng.content(s, self.fn[0]):
                        self.pred.setdefault(crit, set()).add(v.fn)
        for c, fs in self.pred.items():
            if len(fs) != 1:
                raise AnalysisError("criterion %s does not register exactly one predicate" % c)
        self.pred = {c: next(iter(fs)) for c, fs in self.pred.items()}
        if len(set(self.pred.values())) != 5:
            raise AnalysisError("criteria share predicates")

    # ---------------------------------------------------------------- running one method
    def engine(self):
        eng = FilterEngine(self.prog)
        fmt = enum_values(self.prog, "HEADER_FORMAT")
        eng.consts = (fmt["ALL"],)
        eng.fins[self.fn[0]] = self.fn[1]
        for loc, et in self.lists.values():
            eng.lists[loc] = et
        return eng

    def entry(self, eng, registered):
        st = State({}, None, {}) if False else eng_state(eng)
        st = eng.setcontent(st, self.fn[0], [FnV(f) for f in registered])
        for loc, _ in self.lists.values():
            models.size_of(eng, st, loc)
        for loc, t in self.scal.items():
            eng.load(st, loc, t)
        return st

    def exec(self, f, registered, st=None, eng=None, argv=None):
        eng = eng or self.engine()
        if st is None:
            st = self.entry(eng, registered)
        if argv is None:
            st, argv = self.params(eng, st, f)
        self.argv = argv
        return eng, eng.analyse(f, THIS, st, argv)

    def params(self, eng, st, f):
        argv = []
        self.arg = []
        st = State(dict(st.store), st.facts, dict(st.epochs))
        eng.bulk = ()
        for i, p in enumerate(f["params"]):
            t = self.prog.types[p["t"]]
            ref = t["k"] == "ref"
            to = self.prog.types[t["to"]] if ref else t
            loc = ("A:%d" % i,)
            if to.get("q") == "std::vector":
                here = loc if ref else ("L:" + p["id"], "top")
                eng.lists[here] = to["ta"][0]["t"]
                eng.bulk += (here,)
                models.size_of(eng, st, here)
                argv.append(Ptr(loc) if ref else None)
                self.arg.append(here)
            elif to["k"] == "rec":
                here = loc if ref else ("L:" + p["id"], "top")
                if to.get("q", "").startswith("std::basic_string"):
                    self.arg.append(eng.cid(st, here))
                else:
                    self.arg.append(here)
                argv.append(Ptr(loc) if ref else None)
            elif eng.is_num(to):
                lo, hi = eng.range_of(to)
                s = eng.named("arg%d" % i, lo, hi)
                if ref:
                    st.store[loc] = Num(s)
                argv.append(Ptr(loc) if ref else Num(s))
                self.arg.append(s)
            else:
                o = Opq("arg%d" % i)
                if ref:
                    st.store[loc] = o
                argv.append(Ptr(loc) if ref else o)
                self.arg.append(o)
        return st, argv

    def effect(self, name):
        """Scalar members the method changes, with their new values."""
        out = {}
        for f in self.ms.get(name, []):
            eng, outs = self.exec(f, ())
            for s, _ in outs:
                for loc, t in self.scal.items():
                    v = eng.load(s, loc, t)
                    if v != eng.load(eng_state(eng), loc, t):
                        out[loc] = v
        return out


def eng_state(eng):
    s = State()
    return State(dict(s.store), s.facts, dict(s.epochs))


def fld(m, eng, st, role):
    loc = m.role[role]
    return eng.as_lin(st, eng.load(st, loc, m.scal[loc]))


def meta(m, eng, st, name):
    loc, t = m.meta[name]
    return eng.load(st, loc, m.prog.types[t])


def cases(eng, st, f):
    """[(state, bool)] for a condition."""
    return [(s, True) for s in eng.assume(st, f)] + [(s, False) for s in eng.assume(st, neg(f))]


def nz(l):
    return ("ne", l) if l.t else ("k", 1 if l.c else 0)


def AND(*fs):
    r = fs[0]
    for f in fs[1:]:
        r = ("and", r, f)
    return r


def OR(*fs):
    r = fs[0]
    for f in fs[1:]:
        r = ("or", r, f)
    return r


# -------------------------------------------------------------------------------------------- what each criterion means
def spec_time(m, eng, st):
    wk = eng.as_lin(st, meta(m, eng, st, "usWeek"))
    ms = msec(m, eng, st)
    inv, lf, uf = (nz(fld(m, eng, st, x)) for x in ("InvertTimeFilter", "lowerflag", "upperflag"))
    lw, lm, uw, um = (fld(m, eng, st, x) for x in ("lowerweek", "lowerms", "upperweek", "upperms"))
    ge = OR(("le", lw - wk + 1), AND(("eq", wk - lw), ("le", lm - ms)))        # at or above the lower bound
    le = OR(("le", wk - uw + 1), AND(("eq", wk - uw), ("le", ms - um)))        # at or below the upper bound
    out = []
    for s, l in cases(eng, st, lf):
        for s2, u in cases(eng, s, uf):
            if not l and not u:
                out.append((s2, True))
                continue
            w = AND(ge, le) if l and u else ge if l else le
            for s3, inside in cases(eng, s2, w):
                for s4, i in cases(eng, s3, inv):
                    out.append((s4, inside != i))
    return out


def msec(m, eng, st):
    return conv(eng, meta(m, eng, st, "dMilliseconds"), m.scal[m.role["lowerms"]])


def conv(eng, v, t):
    lo, hi = eng.range_of(t)
    return eng.named("ftoi(%s,%s)" % (v.s, t["s"]), lo, hi)


def spec_list(m, eng, st, lst, inv, keys):
    loc = m.lists[lst][0]
    n = models.size_of(eng, st, loc)
    out = []
    for s, empty in cases(eng, st, ("eq", n)):
        if empty:
            out.append((s, True))
            continue
        cur = [(s, False)]
        for key in keys:
            nxt = []
            for s2, hit in cur:
                nxt += [(s3, hit or isin) for s3, isin in eng.member(s2, loc, key)]
            cur = nxt
        for s2, hit in cur:
            for s3, i in cases(eng, s2, nz(fld(m, eng, s2, inv))):
                out.append((s3, hit != i))
    return out


def spec_status(m, eng, st):
    return spec_list(m, eng, st, "status", "InvertTimeStatusFilter", [(eng.as_lin(st, meta(m, eng, st, "eTimeStatus")),)])


def spec_id(m, eng, st):
    i, f, s = (eng.as_lin(st, meta(m, eng, st, x)) for x in ("usMessageId", "eFormat", "ucSiblingId"))
    return spec_list(m, eng, st, "id", "InvertMessageIdFilter", [(i, Lin(eng.consts[0]), s), (i, f, s)])


def spec_name(m, eng, st):
    c = eng.cid(st, m.meta["messageName"][0])
    f, s = (eng.as_lin(st, meta(m, eng, st, x)) for x in ("eFormat", "ucSiblingId"))
    return spec_list(m, eng, st, "name", "InvertMessageNameFilter", [(c, Lin(eng.consts[0]), s), (c, f, s)])


def spec_decimation(m, eng, st):
    ms, p = msec(m, eng, st), fld(m, eng, st, "period")
    on = nz(fld(m, eng, st, "decimate")) if m.role["decimate"] else nz(p)
    out = []
    for s, a in cases(eng, st, on):
        for s2, pz in cases(eng, s, ("eq", p)):
            if not a or pz:
                out.append((s2, True))
                continue
            q = eng.__class__.__mro__[1].arith(eng, s2, "%", Num(ms), Num(p), {"k": "int", "u": 1, "w": 32, "s": "unsigned int"}, None)
            for s3, v in q:
                for s4, exact in cases(eng, s3, ("eq", eng.as_lin(s3, v))):
                    for s5, i in cases(eng, s4, nz(fld(m, eng, s4, "InvertDecimationFilter"))):
                        out.append((s5, exact != i))
    return out


SPEC = {"time": spec_time, "status": spec_status, "id": spec_id, "name": spec_name, "decimation": spec_decimation}
WHAT = {"time": "the time window", "status": "the time status list", "id": "the message id list", "name": "the message name list", "decimation": "the decimation period"}


def inactive(m, eng, st, crit):
    if crit == "time":
        return AND(("eq", fld(m, eng, st, "lowerflag")), ("eq", fld(m, eng, st, "upperflag")))
    if crit == "decimation":
        return ("eq", fld(m, eng, st, "decimate" if m.role["decimate"] else "period"))
    return ("eq", models.size_of(eng, st, m.lists[crit][0]))


def judge(res, m, eng, outs, spec, w, rule, what):
    n = 0
    for s0, v in outs:
        for s, got in cases(eng, s0, eng.truth(s0, v)):
            if not eng.feasible(s):
                continue
            for s2, want in spec(m, eng, s):
                if not eng.feasible(s2):
                    continue
                n += 1
                res.ob(got == want, w, rule, what, "" if got == want else "answers %s where %s is due; %s" % (got, want, witness(m, eng, s2)))
    return n


def witness(m, eng, st):
    return "conditions: " + "; ".join(str(x) for x in list(st.facts.les())[:6]) if callable(getattr(st.facts, "les", None)) else ""


def run(prog, res, tier="quick"):
    m = Model(prog)
    fmt = enum_values(prog, "HEADER_FORMAT")
    order = list(m.pred)
    # (a) each predicate means what its criterion says
    npred = 0
    for crit in order:
        f = prog.funs[m.pred[crit]]
        for sp in ("ALL", "other"):
            eng = m.engine()
            st = m.entry(eng, ())
            fl = eng.as_lin(st, meta(m, eng, st, "eFormat"))
            for s in eng.assume(st, ("eq", fl - fmt["ALL"]) if sp == "ALL" else ("ne", fl - fmt["ALL"])):
                outs = eng.analyse(f, THIS, s, [Ptr(META)])
                res.merge_engine(eng)
                npred += judge(res, m, eng, outs, SPEC[crit], where(f), "criterion", "a message passes exactly as %s says" % WHAT[crit])
                for s2, _ in outs:
                    unchanged(res, m, eng, s2, s, where(f), "evaluating a criterion changes no setting")
    res.floor("predicate_cases", npred, 30)
    # (b) the verdict is the conjunction of the switches and the criteria
    f = m.ms["DoFiltering"][0]
    nd = 0
    for k in range(6):
        for sub in itertools.combinations(order, k):
            eng = m.engine()
            st = m.entry(eng, [m.pred[c] for c in sub])
            eng.preds = {m.pred[c]: eng.named("verdict of " + c, 0, 1) for c in order}
            for c in order:
                if c not in sub:
                    st = State(st.store, st.facts.with_eq(eng.preds[m.pred[c]] - 1), st.epochs)
            outs = eng.analyse(f, THIS, st, [Ptr(META)])

            def spec(m, eng, st):
                out = []
                fm = eng.as_lin(st, meta(m, eng, st, "eFormat"))
                for s, unk in cases(eng, st, ("eq", fm - fmt["UNKNOWN"])):
                    if unk:
                        out.append((s, False))
                        continue
                    for s2, nmea in cases(eng, s, ("eq", fm - fmt["NMEA"])):
                        if nmea:
                            out += [(x, b) for x, b in cases(eng, s2, nz(fld(m, eng, s2, "IncludeNmeaMessages")))]
                            continue
                        resp = eng.as_lin(s2, meta(m, eng, s2, "bResponse"))
                        for s3, r in cases(eng, s2, nz(resp)):
                            for s4, inc in cases(eng, s3, nz(fld(m, eng, s3, "IncludeResponses" if r else "IncludeNonResponses"))):
                                if not inc:
                                    out.append((s4, False))
                                    continue
                                allof = AND(*[("ne", eng.preds[m.pred[c]]) for c in order])
                                out += cases(eng, s4, allof)
                return out
            nd += judge(res, m, eng, outs, spec, where(f), "verdict", "a message passes exactly when its kind is admitted and every criterion in force admits it")
            res.merge_engine(eng)
            for s2, _ in outs:
                unchanged(res, m, eng, s2, st, where(f), "evaluating the filter changes no setting")
    res.floor("verdict_cases", nd, 100)
    # (c) every public mutator does what it says and nothing else, and leaves every criterion in force registered
    contracts = table()
    nm = 0
    extra = [n for n, fs in m.ms.items() for f2 in fs if f2["decl"].get("acc") == "public" and not f2["decl"].get("const") and n not in contracts and not f2["decl"].get("ctor")
             and not f2["decl"].get("dtor") and not n.startswith(("~", "operator"))]
    if extra:
        raise AnalysisError("public methods without a contract: %s" % ", ".join(sorted(set(extra))))
    for name, c in contracts.items():
        fs = [x for x in m.ms.get(name, []) if x["decl"].get("acc") == "public"]
        if not fs:
            raise AnalysisError("Filter::%s not found" % name)
        for f in fs:
            for k in range(6):
                for sub in itertools.combinations(order, k):
                    nm += mutator(res, m, f, c, sub, order)
    res.floor("mutator_exits", nm, 28 * 32)
    ctor = [x for x in prog.funs.values() if x["decl"].get("cls") == m.q and x["decl"].get("ctor") and not x["params"]]
    if not ctor:
        raise AnalysisError("Filter has no default constructor")
    eng = m.engine()
    st = m.entry(eng, ())
    for loc, _ in m.lists.values():
        st = eng.mutate(st, loc, "clear", (), Lin(0))
    for x in m.cls[0]["f"]:
        loc = THIS + ("f:" + x["id"],)
        if loc in m.scal and loc in st.store:
            pass
    outs = eng.analyse(ctor[0], THIS, st, [])
    res.merge_engine(eng)
    for s, _ in outs:
        initial(res, m, eng, s, where(ctor[0]), "a new filter admits everything but NMEA sentences")
    res.floor("constructor_exits", len(outs), 1)


def unchanged(res, m, eng, s, s0, w, what, but=(), lists=()):
    for r, loc in m.role.items():
        if loc is None or r in but:
            continue
        a, b = eng.as_lin(s, eng.load(s, loc, m.scal[loc])), eng.as_lin(s0, eng.load(s0, loc, m.scal[loc]))
        ok = entails_eq(s.facts, a - b, eng.rg)
        if not ok and r.endswith(("week", "ms")):
            ok = not eng.assume(s, nz(fld(m, eng, s, r[:5] + "flag")))
        if not ok and r == "period" and m.role["decimate"]:
            ok = not eng.assume(s, nz(fld(m, eng, s, "decimate")))
        res.ob(ok, w, "frame", what, "" if ok else "%s changes to %r" % (r, a))
    for n, (loc, _) in m.lists.items():
        if n in lists:
            continue
        ok = eng.log(s, loc) == () and entails_eq(s.facts, models.size_of(eng, s, loc) - models.size_of(eng, s0, loc), eng.rg)
        res.ob(ok, w, "frame", what, "" if ok else "the %s list changes" % n)


def table():
    T = {}

    def flag(name):
        T[name] = {"set": {name: lambda m, eng: m.arg[0]}}
    for n in ("InvertTimeFilter", "InvertDecimationFilter", "InvertTimeStatusFilter", "InvertMessageIdFilter", "InvertMessageNameFilter", "IncludeNmeaMessages",
              "IncludeResponses", "IncludeNonResponses"):
        flag(n)

    def scaled(m, eng, role):
        o = m.arg[-1]
        t = m.scal[m.role[role]]
        return [conv(eng, Opq(x % o.s), t) for x in ("(%s*flt:1000)", "(flt:1000*%s)", "(%s*flt:1000.0)", "(flt:1000.0*%s)", "(%s*flt(N(1000)))", "(flt(N(1000))*%s)")]
    for tag, n in (("lower", "SetIncludeLowerTimeBound"), ("upper", "SetIncludeUpperTimeBound")):
        T[n] = {"set": {tag + "flag": lambda m, eng: Lin(1), tag + "week": lambda m, eng: m.arg[0], tag + "ms": lambda m, eng, tag=tag: scaled(m, eng, tag + "ms")}}
        T["Clear%sTimeBound" % tag.capitalize()] = {"set": {tag + "flag": lambda m, eng: Lin(0)}, "free": (tag + "week", tag + "ms")}
    T["ClearTimeBounds"] = {"set": {"lowerflag": lambda m, eng: Lin(0), "upperflag": lambda m, eng: Lin(0)}, "free": ("lowerweek", "lowerms", "upperweek", "upperms")}
    T["SetIncludeDecimation"] = {"set": {"decimate": lambda m, eng: Lin(1), "period": lambda m, eng: scaled(m, eng, "period")}}
    T["SetIncludeDecimationMs"] = {"set": {"decimate": lambda m, eng: Lin(1), "period": lambda m, eng: m.arg[0]}}
    T["ClearDecimationFilter"] = {"set": {"decimate": lambda m, eng: Lin(0)}, "free": ("period",)}
    for c, n, p in (("status", "TimeStatus", "TimeStatuses"), ("id", "MessageId", "MessageIds"), ("name", "MessageName", "MessageNames")):
        T["Include" + n] = {"list": (c, "add")}
        T["Remove" + n] = {"list": (c, "del")}
        T["Clear" + p] = {"list": (c, "clear"), "set": {"Invert%sFilter" % n: lambda m, eng: Lin(0)}}
    T["ClearFilters"] = {"initial": True}
    return T


def mutator(res, m, f, c, sub, order):
    eng = m.engine()
    st0 = m.entry(eng, [m.pred[x] for x in sub])
    for x in order:
        if x not in sub:
            sts = eng.assume(st0, inactive(m, eng, st0, x))
            if len(sts) != 1:
                raise AnalysisError("entry state of criterion %s" % x)
            st0 = sts[0]
    st0, argv = m.params(eng, st0, f)
    w = where(f)
    name = f["decl"]["n"]
    outs = eng.analyse(f, THIS, st0, argv)
    res.merge_engine(eng)
    n = 0
    for s, _ in outs:
        if not eng.feasible(s):
            continue
        n += 1
        reg = [v.fn if isinstance(v, FnV) else None for v in eng.content(s, m.fn[0])]
        res.ob(len(set(reg)) == len(reg), w, "registered-once", "no criterion is registered twice", "" if len(set(reg)) == len(reg) else "%d entries" % len(reg))
        for x in order:
            if m.pred[x] in reg:
                continue
            ok = not eng.assume(s, neg(inactive(m, eng, s, x)))
            res.ob(ok, w, "in-force", "after the call %s is taken into account whenever it is set" % WHAT[x])
        if c.get("initial"):
            initial(res, m, eng, s, w, "clearing the filter restores its initial settings")
            continue
        sets = c.get("set", {})
        for role, val in sets.items():
            if m.role[role] is None:
                continue
            want = val(m, eng)
            want = want if isinstance(want, list) else [want]
            got = fld(m, eng, s, role)
            ok = any(entails_eq(s.facts, got - x, eng.rg) for x in want)
            res.ob(ok, w, "effect", "%s sets what it says" % name, "" if ok else "%s becomes %r" % (role, got))
        lst = c.get("list")
        if lst:
            loc = m.lists[lst[0]][0]
            ok, det = list_effect(m, eng, s, loc, lst[1])
            res.ob(ok, w, "effect", "%s changes the list as it says" % name, det)
        unchanged(res, m, eng, s, st0, w, "%s changes its own setting only" % name, but=tuple(sets) + tuple(c.get("free", ())), lists=(lst[0],) if lst else ())
    return n


def list_effect(m, eng, s, loc, op):
    lg = eng.log(s, loc)
    n = models.size_of(eng, s, loc)
    if op == "clear":
        ok = entails_eq(s.facts, n, eng.rg)
        return ok, "" if ok else "the list may keep entries"
    if eng.bulk:
        arg = eng.bulk[0]
        if op == "add":
            k = models.size_of(eng, s, arg)
            ok = lg == (("addall", (arg,)),) or (lg == () and entails_eq(s.facts, k, eng.rg))
            return ok, "" if ok else "history %r" % (lg,)
        raise AnalysisError("bulk removal")
    key = tuple(a for a in m.arg)
    a = eng.memo_sym(("IN", loc, tuple(eng.canon(s, k) for k in key)), "in", 0, 1)
    if op == "add":
        ok = (lg == (("add", key),)) or (lg == () and not eng.assume(s, ("eq", a)))
    else:
        ok = (lg == (("del", key),)) or (lg == () and not eng.assume(s, ("ne", a)))
    return ok, "" if ok else "history %r" % (lg,)


def initial(res, m, eng, s, w, what):
    want = {"IncludeNmeaMessages": 0, "IncludeResponses": 1, "IncludeNonResponses": 1, "lowerflag": 0, "upperflag": 0, "decimate": 0, "InvertTimeFilter": 0,
            "InvertDecimationFilter": 0, "InvertTimeStatusFilter": 0, "InvertMessageIdFilter": 0, "InvertMessageNameFilter": 0}
    for role, v in want.items():
        if m.role[role] is None:
            continue
        got = fld(m, eng, s, role)
        ok = entails_eq(s.facts, got - v, eng.rg)
        res.ob(ok, w, "initial", what, "" if ok else "%s is %r" % (role, got))
    for n, (loc, _) in m.lists.items():
        ok = entails_eq(s.facts, models.size_of(eng, s, loc), eng.rg)
        res.ob(ok, w, "initial", what, "" if ok else "the %s list keeps entries" % n)
