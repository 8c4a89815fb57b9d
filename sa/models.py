"""Models of library functions for the abstract interpreter.

A model is fn(eng, e, d, st, fr, obj, argv) -> [(state, value)] or None (fall through to inlining / havoc).
argv entries are ("ref", location) for reference parameters and ("val", value) otherwise.
"""
import re
from .lin import Lin, entails_le
from .program import AnalysisError

_ncache = {}


def norm(q):
    r = _ncache.get(q)
    if r is not None:
        return r
    out, i, d = "", 0, 0
    while i < len(q):
        if d == 0:
            m = re.match(r"operator(<<=|>>=|<=>|->\*|->|<<|>>|<=|>=|<|>)", q[i:])
            if m:
                out += m.group(0)
                i += len(m.group(0))
                continue
        ch = q[i]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
        i += 1
    _ncache[q] = out
    return out


MODELS = {}
BYNORM = {}
PREFIX = []


def model(*names):
    def deco(f):
        for n in names:
            BYNORM[n] = f
        return f
    return deco


_lcache = {}


def lookup(d):
    q = d["q"]
    if q in _lcache:
        return _lcache[q]
    n = norm(q)
    r = BYNORM.get(n)
    if r is None:
        for p, f in PREFIX:
            if n.startswith(p):
                r = f
                break
    _lcache[q] = r
    return r


# ---------------------------------------------------------------------------------------------- helpers
def S(st):
    from .engine import State
    return State(dict(st.store), st.facts, st.epochs)


def V():
    from . import engine
    return engine


def argval(eng, d, st, argv, i):
    kind, v = argv[i]
    if kind == "val":
        return v
    return eng.load(st, v, eng.strip(d["p"][i]) if i < len(d["p"]) else {"k": "other", "s": ""})


def arglin(eng, d, st, argv, i):
    return eng.as_lin(st, argval(eng, d, st, argv, i))


def rt(eng, d):
    return eng.T(d["r"])


def unk(eng, d, st, hint="r", tags=()):
    t = rt(eng, d)
    if t["k"] == "void":
        return V().VOID
    return eng.unknown(st, t, hint, tags)


def tags_all(eng, argv):
    tg = set()
    for k, v in argv:
        if k == "val":
            tg |= eng.tags_of(v)
    return frozenset(tg)


SIZE_MAX = 2 ** 62


def size_of(eng, st, loc):
    """Element count (Lin) of the container at loc."""
    v = st.store.get(loc + ("#n",))
    if v is None:
        ep = eng.epoch(st, loc)
        v = V().Num(eng.named("size|" + V().locstr_u(loc) + ("" if not ep else "~%d" % ep), 0, SIZE_MAX, eng.loc_tags(loc + ("#n",))))
        st.store[loc + ("#n",)] = v
    return eng.as_lin(st, v)


def elem_type(eng, ct):
    """Element type index of a container type dict."""
    ta = ct.get("ta")
    if ta and ta[0] and "t" in ta[0]:
        return ta[0]["t"]
    return None


def is_arr(t):
    return t.get("q") == "std::array"


def data_reg(eng, st, loc, ct):
    """(region, element size) of the contiguous storage of the container at loc."""
    q = ct.get("q", "")
    et = elem_type(eng, ct)
    es = (eng.sizeof(et) if et is not None else 1) or 1
    if q == "std::array":
        reg = loc + ("[]",)
        n = ct["ta"][1]["v"] if len(ct.get("ta", [])) > 1 and "v" in ct["ta"][1] else None
        if n is not None and reg + ("#bytes",) not in st.store:
            st.store[reg + ("#bytes",)] = V().Num(int(n) * es)
        return reg, es
    reg = loc + ("#d", "[]")
    eng.dyn[loc] = (es, 1 if q == "std::basic_string" else 0)
    return reg, es


def obj_type(eng, e, d):
    """Type dict of the implicit object of a member call."""
    o = e.get("obj")
    if o is not None:
        t = eng.strip(o["t"])
        if t["k"] == "ptr":
            t = eng.T(t["to"])
        return t
    return {"k": "rec", "q": ""}


def mutated(eng, st, loc, keep_content=False):
    """The container at loc changes size: forget its contents."""
    if eng.writes is not None:
        for w in eng.writes:
            w.add(loc + ("#all",))
    if keep_content:
        return S(st)
    return eng.havoc(st, loc)


def setn(eng, st, loc, n):
    st = S(st)
    st.store[loc + ("#n",)] = V().Num(n)
    return st


def access(eng, st, ptr, n, mode, e, fr):
    eng.access(st, ptr, n if isinstance(n, Lin) else Lin(n), mode, e, fr)


def write_bytes(eng, st, p, n, src=None):
    """n bytes at p are overwritten; keeps region sizes."""
    Ptr = V().Ptr
    if not isinstance(p, Ptr) or p.reg == V().NULLREG:
        return st
    reg = p.reg
    st = eng.on_bytes(st, p, n, src)
    if reg[-1:] == ("[]",):
        if eng.writes is not None:
            for w in eng.writes:
                w.add(reg + ("[*]",))
        base = reg
        keep = {}
        s = V().State({}, st.facts, dict(st.epochs))
        L = len(base)
        for k, v in st.store.items():
            if k[:L] == base and len(k) > L and isinstance(k[L], str) and k[L].startswith("["):
                continue
            s.store[k] = v
        s.epochs[base] = next(eng.ctr) + 1
        # a byte view of an object: the object's own fields are overwritten too
        owner = base[:-1]
        if any(k[:len(owner)] == owner and len(k) > len(owner) and isinstance(k[len(owner)], str) and k[len(owner)].startswith("f:") for k in s.store) or owner in s.store:
            tg = frozenset(eng.tags_of(src)) if src is not None else frozenset()
            s = eng.havoc(s, owner)
            s.store.update({k: v for k, v in st.store.items() if k[:len(owner)] == owner and k[-1] == "#bytes"})
            if src is not None:
                s.store[owner + ("#src",)] = V().Opq("bytes")
        return s
    return eng.havoc(st, reg)


# ---------------------------------------------------------------------------------------------- C library
@model("memcpy", "memmove", "std::memcpy", "std::memmove", "__builtin_memcpy", "__builtin_memmove")
def m_memcpy(eng, e, d, st, fr, obj, argv):
    dst, src, n = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1), arglin(eng, d, st, argv, 2)
    access(eng, st, src, n, "r", e, fr)
    access(eng, st, dst, n, "w", e, fr)
    st = eng.on_copy(st, dst, src, n, e, fr, d["n"] == "memmove")
    r = eng.scalar_copy(st, dst, src, n)
    if r is not None:
        return [(r, dst)]
    return [(write_bytes(eng, st, dst, n, src), dst)]


@model("memset", "std::memset")
def m_memset(eng, e, d, st, fr, obj, argv):
    dst, v, n = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1), arglin(eng, d, st, argv, 2)
    access(eng, st, dst, n, "w", e, fr)
    return [(write_bytes(eng, st, dst, n), dst)]


@model("memchr", "std::memchr")
def m_memchr(eng, e, d, st, fr, obj, argv):
    p, n = argval(eng, d, st, argv, 0), arglin(eng, d, st, argv, 2)
    access(eng, st, p, n, "r", e, fr)
    P = V().Ptr
    out = [(st, P(V().NULLREG, Lin(0), Lin(1)))]
    if isinstance(p, P):
        i = eng.fresh("found", 0, SIZE_MAX)
        for s in eng.assume(st, ("le", i - n + 1)):
            r = P(p.reg, p.off + i, Lin(0))
            s = eng.on_find(s, p, n, i, e, fr)
            out.append((s, r))
    else:
        out.append((st, unk(eng, d, st)))
    out[0] = (eng.on_find(out[0][0], p, n, None, e, fr), out[0][1])
    return out


@model("memcmp", "std::memcmp")
def m_memcmp(eng, e, d, st, fr, obj, argv):
    a, b, n = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1), arglin(eng, d, st, argv, 2)
    access(eng, st, a, n, "r", e, fr)
    access(eng, st, b, n, "r", e, fr)
    key = ("memcmp", eng.vkey(a), eng.vkey(b), n, eng.ver(st, a), eng.ver(st, b))
    return [(st, V().Num(eng.memo_sym(key, "memcmp", -2 ** 31, 2 ** 31 - 1)))]


@model("strlen", "std::strlen")
def m_strlen(eng, e, d, st, fr, obj, argv):
    p = argval(eng, d, st, argv, 0)
    access(eng, st, p, Lin(1), "s", e, fr)
    s = slit(eng, st, p)
    if s is not None:
        return [(st, V().Num(s))]
    n = eng.fresh("strlen", 0, SIZE_MAX)
    b = eng.bytes_left(st, p)
    if b is not None:
        r = eng.assume(st, ("le", n - b + 1))
        if r:
            return [(x, V().Num(n)) for x in r]
    return [(st, V().Num(n))]


def slit(eng, st, p):
    if isinstance(p, V().Ptr) and isinstance(p.reg[0], str) and p.reg[0].startswith("S:") and p.off.is_const():
        return int(p.reg[0].split(":", 2)[1]) - p.off.c
    return None


@model("strcspn", "strspn", "std::strcspn", "std::strspn")
def m_strcspn(eng, e, d, st, fr, obj, argv):
    p = argval(eng, d, st, argv, 0)
    access(eng, st, p, Lin(1), "s", e, fr)
    n = eng.fresh("span", 0, SIZE_MAX)
    b = eng.bytes_left(st, p)
    if b is not None:
        r = eng.assume(st, ("le", n - b + 1))
        if r:
            return [(x, V().Num(n)) for x in r]
    return [(st, V().Num(n))]


@model("strncmp", "strcmp", "strcasecmp", "strncasecmp", "std::strncmp", "std::strcmp")
def m_strcmp(eng, e, d, st, fr, obj, argv):
    a, b = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1)
    access(eng, st, a, Lin(1), "s", e, fr)
    access(eng, st, b, Lin(1), "s", e, fr)
    return [(st, V().Num(eng.fresh("strcmp", -2 ** 31, 2 ** 31 - 1)))]


@model("strchr", "strstr", "strrchr", "std::strchr")
def m_strchr(eng, e, d, st, fr, obj, argv):
    p = argval(eng, d, st, argv, 0)
    access(eng, st, p, Lin(1), "s", e, fr)
    P = V().Ptr
    if not isinstance(p, P):
        return [(st, unk(eng, d, st))]
    i = eng.fresh("found", 0, SIZE_MAX)
    out = [(st, P(V().NULLREG, Lin(0), Lin(1)))]
    b = eng.bytes_left(st, p)
    for s in (eng.assume(st, ("le", i - b + 1)) if b is not None else [st]):
        out.append((s, P(p.reg, p.off + i, Lin(0))))
    return out


def m_snprintf(eng, e, d, st, fr, obj, argv):
    p, n = argval(eng, d, st, argv, 0), arglin(eng, d, st, argv, 1)
    access(eng, st, p, n, "w", e, fr)
    st = write_bytes(eng, st, p, n)
    return [(st, V().Num(eng.fresh("printed", -1, 2 ** 31 - 1)))]


BYNORM["snprintf"] = BYNORM["std::snprintf"] = m_snprintf


@model("sscanf", "std::sscanf")
def m_sscanf(eng, e, d, st, fr, obj, argv):
    for k, v in argv[2:]:
        if k == "val" and isinstance(v, V().Ptr):
            b = eng.region_bytes(st, v.reg)
            st = write_bytes(eng, st, v, Lin(1)) if v.reg[-1:] == ("[]",) else eng.havoc(st, v.reg)
    return [(st, unk(eng, d, st, "scan"))]


@model("strtoul", "strtol", "strtod", "strtof", "strtoull", "atoi", "std::strtoul", "std::strtol", "std::strtod")
def m_strtox(eng, e, d, st, fr, obj, argv):
    p = argval(eng, d, st, argv, 0)
    access(eng, st, p, Lin(1), "s", e, fr)
    if len(argv) > 1:
        q = argval(eng, d, st, argv, 1)
        if isinstance(q, V().Ptr) and q.reg != V().NULLREG and isinstance(p, V().Ptr):
            i = eng.fresh("end", 0, SIZE_MAX)
            st = eng.write(st, eng.deref(st, q, d["p"][0], e, fr), V().Ptr(p.reg, p.off + i, Lin(0)))
    return [(st, unk(eng, d, st, "num"))]


@model("isdigit", "isalpha", "isxdigit", "isspace", "isalnum", "isprint", "toupper", "tolower", "std::isdigit", "std::isxdigit", "std::toupper", "std::tolower",
       "round", "llround", "lround", "std::lround", "std::llround", "std::abs", "std::fabs", "std::round", "std::floor", "std::pow", "std::isnan", "std::log10",
       "floor", "pow", "abs", "std::signbit")
def m_pure(eng, e, d, st, fr, obj, argv):
    vals = [argval(eng, d, st, argv, i) for i in range(len(argv))]
    t = rt(eng, d)
    key = "%s(%s)" % (d["n"], ",".join(repr(eng.vkey(v)) for v in vals))
    tg = set()
    for v in vals:
        tg |= eng.tags_of(v)
    if eng.is_num(t):
        lo, hi = eng.range_of(t)
        return [(st, V().Num(eng.named(key, lo, hi, tg)))]
    o = V().Opq(key if len(key) < 300 else "pure%d" % next(eng.ctr))
    if tg:
        eng.tags[o.s] = frozenset(tg)
    return [(st, o)]


@model("__assert_fail", "abort", "exit", "std::terminate", "std::abort", "__builtin_unreachable", "std::__throw_bad_optional_access")
def m_noreturn(eng, e, d, st, fr, obj, argv):
    return []


# ---------------------------------------------------------------------------------------------- <algorithm>, <utility>
@model("std::min", "std::max")
def m_minmax(eng, e, d, st, fr, obj, argv):
    if len(argv) != 2 or any(k != "ref" for k, v in argv):
        return None
    t = eng.strip(d["p"][0])
    a, b = eng.load(st, argv[0][1], t), eng.load(st, argv[1][1], t)
    if not eng.is_num(t):
        vk = (eng.vkey(a), eng.vkey(b))
        o = V().Opq("%s%r" % (d["n"], vk)) if len(repr(vk)) < 300 else V().Opq("mm%d" % next(eng.ctr))
        tg = eng.tags_of(a) | eng.tags_of(b)
        if tg:
            eng.tags[o.s] = tg
        loc = ("T:%d" % next(eng.ctr),)
        st = S(st)
        st.store[loc] = o
        return [(st, V().Ptr(loc))]
    la, lb = eng.as_lin(st, a), eng.as_lin(st, b)
    out = []
    first = ("le", la - lb) if d["n"] == "min" else ("le", lb - la)
    for f, loc in ((first, argv[0][1]), (V().neg(first), argv[1][1])):
        for s in eng.assume(st, f):
            out.append((s, eng.ptr_to(loc)))
    return out


@model("std::clamp")
def m_clamp(eng, e, d, st, fr, obj, argv):
    t = eng.strip(d["p"][0])
    if not eng.is_num(t):
        return None
    v, lo, hi = [eng.as_lin(st, eng.load(st, argv[i][1], t)) for i in range(3)]
    out = []
    for s in eng.assume(st, ("le", v - lo + 1)):
        out.append((s, eng.ptr_to(argv[1][1])))
    for s in eng.assume(st, ("le", lo - v)):
        for s2 in eng.assume(s, ("le", hi - v + 1)):
            out.append((s2, eng.ptr_to(argv[2][1])))
        for s2 in eng.assume(s, ("le", v - hi)):
            out.append((s2, eng.ptr_to(argv[0][1])))
    return out


@model("std::move", "std::forward", "std::as_const", "std::cref", "std::ref", "std::addressof", "std::__addressof")
def m_move(eng, e, d, st, fr, obj, argv):
    if len(argv) != 1:
        return m_copy(eng, e, d, st, fr, obj, argv)
    k, v = argv[0]
    if k == "ref":
        to = eng.T(eng.T(d["r"]).get("to", d["r"])) if rt(eng, d)["k"] == "ref" else rt(eng, d)
        if d["n"] in ("addressof", "__addressof"):
            return [(st, eng.ptr_to(v))]
        if to["k"] in ("rec", "array"):
            return [(st, V().Obj(v))]
        return [(st, eng.ptr_to(v))]
    return [(st, v)]


@model("std::swap", "std::exchange")
def m_swap(eng, e, d, st, fr, obj, argv):
    t = eng.strip(d["p"][0])
    a = eng.load(st, argv[0][1], t)
    if d["n"] == "exchange":
        b = argval(eng, d, st, argv, 1)
        if isinstance(a, V().Obj):
            tmp = ("T:%d" % next(eng.ctr),)
            st = eng.copy_obj(st, a.loc, tmp, t)
            a = V().Obj(tmp)
        st, _ = eng.assign(st, argv[0][1], b, t, e, fr)
        return [(st, a)]
    b = eng.load(st, argv[1][1], t)
    if isinstance(a, V().Obj):
        tmp = ("T:%d" % next(eng.ctr),)
        st = eng.copy_obj(st, a.loc, tmp, t)
        st = eng.copy_obj(st, b.loc, a.loc, t)
        st = eng.copy_obj(st, tmp, b.loc, t)
        return [(st, V().VOID)]
    st, _ = eng.assign(st, argv[0][1], b, t, e, fr)
    st, _ = eng.assign(st, argv[1][1], a, t, e, fr)
    return [(st, V().VOID)]


def ptr_of_iter(eng, st, v):
    """Iterators over contiguous storage are pointers."""
    if isinstance(v, V().Ptr):
        return v
    if isinstance(v, V().Obj):
        p = st.store.get(v.loc + ("#it",))
        if isinstance(p, V().Ptr):
            return p
    return None


@model("std::copy", "std::copy_n", "std::uninitialized_copy", "std::copy_backward")
def m_copy(eng, e, d, st, fr, obj, argv):
    if len(argv) < 3:
        return None
    a, b, c = [argval(eng, d, st, argv, i) for i in range(3)]
    pa, pc = ptr_of_iter(eng, st, a), ptr_of_iter(eng, st, c)
    if d["n"] == "copy_n":
        n = eng.as_lin(st, b).scale(elem_sz(eng, d, 0))
    else:
        pb = ptr_of_iter(eng, st, b)
        n = pb.off - pa.off if pa is not None and pb is not None and pa.reg == pb.reg else None
    if n is None or pa is None or pc is None:
        return None
    access(eng, st, pa, n, "r", e, fr)
    access(eng, st, pc, n, "w", e, fr)
    st = eng.on_copy(st, pc, pa, n, e, fr, False)
    st = write_bytes(eng, st, pc, n, pa)
    r = V().Ptr(pc.reg, pc.off + n, pc.null)
    return [(st, wrap_iter(eng, st, r, d["r"]))]


def elem_sz(eng, d, i):
    t = eng.strip(d["p"][i])
    if t["k"] == "ptr":
        return eng.sizeof(t["to"]) or 1
    et = elem_type(eng, t)
    if et is not None:
        x = eng.T(et)
        if x["k"] == "ptr":
            return eng.sizeof(x["to"]) or 1
    return 1


def wrap_iter(eng, st, p, ti):
    return p


@model("std::fill_n", "std::fill")
def m_fill(eng, e, d, st, fr, obj, argv):
    a, b = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1)
    pa = ptr_of_iter(eng, st, a)
    if pa is None:
        return None
    if d["n"] == "fill_n":
        n = eng.as_lin(st, b).scale(elem_sz(eng, d, 0))
    else:
        pb = ptr_of_iter(eng, st, b)
        if pb is None or pb.reg != pa.reg:
            return None
        n = pb.off - pa.off
    access(eng, st, pa, n, "w", e, fr)
    st = write_bytes(eng, st, pa, n)
    return [(st, V().Ptr(pa.reg, pa.off + n, pa.null) if d["n"] == "fill_n" else V().VOID)]


@model("std::find", "std::find_if")
def m_find(eng, e, d, st, fr, obj, argv):
    a, b = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1)
    pa, pb = ptr_of_iter(eng, st, a), ptr_of_iter(eng, st, b)
    if pa is None or pb is None or pa.reg != pb.reg:
        return None
    es = elem_sz(eng, d, 0)
    i = eng.fresh("found", 0, SIZE_MAX)
    P = V().Ptr
    out = [(st, P(pa.reg, pb.off, Lin(0)))]
    for s in eng.assume(st, ("le", pa.off + i.scale(es) - pb.off + es)):
        out.append((s, P(pa.reg, pa.off + i.scale(es), Lin(0))))
    return out


@model("std::equal")
def m_equal(eng, e, d, st, fr, obj, argv):
    a, b, c = [argval(eng, d, st, argv, i) for i in range(3)]
    pa, pb, pc = ptr_of_iter(eng, st, a), ptr_of_iter(eng, st, b), ptr_of_iter(eng, st, c)
    if pa is not None and pb is not None and pa.reg == pb.reg:
        n = pb.off - pa.off
        access(eng, st, pa, n, "r", e, fr)
        if pc is not None:
            access(eng, st, pc, n, "r", e, fr)
    return [(st, V().Num(eng.fresh("eq", 0, 1)))]


@model("std::distance")
def m_distance(eng, e, d, st, fr, obj, argv):
    a, b = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1)
    pa, pb = ptr_of_iter(eng, st, a), ptr_of_iter(eng, st, b)
    if pa is None or pb is None or pa.reg != pb.reg:
        return None
    return eng.arith(st, "/", V().Num(pb.off - pa.off), V().Num(elem_sz(eng, d, 0)), rt(eng, d), e)


@model("std::next", "std::prev")
def m_next(eng, e, d, st, fr, obj, argv):
    a = ptr_of_iter(eng, st, argval(eng, d, st, argv, 0))
    if a is None:
        return None
    n = arglin(eng, d, st, argv, 1) if len(argv) > 1 else Lin(1)
    n = n.scale(elem_sz(eng, d, 0))
    return [(st, V().Ptr(a.reg, a.off + n if d["n"] == "next" else a.off - n, a.null))]


# numeric limits -------------------------------------------------------------------------------
@model("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest")
def m_limits(eng, e, d, st, fr, obj, argv):
    t = rt(eng, d)
    if eng.is_num(t):
        lo, hi = eng.range_of(t)
        return [(st, V().Num(hi if d["n"] == "max" else lo))]
    return [(st, V().Opq("flt:%s:%s" % (d["n"], t["s"])))]


@model("std::numeric_limits::epsilon", "std::numeric_limits::quiet_NaN", "std::numeric_limits::infinity")
def m_limits2(eng, e, d, st, fr, obj, argv):
    return [(st, V().Opq("flt:%s" % d["n"]))]


# conversions ----------------------------------------------------------------------------------
@model("std::to_chars")
def m_to_chars(eng, e, d, st, fr, obj, argv):
    P = V().Ptr
    a, b = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1)
    loc = ("T:tc%d" % next(eng.ctr),)
    if not (isinstance(a, P) and isinstance(b, P)) or a.reg != b.reg:
        return [(st, V().Obj(loc))]
    access(eng, st, a, b.off - a.off, "w", e, fr)
    st = write_bytes(eng, st, a, b.off - a.off)
    n = eng.fresh("wrote", 0, SIZE_MAX)
    out = []
    rid = rt(eng, d).get("rec")
    fp, fe = rec_field(eng, rid, "ptr"), rec_field(eng, rid, "ec")
    # the end of the text never passes the given end, whether or not the conversion fits
    for s in eng.assume(st, ("le", a.off + n - b.off)):
        s = S(s)
        s.store[loc + (fp,)] = P(a.reg, a.off + n, Lin(0))
        s.store[loc + (fe,)] = V().Num(eng.fresh("ec", 0, 200))
        out.append((s, V().Obj(loc)))
    # empty range: nothing written, ptr == last
    return out or [(st, V().Obj(loc))]


def rec_field(eng, rid, name):
    r = eng.p.recs.get(rid)
    if r:
        for f in r.get("f", []):
            if f["n"] == name:
                return "f:" + f["id"]
    ix = getattr(eng.p, "_memfields", None)
    if ix is None:
        ix = eng.p._memfields = {}
        todo = [f.get("body") for f in eng.p.funs.values()]
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                todo += x
            elif isinstance(x, dict):
                if x.get("k") == "Mem":
                    ix[(x.get("cls"), x.get("n"))] = x["f"]
                todo += [y for y in x.values() if isinstance(y, (dict, list))]
    if (rid, name) in ix:
        return "f:" + ix[(rid, name)]
    return "f:" + name


@model("std::from_chars")
def m_from_chars(eng, e, d, st, fr, obj, argv):
    P = V().Ptr
    a, b = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1)
    loc = ("T:fc%s:%s" % (e.get("l"), id(e)), fr.key)
    if isinstance(a, P) and isinstance(b, P) and a.reg == b.reg:
        access(eng, st, a, b.off - a.off, "r", e, fr)
    if argv[2][0] == "ref":
        st = eng.havoc(st, argv[2][1])
    rid = rt(eng, d).get("rec")
    fp, fe = rec_field(eng, rid, "ptr"), rec_field(eng, rid, "ec")
    st = S(st)
    st.store[loc + (fe,)] = V().Num(eng.fresh("ec", 0, 200))
    if isinstance(a, P) and isinstance(b, P) and a.reg == b.reg:
        n = eng.fresh("parsed", 0, SIZE_MAX)
        out = []
        for s in eng.assume(st, ("le", a.off + n - b.off)):
            s = S(s)
            s.store[loc + (fp,)] = P(a.reg, a.off + n, Lin(0))
            out.append((s, V().Obj(loc)))
        return out or [(st, V().Obj(loc))]
    return [(st, V().Obj(loc))]


@model("std::stoi", "std::stoul", "std::stol", "std::stod", "std::stof", "std::stoull")
def m_stoi(eng, e, d, st, fr, obj, argv):
    eng.may_throw(st, e)
    return [(st, unk(eng, d, st, "sto"))]


@model("std::to_string")
def m_to_string(eng, e, d, st, fr, obj, argv):
    return [(st, unk(eng, d, st, "tostr"))]


# ---------------------------------------------------------------------------------------------- containers
CONT = ("std::vector", "std::array", "std::basic_string", "std::basic_string_view")


def cont_data(eng, st, loc, ct):
    """Ptr to element 0."""
    q = ct.get("q", "")
    if q == "std::basic_string_view":
        p = st.store.get(loc + ("#p",))
        if p is None:
            n = size_of(eng, st, loc)
            reg = loc + ("#p", "*", "[]")
            st.store.setdefault(reg + ("#bytes",), V().Num(n))
            p = V().Ptr(reg, Lin(0), Lin(0))
            st.store[loc + ("#p",)] = p
        return p, 1
    reg, es = data_reg(eng, st, loc, ct)
    return V().Ptr(reg, Lin(0), Lin(0)), es


def cont_size(eng, st, loc, ct):
    if ct.get("q") == "std::array":
        return Lin(int(ct["ta"][1]["v"])) if "v" in ct["ta"][1] else size_of(eng, st, loc)
    return size_of(eng, st, loc)


def _c(names):
    return ["%s::%s" % (c, n) for c in CONT for n in names]


@model(*_c(["size", "length"]))
def m_size(eng, e, d, st, fr, obj, argv):
    return [(st, V().Num(cont_size(eng, st, obj, obj_type(eng, e, d))))]


@model(*(_c(["empty"])))
def m_empty(eng, e, d, st, fr, obj, argv):
    n = cont_size(eng, st, obj, obj_type(eng, e, d))
    return [(st, V().Bool(("eq", n)))]


@model(*_c(["data", "c_str", "begin", "cbegin"]))
def m_data(eng, e, d, st, fr, obj, argv):
    st = S(st)
    p, es = cont_data(eng, st, obj, obj_type(eng, e, d))
    return [(st, p)]


@model(*_c(["end", "cend"]))
def m_end(eng, e, d, st, fr, obj, argv):
    st = S(st)
    ct = obj_type(eng, e, d)
    p, es = cont_data(eng, st, obj, ct)
    return [(st, V().Ptr(p.reg, p.off + cont_size(eng, st, obj, ct).scale(es), p.null))]


@model(*_c(["operator[]", "at", "front", "back"]))
def m_index(eng, e, d, st, fr, obj, argv):
    st = S(st)
    ct = obj_type(eng, e, d)
    p, es = cont_data(eng, st, obj, ct)
    n = cont_size(eng, st, obj, ct)
    if d["n"] == "front":
        i = Lin(0)
    elif d["n"] == "back":
        i = n - 1
    else:
        i = arglin(eng, d, st, argv, 0)
    if d["n"] == "at":
        out = []
        for s in eng.assume(st, ("le", i - n + 1)):
            out += _elem(eng, e, d, s, fr, p, i, es)
        eng.may_throw(st, e)
        return out
    q = V().Ptr(p.reg, p.off + i.scale(es), Lin(0))
    eng.index(st, q, es, i, n, e, fr, ct)
    return _elem(eng, e, d, st, fr, p, i, es)


def _elem(eng, e, d, st, fr, p, i, es):
    t = rt(eng, d)
    to = eng.T(t["to"]) if t["k"] == "ref" else t
    q = V().Ptr(p.reg, p.off + i.scale(es), Lin(0))
    if t["k"] != "ref":
        return [(st, eng.load(st, q.reg + (("[%d]" % q.off.c) if q.off.is_const() else V().Sym(q.off),), t))]
    if to["k"] in ("rec", "array"):
        loc = q.reg + (("[%d]" % q.off.c) if q.off.is_const() else V().Sym(q.off),)
        return [(st, V().Obj(loc))]
    return [(st, q)]


@model("std::vector::push_back", "std::vector::emplace_back", "std::basic_string::push_back", "std::basic_string::append", "std::basic_string::operator+=")
def m_push(eng, e, d, st, fr, obj, argv):
    n = size_of(eng, st, obj)
    ct = obj_type(eng, e, d)
    st = mutated(eng, st, obj)
    if d["n"] in ("push_back", "emplace_back"):
        st = setn(eng, st, obj, n + 1)
    else:
        st = setn(eng, st, obj, eng.fresh("size", 0, SIZE_MAX))
    if d["n"] == "emplace_back":
        return [(s, v) for s, v in _elem(eng, e, d, st, fr, cont_data(eng, st, obj, ct)[0], n, 1)] if rt(eng, d)["k"] == "ref" else [(st, V().VOID)]
    if rt(eng, d)["k"] == "ref":
        return [(st, V().Obj(obj))]
    return [(st, V().VOID)]


@model("std::vector::pop_back", "std::basic_string::pop_back")
def m_pop(eng, e, d, st, fr, obj, argv):
    n = size_of(eng, st, obj)
    eng.index(st, V().Ptr(("none",)), 1, Lin(0), n, e, fr, obj_type(eng, e, d))
    st = mutated(eng, st, obj)
    return [(setn(eng, st, obj, n - 1), V().VOID)]


@model("std::vector::clear", "std::basic_string::clear")
def m_clear(eng, e, d, st, fr, obj, argv):
    st = mutated(eng, st, obj)
    return [(setn(eng, st, obj, Lin(0)), V().VOID)]


@model("std::vector::resize", "std::basic_string::resize")
def m_resize(eng, e, d, st, fr, obj, argv):
    n = arglin(eng, d, st, argv, 0)
    st = mutated(eng, st, obj)
    return [(setn(eng, st, obj, n), V().VOID)]


@model("std::vector::reserve", "std::basic_string::reserve", "std::vector::shrink_to_fit")
def m_reserve(eng, e, d, st, fr, obj, argv):
    return [(st, V().VOID)]


@model("std::vector::capacity", "std::basic_string::capacity")
def m_capacity(eng, e, d, st, fr, obj, argv):
    n = size_of(eng, st, obj)
    c = eng.fresh("capacity", 0, SIZE_MAX)
    return [(s, V().Num(c)) for s in eng.assume(st, ("le", n - c))]


@model("std::vector::erase", "std::vector::insert", "std::vector::assign", "std::basic_string::assign", "std::basic_string::erase", "std::basic_string::insert", "std::vector::emplace", "std::basic_string::replace")
def m_mut(eng, e, d, st, fr, obj, argv):
    st = mutated(eng, st, obj)
    st = setn(eng, st, obj, eng.fresh("size", 0, SIZE_MAX))
    t = rt(eng, d)
    if t["k"] == "ref":
        return [(st, V().Obj(obj))]
    if t["k"] == "void":
        return [(st, V().VOID)]
    reg, es = data_reg(eng, st, obj, obj_type(eng, e, d))
    return [(st, V().Ptr(reg, eng.fresh("it", 0, SIZE_MAX)))]


@model("std::basic_string::substr", "std::basic_string_view::substr")
def m_substr(eng, e, d, st, fr, obj, argv):
    ct = obj_type(eng, e, d)
    st = S(st)
    n = cont_size(eng, st, obj, ct)
    pos = arglin(eng, d, st, argv, 0) if argv else Lin(0)
    cnt = arglin(eng, d, st, argv, 1) if len(argv) > 1 else None
    out = []
    eng.oob_throw(st, pos, n, e, fr)
    for s in eng.assume(st, ("le", pos - n)):
        parts = [(s, n - pos)]
        if cnt is not None and not (cnt.is_const() and cnt.c >= 2 ** 63):
            parts = [(x, cnt) for x in eng.assume(s, ("le", cnt - (n - pos)))] + [(x, n - pos) for x in eng.assume(s, ("le", (n - pos) - cnt + 1))]
        for x, ln in parts:
            x = S(x)
            loc = ("T:sub%d" % next(eng.ctr),)
            x.store[loc + ("#n",)] = V().Num(ln)
            if ct.get("q") == "std::basic_string_view":
                p, es = cont_data(eng, x, obj, ct)
                x.store[loc + ("#p",)] = V().Ptr(p.reg, p.off + pos.scale(es), p.null)
            out.append((x, V().Obj(loc)))
    eng.may_throw(st, e)
    return out


@model(*_c(["find", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "rfind"]))
def m_sfind(eng, e, d, st, fr, obj, argv):
    n = cont_size(eng, st, obj, obj_type(eng, e, d))
    i = eng.fresh("found", 0, SIZE_MAX)
    out = [(st, V().Num(2 ** 64 - 1))]
    for s in eng.assume(st, ("le", i - n + 1)):
        out.append((s, V().Num(i)))
    return out


@model("std::basic_string_view::remove_prefix", "std::basic_string_view::remove_suffix")
def m_rmprefix(eng, e, d, st, fr, obj, argv):
    ct = obj_type(eng, e, d)
    st = S(st)
    k = arglin(eng, d, st, argv, 0)
    n = cont_size(eng, st, obj, ct)
    eng.index(st, V().Ptr(("none",)), 1, k - 1, n, e, fr, ct)
    p, es = cont_data(eng, st, obj, ct)
    if eng.writes is not None:
        for w in eng.writes:
            w.add(obj + ("#n",))
            w.add(obj + ("#p",))
    if d["n"] == "remove_prefix":
        st.store[obj + ("#p",)] = V().Ptr(p.reg, p.off + k.scale(es), p.null)
    st.store[obj + ("#n",)] = V().Num(n - k)
    return [(st, V().VOID)]


@model("std::basic_string::operator basic_string_view")
def m_s2sv(eng, e, d, st, fr, obj, argv):
    st = S(st)
    n = size_of(eng, st, obj)
    p, es = cont_data(eng, st, obj, {"q": "std::basic_string"})
    loc = ("T:sv%d" % next(eng.ctr),)
    st.store[loc + ("#n",)] = V().Num(n)
    st.store[loc + ("#p",)] = p
    return [(st, V().Obj(loc))]


@model("std::vector::operator=", "std::basic_string::operator=", "std::basic_string_view::operator=", "std::array::operator=",
       "std::shared_ptr::operator=", "std::unique_ptr::operator=", "std::optional::operator=", "std::pair::operator=", "std::variant::operator=",
       "std::unordered_map::operator=", "std::function::operator=", "std::map::operator=", "std::tuple::operator=")
def m_assign(eng, e, d, st, fr, obj, argv):
    if not argv:
        return None
    ct = obj_type(eng, e, d)
    k, v = argv[0]
    pt = eng.strip(d["p"][0])
    q = norm(d["q"]).rsplit("::", 1)[0]
    r = V().Obj(obj)
    if q in ("std::unique_ptr", "std::shared_ptr"):
        return [(assign_smart(eng, st, obj, (k, v), pt, e, fr), r)]
    if q == "std::function":
        val = argval(eng, d, st, argv, 0)
        st = eng.havoc(st, obj)
        return [(eng.write(st, obj, val) if isinstance(val, (V().Clo, V().FnV)) else st, r)]
    if q == "std::optional":
        st = eng.havoc(st, obj)
        val = argval(eng, d, st, argv, 0) if k == "val" else eng.load(st, v, pt)
        st = S(st)
        if pt.get("q") == "std::nullopt_t":
            st.store[obj + ("#has",)] = V().Num(0)
        elif pt.get("q") == "std::optional":
            src = v if k == "ref" else v.loc
            st = eng.copy_obj(st, src, obj, {"k": "other"})
        else:
            st.store[obj + ("#has",)] = V().Num(1)
            if not isinstance(val, V().Obj):
                st.store[obj + ("#v",)] = val
        return [(st, r)]
    src = v if k == "ref" else (v.loc if isinstance(v, V().Obj) else None)
    if src is not None and pt.get("q") == ct.get("q"):
        if q in ("std::vector", "std::basic_string", "std::basic_string_view"):
            if q == "std::basic_string_view":
                cont_data(eng, st, src, pt)
            size_of(eng, st, src)
        st = eng.copy_obj(st, src, obj, ct)
        return [(st, r)]
    st = eng.havoc(st, obj)
    return [(st, r)]


# smart pointers ---------------------------------------------------------------------------------
def smart_ptr(eng, st, loc, elem_arr=False):
    p = st.store.get(loc + ("#p",))
    if p is None:
        ep = eng.epoch(st, loc)
        reg = loc + ("#p", "*" if not ep else "*%d" % ep)
        if elem_arr:
            reg = reg + ("[]",)
        p = V().Ptr(reg, Lin(0), eng.smart_null(st, loc, ep))
        st.store[loc + ("#p",)] = p
    return p


def is_array_up(t):
    s = t.get("rec", t.get("s", ""))
    return t.get("q") == "std::unique_ptr" and "[]" in s.split(",")[0]


def assign_smart(eng, st, loc, arg, pt, e, fr):
    k, v = arg
    if eng.writes is not None:
        for w in eng.writes:
            w.add(loc + ("#p",))
    if k == "val" and isinstance(v, V().Ptr):
        st = S(st)
        st.store[loc + ("#p",)] = v
        return st
    src = v if k == "ref" else (v.loc if isinstance(v, V().Obj) else None)
    if src is None or pt.get("q") not in ("std::unique_ptr", "std::shared_ptr"):
        return eng.havoc(st, loc)
    st = S(st)
    p = smart_ptr(eng, st, src, is_array_up(pt))
    st.store[loc + ("#p",)] = p
    return st


SP = ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access")


@model(*["%s::get" % s for s in SP])
def m_get(eng, e, d, st, fr, obj, argv):
    st = S(st)
    return [(st, smart_ptr(eng, st, obj, is_array_up(obj_type(eng, e, d))))]


@model(*["%s::operator->" % s for s in SP])
def m_arrow(eng, e, d, st, fr, obj, argv):
    st = S(st)
    p = smart_ptr(eng, st, obj, is_array_up(obj_type(eng, e, d)))
    access(eng, st, p, Lin(1), "d", e, fr)
    return [(st, V().Ptr(p.reg, p.off, Lin(0)))]


@model(*["%s::operator*" % s for s in SP])
def m_star(eng, e, d, st, fr, obj, argv):
    st = S(st)
    p = smart_ptr(eng, st, obj)
    access(eng, st, p, Lin(1), "d", e, fr)
    to = eng.strip(d["r"])
    if to["k"] in ("rec", "array"):
        return [(st, V().Obj(p.reg))]
    return [(st, V().Ptr(p.reg, p.off, Lin(0)))]


@model("std::unique_ptr::operator[]", "std::shared_ptr::operator[]")
def m_upindex(eng, e, d, st, fr, obj, argv):
    st = S(st)
    p = smart_ptr(eng, st, obj, True)
    i = arglin(eng, d, st, argv, 0)
    to = eng.strip(d["r"])
    es = eng.sizeof(to) or 1
    q = V().Ptr(p.reg, p.off + i.scale(es), p.null)
    access(eng, st, q, Lin(es), "d", e, fr)
    if to["k"] in ("rec", "array"):
        return [(st, V().Obj(eng.deref(st, q, eng.T(d["r"])["to"], e, fr)))]
    return [(st, q)]


@model(*["%s::operator bool" % s for s in SP])
def m_spbool(eng, e, d, st, fr, obj, argv):
    st = S(st)
    p = smart_ptr(eng, st, obj, is_array_up(obj_type(eng, e, d)))
    return [(st, V().Bool(eng.truth(st, p)))]


@model("std::unique_ptr::reset", "std::__shared_ptr::reset", "std::shared_ptr::reset", "std::unique_ptr::release")
def m_spreset(eng, e, d, st, fr, obj, argv):
    st = S(st)
    old = smart_ptr(eng, st, obj, is_array_up(obj_type(eng, e, d)))
    if eng.writes is not None:
        for w in eng.writes:
            w.add(obj + ("#p",))
    v = argval(eng, d, st, argv, 0) if argv else V().Ptr(V().NULLREG, Lin(0), Lin(1))
    if not isinstance(v, V().Ptr):
        return [(eng.havoc(st, obj), V().VOID)]
    st.store[obj + ("#p",)] = v
    return [(st, old if d["n"] == "release" else V().VOID)]


@model("std::make_unique", "std::make_shared")
def m_make(eng, e, d, st, fr, obj, argv):
    t = rt(eng, d)
    loc = ("T:mk%d" % next(eng.ctr),)
    heap = ("H:new%s.%d" % (e["l"], next(eng.ctr)),)
    st = S(st)
    if is_array_up(t):
        et = elem_type(eng, t)
        at = eng.T(et)
        es = eng.sizeof(at["to"]) if "to" in at else 1
        n = arglin(eng, d, st, argv, 0)
        reg = heap + ("[]",)
        st.store[reg + ("#bytes",)] = V().Num(n.scale(es or 1))
        st.store[loc + ("#p",)] = V().Ptr(reg)
        return [(st, V().Obj(loc))]
    et = elem_type(eng, t)
    st.store[loc + ("#p",)] = V().Ptr(heap)
    r = eng.construct_heap(st, heap, et, argv, e, fr)
    return [(s, V().Obj(loc)) for s in r]


@model("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast")
def m_pcast(eng, e, d, st, fr, obj, argv):
    k, v = argv[0]
    src = v if k == "ref" else v.loc
    st = S(st)
    p = smart_ptr(eng, st, src)
    loc = ("T:pc%d" % next(eng.ctr),)
    if d["n"] == "dynamic_pointer_cast":
        nn = eng.memo_sym(("dyn", p.reg, p.off, p.null, d["r"]), "dynnull", 0, 1)
        out = []
        for s in eng.assume(st, ("eq", nn)):
            for s2 in (eng.assume(s, ("eq", p.null)) if p.null.t else ([s] if p.null.c == 0 else [])):
                s2 = S(s2)
                s2.store[loc + ("#p",)] = V().Ptr(p.reg, p.off, Lin(0))
                out.append((s2, V().Obj(loc)))
        for s in eng.assume(st, ("eq", nn - 1)):
            s = S(s)
            s.store[loc + ("#p",)] = V().Ptr(V().NULLREG, Lin(0), Lin(1))
            out.append((s, V().Obj(loc)))
        return out
    st.store[loc + ("#p",)] = p
    return [(st, V().Obj(loc))]


# optional / variant / pair / tuple ----------------------------------------------------------------
def opt_has(eng, st, loc):
    v = st.store.get(loc + ("#has",))
    if v is None:
        ep = eng.epoch(st, loc)
        v = V().Num(eng.named("has|" + V().locstr_u(loc) + ("" if not ep else "~%d" % ep), 0, 1))
        st.store[loc + ("#has",)] = v
    return v


@model("std::optional::has_value", "std::optional::operator bool")
def m_ohas(eng, e, d, st, fr, obj, argv):
    st = S(st)
    return [(st, V().Bool(eng.truth(st, opt_has(eng, st, obj))))]


@model("std::optional::value", "std::optional::operator*", "std::optional::operator->", "std::optional::value_or")
def m_oval(eng, e, d, st, fr, obj, argv):
    st = S(st)
    t = rt(eng, d)
    loc = obj + ("#v",)
    if d["n"] == "value_or":
        out = []
        h = eng.truth(st, opt_has(eng, st, obj))
        for s in eng.assume(st, h):
            out.append((s, eng.load(s, loc, t)))
        for s in eng.assume(st, V().neg(h)):
            out.append((s, argval(eng, d, s, argv, 0)))
        return out
    if d["n"] == "operator->":
        return [(st, V().Ptr(loc))]
    to = eng.T(t["to"]) if t["k"] == "ref" else t
    if to["k"] in ("rec", "array"):
        return [(st, V().Obj(loc))]
    return [(st, V().Ptr(loc))]


@model("std::function::operator()")
def m_fcall(eng, e, d, st, fr, obj, argv):
    f = st.store.get(obj)
    if isinstance(f, V().Clo):
        specs = [f.node["fn"]] if f.node.get("fn") else f.node.get("specs", [])
        for sp in specs:
            b = eng.p.funs.get(sp)
            if b is not None and len(b["params"]) == len(argv) and eng.can_inline(b, fr):
                return eng.inline(b, st, fr, f.this, argv, e, clo=f)
    if isinstance(f, V().FnV):
        b = eng.p.funs.get(f.fn)
        if b is not None and eng.can_inline(b, fr):
            return eng.inline(b, st, fr, f.obj, argv, e)
    st = eng.havoc_args(st, argv, d, e)
    return [(st, unk(eng, d, st, "fcall", tags_all(eng, argv)))]


# iterators -----------------------------------------------------------------------------------------
IT = "__gnu_cxx::__normal_iterator"


def _it_es(eng, ct):
    et = elem_type(eng, ct)
    if et is not None:
        x = eng.T(et)
        if x["k"] == "ptr":
            return eng.sizeof(x["to"]) or 1
    return 1


def it_val(eng, st, loc):
    v = st.store.get(loc)
    return v if isinstance(v, V().Ptr) else None


@model(IT + "::operator*", IT + "::operator->")
def m_it_deref(eng, e, d, st, fr, obj, argv):
    p = it_val(eng, st, obj)
    if p is None:
        return None
    to = eng.strip(d["r"])
    if d["n"] == "operator->":
        return [(st, p)]
    access(eng, st, p, Lin(eng.sizeof(to) or 1), "d", e, fr)
    loc = p.reg + (("[%d]" % p.off.c) if p.off.is_const() else V().Sym(p.off),)
    if to["k"] in ("rec", "array"):
        return [(st, V().Obj(loc))]
    return [(st, p)]


@model(IT + "::operator++", IT + "::operator--", IT + "::operator+=", IT + "::operator-=")
def m_it_step(eng, e, d, st, fr, obj, argv):
    p = it_val(eng, st, obj)
    if p is None:
        return None
    es = _it_es(eng, obj_type(eng, e, d))
    op = d["n"][8:]
    if op in ("++", "--"):
        k = Lin(es if op == "++" else -es)
        post = bool(argv)
    else:
        k = arglin(eng, d, st, argv, 0).scale(es)
        if op == "-=":
            k = -k
        post = False
    q = V().Ptr(p.reg, p.off + k, p.null)
    st = eng.write(st, obj, q)
    return [(st, p if post else V().Obj(obj))]


@model(IT + "::operator+", IT + "::operator-")
def m_it_plus(eng, e, d, st, fr, obj, argv):
    p = it_val(eng, st, obj)
    if p is None:
        return None
    k = arglin(eng, d, st, argv, 0).scale(_it_es(eng, obj_type(eng, e, d)))
    return [(st, V().Ptr(p.reg, p.off + k if d["n"] == "operator+" else p.off - k, p.null))]


@model(IT + "::base")
def m_it_base(eng, e, d, st, fr, obj, argv):
    p = it_val(eng, st, obj)
    return [(st, p)] if p is not None else None


@model(IT + "::__normal_iterator")
def m_it_ctor(eng, e, d, st, fr, obj, argv):
    return None


@model("__gnu_cxx::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator<", "__gnu_cxx::operator-")
def m_it_cmp(eng, e, d, st, fr, obj, argv):
    a, b = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1)

    def pv(x):
        if isinstance(x, V().Ptr):
            return x
        if isinstance(x, V().Obj):
            return it_val(eng, st, x.loc)
    pa, pb = pv(a), pv(b)
    op = d["n"][8:]
    if pa is not None and pb is not None and pa.reg == pb.reg:
        if op == "-":
            return eng.arith(st, "/", V().Num(pa.off - pb.off), V().Num(_it_es(eng, eng.strip(d["p"][0]))), rt(eng, d), e)
        return [(st, V().Bool(eng.compare(st, op, pa, pb)))]
    if op == "-":
        return [(st, unk(eng, d, st))]
    return [(st, V().Num(eng.fresh("itcmp", 0, 1)))]


@model("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::data", "std::empty")
def m_begin(eng, e, d, st, fr, obj, argv):
    k, v = argv[0]
    t = eng.strip(d["p"][0])
    if k != "ref":
        return None
    st = S(st)
    if t["k"] == "array":
        es = eng.sizeof(t["to"]) or 1
        n = Lin(t["n"])
        p = V().Ptr(v + ("[]",))
        st.store.setdefault(v + ("[]", "#bytes"), V().Num(n.scale(es)))
    elif t.get("q") in CONT:
        n = cont_size(eng, st, v, t)
        p, es = cont_data(eng, st, v, t)
    else:
        return None
    nm = d["n"]
    if nm in ("begin", "cbegin", "data"):
        return [(st, p)]
    if nm in ("end", "cend"):
        return [(st, V().Ptr(p.reg, p.off + n.scale(es), p.null))]
    if nm == "size":
        return [(st, V().Num(n))]
    return [(st, V().Bool(("eq", n)))]


# comparisons of class values ------------------------------------------------------------------------
@model("std::operator==", "std::operator!=", "std::operator<", "std::__detail::operator==", "std::__detail::operator!=")
def m_opeq(eng, e, d, st, fr, obj, argv):
    t0 = eng.strip(d["p"][0])
    op = d["n"][8:]
    if t0.get("q") in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr") and op in ("==", "!="):
        def pv(i):
            k, v = argv[i]
            t = eng.strip(d["p"][i])
            if t.get("q") in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr"):
                return smart_ptr(eng, st, v if k == "ref" else v.loc, is_array_up(t))
            return V().Ptr(V().NULLREG, Lin(0), Lin(1))
        st = S(st)
        a, b = pv(0), pv(1)
        return [(st, V().Bool(eng.compare(st, op, a, b)))]
    return [(st, V().Num(eng.fresh("cmpobj", 0, 1)))]


# maps -------------------------------------------------------------------------------------------------
MAPS = ("std::unordered_map", "std::map", "std::unordered_set", "std::set")


@model(*["%s::%s" % (m, n) for m in MAPS for n in ("find", "begin", "end", "cbegin", "cend")])
def m_mapit(eng, e, d, st, fr, obj, argv):
    loc = ("T:mit%d" % next(eng.ctr),)
    st = S(st)
    st.store[loc + ("#map",)] = V().Opq(V().locstr_u(obj))
    return [(st, V().Obj(loc))]


@model("std::__detail::_Node_const_iterator::operator->", "std::__detail::_Node_iterator::operator->", "std::_Rb_tree_iterator::operator->", "std::_Rb_tree_const_iterator::operator->")
def m_nodearrow(eng, e, d, st, fr, obj, argv):
    return [(st, V().Ptr(obj + ("#node",)))]


@model("std::__detail::_Node_const_iterator::operator*", "std::__detail::_Node_iterator::operator*", "std::_Rb_tree_iterator::operator*")
def m_nodestar(eng, e, d, st, fr, obj, argv):
    return [(st, V().Obj(obj + ("#node",)))]


@model(*["%s::%s" % (m, n) for m in MAPS for n in ("operator[]", "at")])
def m_mapidx(eng, e, d, st, fr, obj, argv):
    if d["n"] == "at":
        eng.may_throw(st, e)
    loc = obj + ("#el%d" % next(eng.ctr),)
    to = eng.strip(d["r"])
    if eng.writes is not None and d["n"] == "operator[]":
        for w in eng.writes:
            w.add(obj + ("#all",))
    if to["k"] in ("rec", "array"):
        return [(st, V().Obj(loc))]
    return [(st, V().Ptr(loc))]


@model(*["%s::%s" % (m, n) for m in MAPS for n in ("size",)])
def m_mapsize(eng, e, d, st, fr, obj, argv):
    return [(st, V().Num(size_of(eng, st, obj)))]


@model(*["%s::%s" % (m, n) for m in MAPS for n in ("empty",)])
def m_mapempty(eng, e, d, st, fr, obj, argv):
    return [(st, V().Bool(("eq", size_of(eng, st, obj))))]


@model(*["%s::%s" % (m, n) for m in MAPS for n in ("clear",)])
def m_mapclear(eng, e, d, st, fr, obj, argv):
    st = eng.havoc(st, obj)
    return [(setn(eng, st, obj, Lin(0)), V().VOID)]


# pure queries / no-effect calls ------------------------------------------------------------------------
def m_noop(eng, e, d, st, fr, obj, argv):
    t = rt(eng, d)
    if t["k"] == "void":
        return [(st, V().VOID)]
    if t["k"] == "ref":
        return [(st, eng.ref_result(st, e, t, d, None))]
    return [(st, unk(eng, d, st, d["n"]))]


PREFIX += [("spdlog::", m_noop), ("fmt::", m_noop), ("std::lock_guard", m_noop), ("std::basic_ostream", m_noop), ("std::exception::", m_noop),
           ("std::operator<<", m_noop)]
for _n in ("Logger::GetLogger",):
    pass


# ---------------------------------------------------------------------------------------------- constructors
def construct(eng, e, st, fr):
    d = eng.p.fdecls[e["fn"]]
    t = eng.T(e["t"])
    q = t.get("q", "") if t["k"] == "rec" else ""
    E = V()
    loc = ("T:%s%d" % ("c", next(eng.ctr)),)
    if t["k"] == "array":
        return [(st, E.Obj(loc))]
    out = []
    # copy / move construction
    if len(e["args"]) >= 1 and d["p"] and (d.get("copyctor") or d.get("movector") or _is_copy(eng, d, t)):
        for s, src in eng.lv(e["args"][0], st, fr):
            ns = eng.copy_obj_any(s, src, loc, t)
            out.append((ns, E.Obj(loc)))
        return out
    for s, argv in eng.args(e["args"], d["p"], st, fr):
        r = eng.on_construct(s, fr, e, d, loc, argv)
        if r is not None:
            out += r
            continue
        out += construct_at(eng, e, d, t, q, loc, s, fr, argv)
    return out


def _is_copy(eng, d, t):
    if len(d["p"]) < 1:
        return False
    pt = eng.T(d["p"][0])
    if pt["k"] != "ref":
        return False
    to = eng.T(pt["to"])
    return to["k"] == "rec" and to.get("rec") == t.get("rec")


def construct_at(eng, e, d, t, q, loc, st, fr, argv):
    E = V()
    nq = q
    if nq == "std::basic_string_view":
        st = S(st)
        if not argv:
            st.store[loc + ("#n",)] = E.Num(0)
            st.store[loc + ("#p",)] = E.Ptr(E.NULLREG, Lin(0), Lin(1))
            return [(st, E.Obj(loc))]
        p = argval(eng, d, st, argv, 0)
        if isinstance(p, E.Ptr):
            if len(argv) > 1:
                n = arglin(eng, d, st, argv, 1)
                access(eng, st, p, n, "r", e, fr)
            else:
                r = m_strlen(eng, e, d, st, fr, None, argv)
                st, nv = r[0]
                st = S(st)
                n = nv.l
            st.store[loc + ("#n",)] = E.Num(n)
            st.store[loc + ("#p",)] = p
            return [(st, E.Obj(loc))]
        return [(st, E.Obj(loc))]
    if nq == "std::basic_string":
        st = S(st)
        if not argv:
            st.store[loc + ("#n",)] = E.Num(0)
            return [(st, E.Obj(loc))]
        p = argval(eng, d, st, argv, 0)
        if isinstance(p, E.Ptr):
            pt1 = eng.strip(d["p"][1]) if len(d["p"]) > 1 else None
            if len(argv) > 1 and pt1 is not None and eng.is_num(pt1):
                n = arglin(eng, d, st, argv, 1)
                access(eng, st, p, n, "r", e, fr)
            elif len(argv) > 1 and isinstance(argval(eng, d, st, argv, 1), E.Ptr):
                b = argval(eng, d, st, argv, 1)
                n = b.off - p.off if b.reg == p.reg else eng.fresh("size", 0, SIZE_MAX)
                if b.reg == p.reg:
                    access(eng, st, p, n, "r", e, fr)
            else:
                st, nv = m_strlen(eng, e, d, st, fr, None, argv)[0]
                st = S(st)
                n = nv.l
            st.store[loc + ("#n",)] = E.Num(n)
            return [(st, E.Obj(loc))]
        pt0 = eng.strip(d["p"][0])
        if eng.is_num(pt0) and len(argv) > 1:
            st.store[loc + ("#n",)] = E.Num(arglin(eng, d, st, argv, 0))
        elif pt0.get("q") == "std::basic_string_view" and isinstance(p, E.Obj):
            st.store[loc + ("#n",)] = E.Num(size_of(eng, st, p.loc))
        else:
            st.store[loc + ("#n",)] = E.Num(eng.fresh("size", 0, SIZE_MAX))
        return [(st, E.Obj(loc))]
    if nq == "std::vector":
        st = S(st)
        n = None
        if not argv:
            n = Lin(0)
        else:
            pt0 = eng.strip(d["p"][0])
            if eng.is_num(pt0):
                n = arglin(eng, d, st, argv, 0)
            elif pt0.get("q") == "std::initializer_list":
                v = argval(eng, d, st, argv, 0)
                if isinstance(v, E.Obj):
                    n = size_of(eng, st, v.loc)
                    for k, x in list(st.store.items()):
                        if k[:len(v.loc) + 2] == v.loc + ("#d", "[]"):
                            st.store[loc + ("#d", "[]") + k[len(v.loc) + 2:]] = x
            elif len(argv) > 1:
                a, b = argval(eng, d, st, argv, 0), argval(eng, d, st, argv, 1)
                if isinstance(a, E.Ptr) and isinstance(b, E.Ptr) and a.reg == b.reg:
                    et = elem_type(eng, t)
                    es = eng.sizeof(et) or 1
                    r = eng.arith(st, "/", E.Num(b.off - a.off), E.Num(es), {"k": "int", "u": 1, "w": 64, "s": "size_t"}, e)
                    st, nv = r[0]
                    st = S(st)
                    n = nv.l
        if n is None:
            n = eng.fresh("size", 0, SIZE_MAX)
        st.store[loc + ("#n",)] = E.Num(n)
        return [(st, E.Obj(loc))]
    if nq in ("std::unique_ptr", "std::shared_ptr"):
        st = S(st)
        if not argv or (len(d["p"]) and eng.strip(d["p"][0])["k"] == "nullptr"):
            st.store[loc + ("#p",)] = E.Ptr(E.NULLREG, Lin(0), Lin(1))
            return [(st, E.Obj(loc))]
        st = assign_smart(eng, st, loc, argv[0], eng.strip(d["p"][0]), e, fr)
        return [(st, E.Obj(loc))]
    if nq == "std::optional":
        st = S(st)
        if not argv or eng.strip(d["p"][0]).get("q") == "std::nullopt_t":
            st.store[loc + ("#has",)] = E.Num(0)
        elif eng.strip(d["p"][0]).get("q") == "std::optional":
            pass
        else:
            st.store[loc + ("#has",)] = E.Num(1)
            v = argval(eng, d, st, argv, 0)
            if not isinstance(v, E.Obj):
                st.store[loc + ("#v",)] = v
            else:
                st = eng.copy_obj_any(st, v.loc, loc + ("#v",), eng.strip(d["p"][0]))
        return [(st, E.Obj(loc))]
    if nq == "std::function":
        v = argval(eng, d, st, argv, 0) if argv else None
        if isinstance(v, (E.Clo, E.FnV)):
            st = S(st)
            st.store[loc] = v
            return [(st, v)]
        return [(st, E.Obj(loc))]
    if nq == "std::pair" and len(argv) == 2:
        st = S(st)
        for i, nm in enumerate(("first", "second")):
            v = argval(eng, d, st, argv, i)
            f = rec_field(eng, t.get("rec"), nm)
            if isinstance(v, E.Obj):
                st = eng.copy_obj_any(st, v.loc, loc + (f,), eng.strip(d["p"][i]))
            else:
                st.store[loc + (f,)] = v
        return [(st, E.Obj(loc))]
    if q.startswith(IT):
        v = argval(eng, d, st, argv, 0) if argv else None
        if isinstance(v, E.Ptr):
            return [(st, v)]
        if isinstance(v, E.Obj):
            p = it_val(eng, st, v.loc)
            if p is not None:
                return [(st, p)]
        return [(st, E.Obj(loc))]
    f = eng.p.funs.get(e["fn"])
    if f is not None:
        if d.get("ctor") and eng.can_inline(f, fr):
            st = default_members(eng, st, loc, t)
            return [(s, E.Obj(loc)) for s, _ in eng.inline(f, st, fr, loc, argv, e)]
    elif not argv and t["k"] == "rec" and t.get("rec") in eng.p.recs and "f" in eng.p.recs[t["rec"]]:
        # implicit default construction: default member initialisers
        out = default_construct(eng, st, loc, t, fr, e)
        return [(s, E.Obj(loc)) for s in out]
    st = eng.havoc_args(st, argv, d, e)
    return [(st, E.Obj(loc))]


def default_members(eng, st, loc, t):
    return st


def default_construct(eng, st, loc, t, fr, e):
    """Implicit default constructor: bases, then members with their initialisers."""
    r = eng.p.recs.get(t.get("rec"))
    sts = [st]
    for b in r["b"]:
        sts = [y for x in sts for y in default_construct(eng, x, loc, eng.T(b), fr, e)] if eng.T(b).get("rec") in eng.p.recs and "f" in eng.p.recs[eng.T(b)["rec"]] else sts
    for f in r.get("f", []):
        ft = eng.T(f["t"])
        fl = loc + ("f:" + f["id"],)
        ns = []
        for s in sts:
            if f.get("init"):
                nfr = V().Frame(fr.fn, loc, fr.depth, fr.key, fr.parent)
                for s2, v in eng.ev(f["init"], s, nfr):
                    s2, _ = eng.assign(s2, fl, v, ft, e, fr)
                    ns.append(s2)
            else:
                ns.append(declare(eng, s, fl, ft))
        sts = ns
    return sts


def declare(eng, st, loc, t):
    """A class object comes into existence at loc by default initialisation."""
    q = t.get("q", "")
    E = V()
    if q in ("std::vector", "std::basic_string", "std::basic_string_view"):
        st = S(st)
        st.store[loc + ("#n",)] = E.Num(0)
    elif q == "std::optional":
        st = S(st)
        st.store[loc + ("#has",)] = E.Num(0)
    elif q in ("std::unique_ptr", "std::shared_ptr"):
        st = S(st)
        st.store[loc + ("#p",)] = E.Ptr(E.NULLREG, Lin(0), Lin(1))
    return st


def materialise(eng, st, loc, t):
    q = t.get("q", "")
    if q in ("std::vector", "std::basic_string", "std::basic_string_view"):
        size_of(eng, st, loc)
        if q == "std::basic_string_view":
            cont_data(eng, st, loc, t)
    elif q in ("std::unique_ptr", "std::shared_ptr"):
        smart_ptr(eng, st, loc, is_array_up(t))
    elif q == "std::optional":
        opt_has(eng, st, loc)


# ---------------------------------------------------------------------------------------------- range for
def range_for(eng, s, st, fr, out):
    """for (v : range) body.  Contiguous ranges iterate an index; others run the body an unknown number of times."""
    E = V()
    rng = s["r"]
    t = eng.strip(rng["t"])
    exits = []
    for s1, loc in eng.lv(rng, st, fr):
        s1 = S(s1)
        n = None
        if t["k"] == "array":
            n, es, p = Lin(t["n"]), eng.sizeof(t["to"]) or 1, E.Ptr(loc + ("[]",))
            s1.store.setdefault(loc + ("[]", "#bytes"), E.Num(n.scale(es)))
            et = t["to"]
        elif t.get("q") in CONT:
            n = cont_size(eng, s1, loc, t)
            p, es = cont_data(eng, s1, loc, t)
            et = elem_type(eng, t)
        elif t.get("q") == "std::initializer_list":
            n = size_of(eng, s1, loc)
            et = elem_type(eng, t)
            es = eng.sizeof(et) or 1
            p = E.Ptr(loc + ("#d", "[]"))
        exits += eng.range_loop(s, s1, fr, out, loc, t, n, p if n is not None else None, es if n is not None else None, et if n is not None else None)
    return exits
