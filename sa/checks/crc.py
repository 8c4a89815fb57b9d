"""Every checksum routine equals bitwise polynomial division, for every length, content and initial value."""
from ..gf2 import Bits, B, N, P, O, SV, Unsupported, OutOfBlock, NotAffine, nadd, norm
from ..program import AnalysisError
from ..report import where

BLOCK = 64


class Ref:
    def __init__(self, w, poly, rev):
        self.w, self.poly, self.rev = w, poly, rev

    def zero(self, v, nbits=8):
        w = self.w
        b = list(v)
        for _ in range(nbits):
            if self.rev:
                lo = b[0]
                b = b[1:] + [0]
            else:
                lo = b[-1]
                b = [0] + b[:-1]
            if lo:
                for i in range(w):
                    if self.poly >> i & 1:
                        b[i] ^= lo
        return b

    def byte(self, v, m):
        b = list(v)
        o = 0 if self.rev else self.w - 8
        for i in range(8):
            b[o + i] ^= m[i]
        return self.zero(b)

    def block(self, v, ms):
        for m in ms:
            v = self.byte(v, m)
        return v

    def shift(self, v, n):
        for _ in range(n):
            v = self.zero(v)
        return v


def targ(v):
    v = v.get("v")
    if isinstance(v, str) and v.startswith("#"):
        return int(v[1:])
    return v


def targets(prog):
    """(function, kind, width, poly, reflected)"""
    out = []
    for f in prog.funs.values():
        d = f["decl"]
        n, q = d["n"], d["q"]
        if not q.startswith("novatel::edie::"):
            continue
        if n in ("CalculateCharacterCrc", "CalculateBlockCrc") and d.get("ta") and len(d["ta"]) == 3:
            w = prog.types[d["ta"][0]["t"]]["w"]
            poly, rev = targ(d["ta"][1]) & ((1 << w) - 1), bool(targ(d["ta"][2]))
        elif n in ("CalculateCharacterCrc32", "CalculateBlockCrc32"):
            w = 32
            if d.get("ta"):
                poly, rev = targ(d["ta"][0]) & 0xFFFFFFFF, bool(targ(d["ta"][1]))
            else:
                poly, rev = 0xEDB88320, True
        else:
            continue
        kind = "char" if "Character" in n else ("ptr" if prog.types[f["params"][0]["t"]]["k"] == "ptr" else "sv")
        out.append((f, kind, w, poly, rev))
    return out


def colmask(bits, mask):
    return [b & mask for b in bits]


class Runner:
    def __init__(self, prog, f, kind, ref):
        self.prog, self.f, self.kind, self.ref = prog, f, kind, ref

    def start(self, n):
        eng = Bits(self.prog)
        eng.lenval = n
        self.bytes = {}
        self.init = None

        def ext(e, off):
            return self.byte(e, off)
        blk = O(1, 0, "block", ext=ext)
        fr = {}
        ps = self.f["params"]
        o = eng.newobj(ps[0]["t"], ps[0]["n"])
        if self.kind == "ptr":
            o.cells[0] = P(blk, 0)
            fr[ps[0]["id"]] = P(o, 0)
            c = eng.newobj(ps[1]["t"], ps[1]["n"])
            c.cells[0] = n
            fr[ps[1]["id"]] = P(c, 0)
            rest = ps[2:]
        else:
            o.cells = [SV(P(blk, 0), n)]
            fr[ps[0]["id"]] = P(o, 0)
            rest = ps[1:]
        self.init = [0] * self.ref.w
        if rest:
            c = eng.newobj(rest[0]["t"], rest[0]["n"])
            wd = eng.word("init", self.ref.w)
            self.init = list(wd.b)
            c.cells[0] = wd
            fr[rest[0]["id"]] = P(c, 0)
        if len(rest) > 1:
            raise Unsupported("unexpected parameters")
        return eng, fr

    def byte(self, e, off):
        n = e.lenval
        if e.inloop is not None:
            k = off.t.get("t", 0) if isinstance(off, N) else 0
            lg = e.inloop
            if not isinstance(off, N) or set(off.t) != {"t"}:
                lg["fixed"] = off       # acceptable only while the loop's counters are still being identified
                return e.word("probe", 8)
            if lg["stride"] not in (None, k):
                raise Unsupported("two read strides in one loop")
            lg["stride"] = k
            j = off.c
            lg["lo"] = j if lg["lo"] is None else min(lg["lo"], j)
            lg["hi"] = max(lg["hi"], j + 1)
            if j not in lg["vars"]:
                lg["vars"][j] = e.word("loop%d" % j, 8)
            return lg["vars"][j]
        if isinstance(n, int):
            if not isinstance(off, int):
                raise Unsupported("symbolic position")
            if off < 0 or off >= n:
                raise OutOfBlock("reads byte %d of a %d-byte block" % (off, n), e.line)
            if off not in self.bytes:
                self.bytes[off] = e.word("byte%d" % off, 8)
            return self.bytes[off]
        if e.summary is None:
            raise Unsupported("reads before the block loop")
        s = e.summary
        k = s["log"]["stride"]
        if k is None:
            raise Unsupported("the block loop reads nothing")
        done = s["tstar"].mul(k) if isinstance(s["tstar"], N) else s["tstar"] * k
        rel = nadd(off, done, -1) if not (isinstance(off, int) and isinstance(done, int)) else off - done
        r = nadd(n, done, -1)
        if not isinstance(rel, int) or not isinstance(r, int):
            raise Unsupported("position %r after the loop" % (off,))
        if rel < 0 or rel >= r:
            raise OutOfBlock("reads byte %d of the %d bytes left after the block loop" % (rel, r), e.line)
        if rel not in self.bytes:
            self.bytes[rel] = e.word("rest%d" % rel, 8)
        return self.bytes[rel]

    def concrete(self, n):
        eng, fr = self.start(n)
        v = eng.tob(eng.invoke(self.f, fr), self.ref.w)
        ms = [self.bytes[j].b if j in self.bytes else None for j in range(n)]
        if any(m is None for m in ms):
            return False, "byte %d of a block of %d does not influence the result" % (ms.index(None), n)
        exp = self.ref.block(self.init, ms)
        for i, (a, b) in enumerate(zip(v.b, exp)):
            if a != b:
                d = a ^ b
                return False, "for %d bytes, result bit %d differs in the contribution of %s" % (n, i, eng.varname[d.bit_length() - 1])
        return True, ""

    def symbolic(self, r):
        n = N(r, {"q": BLOCK})
        eng, fr = self.start(n)
        v = eng.tob(eng.invoke(self.f, fr), self.ref.w)
        s = eng.summary
        if s is None:
            raise Unsupported("no loop over the block")
        k = s["log"]["stride"]
        if "fixed" in s["log"]:
            return False, "the block loop reads position %r on every iteration" % (s["log"]["fixed"],)
        if k is None or k <= 0:
            raise Unsupported("the block loop reads nothing")
        if s["log"]["lo"] < 0 or s["log"]["hi"] > k:
            return False, "an iteration advancing %d bytes reads bytes %d..%d" % (k, s["log"]["lo"], s["log"]["hi"] - 1)
        if sorted(s["log"]["vars"]) != list(range(k)):
            return False, "an iteration advancing %d bytes ignores byte %d" % (k, min(set(range(k)) - set(s["log"]["vars"])))
        done = s["tstar"].mul(k) if isinstance(s["tstar"], N) else s["tstar"] * k
        left = nadd(n, done, -1)
        if not isinstance(left, int) or left < 0:
            return False, "the block loop ends %r bytes before the end of the block" % (left,)
        ref, w = self.ref, self.ref.w
        # V: contribution of the state on exit
        sub = {}
        toh = {}
        toe = {}
        for key, ex in s["exit"].items():
            h = s["state"][key]
            af = eng.tob(s["after"][key], len(ex.b))
            en = s["entry"][key]
            if en is None:
                en = 0
                en = B([0] * len(ex.b))
            en = eng.tob(en, len(ex.b))
            for a, b, c, d in zip(ex.b, af.b, h.b, en.b):
                sub[a], toh[a], toe[a] = b, c, d
        exmask = sum(sub)

        def subst(form, mp):
            out, f = 0, form & exmask
            while f:
                low = f & -f
                out ^= mp[low]
                f ^= low
            return out
        stepped = [subst(b, sub) for b in v.b]
        head = [subst(b, toh) for b in v.b]
        entry = [subst(b, toe) for b in v.b]
        tail = [b & ~exmask for b in v.b]
        lv = [s["log"]["vars"][j].b for j in range(k)]
        exp = [a ^ b for a, b in zip(ref.shift(head, k), ref.shift(ref.block([0] * w, lv), left))]
        for i, (a, b) in enumerate(zip(stepped, exp)):
            if a != b:
                d = a ^ b
                return False, "one iteration of the block loop is not %d steps of the division (result bit %d, contribution of %s)" % (k, i, eng.varname[d.bit_length() - 1])
        exp = ref.shift(self.init, left)
        if entry != exp:
            return False, "the state entering the block loop does not represent the initial value"
        ms = [self.bytes[j].b if j in self.bytes else None for j in range(left)]
        if any(m is None for m in ms):
            return False, "the last %d bytes do not all influence the result" % left
        exp = ref.block([0] * w, ms)
        if tail != exp:
            i = [a == b for a, b in zip(tail, exp)].index(False)
            return False, "the last %d bytes are folded in wrongly (result bit %d)" % (left, i)
        return True, ""


def character(prog, f, ref):
    eng = Bits(prog)
    crc, ch = eng.word("crc", ref.w), eng.word("char", 8)
    ps = f["params"]
    a, b = eng.newobj(ps[0]["t"], "crc"), eng.newobj(ps[1]["t"], "char")
    a.cells[0], b.cells[0] = crc, ch
    eng.invoke(f, {ps[0]["id"]: P(a, 0), ps[1]["id"]: P(b, 0)})
    got = eng.tob(a.cells[0], ref.w).b
    exp = ref.byte(list(crc.b), ch.b)
    if list(got) == exp:
        return True, ""
    i = [x == y for x, y in zip(got, exp)].index(False)
    return False, "bit %d of the accumulated checksum is wrong" % i


def guarded(fn):
    try:
        return fn()
    except OutOfBlock as ex:
        return False, "%s (line %s)" % (ex, ex.line)
    except NotAffine as ex:
        return False, str(ex)


def run(prog, res, tier="quick"):
    tg = targets(prog)
    res.floor("checksum_functions", len(tg), 8)
    widths = set()
    nform = 0
    for f, kind, w, poly, rev in sorted(tg, key=lambda x: (x[0]["file"], x[0]["line"], x[2], x[4])):
        ref = Ref(w, poly, rev)
        widths.add((w, rev))
        label = "%s<%d bits, 0x%X, %s>" % (f["q"], w, poly, "reflected" if rev else "forward")
        if kind == "char":
            ok, why = guarded(lambda: character(prog, f, ref))
            res.ob(ok, where(f), "crc-step", "%s is one step of the polynomial division" % label, why)
            nform += 1
            continue
        r = Runner(prog, f, kind, ref)
        bad = None
        for n in range(0, Bits.QMIN * BLOCK):
            ok, why = guarded(lambda: r.concrete(n))
            nform += 1
            if not ok:
                bad = why
                break
        res.ob(bad is None, where(f), "crc-short", "%s equals the polynomial division on blocks below %d bytes" % (label, Bits.QMIN * BLOCK), bad or "")
        bad = None
        for c in range(BLOCK):
            ok, why = guarded(lambda: r.symbolic(c))
            nform += 1
            if not ok:
                bad = "length = %d modulo %d: %s" % (c, BLOCK, why)
                break
        res.ob(bad is None, where(f), "crc-inductive", "%s equals the polynomial division on blocks of every greater length (induction over the block loop)" % label, bad or "")
    res.coverage["equations_compared"] = nform
    res.floor("width_order_combinations", len(widths), 1)
