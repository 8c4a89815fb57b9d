"""Bit-level abstract interpreter: integers are vectors of affine forms over GF(2), counters are linear in symbolic
iteration numbers, unbounded loops are summarised inductively (one generic iteration), nothing is executed or enumerated per input.

A value is one of
  int            a constant
  B(bits)        w affine forms; each form is a Python int used as a bit mask over variables (bit 0 is the constant 1)
  N(c, terms)    an integer, linear in the symbols q (block count) and t (iteration number)
  P(obj, off)    a pointer (byte offset int or N)
"""
from .program import AnalysisError


class Unsupported(AnalysisError):
    pass


class OutOfBlock(Exception):
    def __init__(self, msg, line):
        super().__init__(msg)
        self.line = line


class B:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, B) and self.b == o.b

    def __hash__(self):
        return hash(self.b)


class N:
    __slots__ = ("c", "t")

    def __init__(self, c, t=None):
        self.c = c
        self.t = {k: v for k, v in (t or {}).items() if v}

    def add(self, o, s=1):
        if isinstance(o, int):
            return norm(N(self.c + s * o, self.t))
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + s * v
        return norm(N(self.c + s * o.c, t))

    def mul(self, k):
        return norm(N(self.c * k, {a: b * k for a, b in self.t.items()}))

    def __eq__(self, o):
        return isinstance(o, N) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, tuple(sorted(self.t.items()))))

    def __repr__(self):
        return "N(%d,%r)" % (self.c, self.t)


def norm(n):
    return n.c if isinstance(n, N) and not n.t else n


def nadd(a, b, s=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + s * b
    if isinstance(a, int):
        a = N(a)
    return a.add(b, s)


class P:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __eq__(self, x):
        return isinstance(x, P) and self.o is x.o and self.off == x.off

    def __hash__(self):
        return hash((id(self.o), self.off))


class O:
    """Storage: `n` cells of `es` bytes, or (ext) the input block."""
    __slots__ = ("es", "cells", "ext", "name", "typ", "fields", "const")

    def __init__(self, es, n, name="", ext=None, typ=None):
        self.es, self.cells, self.ext, self.name, self.typ, self.fields, self.const = es, [None] * n, ext, name, typ, None, False


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass



class Bits:
    QMIN = 2

    def __init__(self, prog):
        self.p = prog
        self.nvars = 1              # variable 0 is the constant
        self.varname = ["1"]
        self.env = [{}]
        self.objs = []
        self.globs = {}
        self.steps = 0
        self.summary = None         # the inductive loop met so far
        self.inloop = None          # (stride collected) while interpreting the generic iteration
        self.bytevars = {}
        self.lenval = None          # length of the input block (int or N)
        self.maxstep = 3000000
        self.line = 0
        self.tabcache = {}
        self.on_bit_branch = True

    # ---- variables ------------------------------------------------------------------------------
    def var(self, name):
        self.varname.append(name)
        self.nvars += 1
        return 1 << (self.nvars - 1)

    def word(self, name, w):
        return B([self.var("%s.%d" % (name, i)) for i in range(w)])

    # ---- types ----------------------------------------------------------------------------------
    def T(self, t):
        return self.p.types[t]

    def strip(self, t):
        x = self.T(t)
        while x["k"] in ("lref", "rref", "ref", "typedef"):
            x = self.T(x["to"])
        return x

    def isref(self, t):
        return self.T(t)["k"] in ("lref", "rref", "ref")

    def intinfo(self, t):
        x = self.strip(t)
        if x["k"] == "bool":
            return 1, False, True
        if x["k"] in ("int", "enum", "char"):
            return x["w"], not x.get("u"), False
        return None

    def sizeof(self, x):
        if isinstance(x, int):
            x = self.strip(x)
        s = x.get("sz")
        if s is None:
            raise Unsupported("size of %s unknown" % x.get("s"))
        return s

    def leaf(self, x):
        """(leaf element size, count) of a possibly nested array type."""
        if isinstance(x, int):
            x = self.strip(x)
        if x["k"] == "array":
            e, c = self.leaf(x["to"])
            return e, c * x["n"]
        if x["k"] == "rec" and (x.get("q") or x.get("s", "")).startswith("std::array"):
            e, c = self.leaf(x["ta"][0]["t"])
            return e, c * int(x["ta"][1]["v"])
        return self.sizeof(x), 1

    def elemtype(self, x):
        if x["k"] == "array" or x["k"] == "ptr":
            return x["to"]
        if x["k"] == "rec" and (x.get("q") or x.get("s", "")).startswith("std::array"):
            return x["ta"][0]["t"]
        raise Unsupported("element type of %s" % x.get("s"))

    # ---- values ---------------------------------------------------------------------------------
    def tob(self, v, w, sg=False):
        if isinstance(v, B):
            if len(v.b) == w:
                return v
            if len(v.b) > w:
                return B(v.b[:w])
            return B(v.b + ((v.b[-1] if sg else 0),) * (w - len(v.b)))
        if isinstance(v, int):
            return B([(v >> i) & 1 for i in range(w)])
        raise Unsupported("a counter is used as data at line %s" % self.line)

    @staticmethod
    def toint(v):
        if isinstance(v, B) and all(x in (0, 1) for x in v.b):
            return sum(x << i for i, x in enumerate(v.b))
        return v

    def wrap(self, v, t):
        ii = self.intinfo(t)
        if ii is None:
            return v
        w, sg, bl = ii
        if isinstance(v, int):
            if bl:
                return 1 if v else 0
            v &= (1 << w) - 1
            if sg and v >> (w - 1):
                v -= 1 << w
            return v
        if isinstance(v, B):
            if bl:
                return self.nonzero(v)
            v = self.tob(v, w, False)
            r = self.toint(v)
            if isinstance(r, int):
                return self.wrap(r, t)
            return v
        if isinstance(v, N) and w < 32:
            raise OutOfBlock("a %d-bit counter cannot follow a block of arbitrary length" % w, self.line)
        return v                    # counters: bounded by the block-length assumption

    def nonzero(self, v):
        if isinstance(v, int):
            return 1 if v else 0
        if isinstance(v, P):
            return 1
        if isinstance(v, B):
            nz = [x for x in v.b if x != 0]
            if not nz:
                return 0
            if 1 in nz:
                return 1
            if len(set(nz)) == 1:
                return B([nz[0]])
            raise Unsupported("branch on a non-affine condition at line %s" % self.line)
        raise Unsupported("truth value of a counter at line %s" % self.line)

    # ---- memory ---------------------------------------------------------------------------------
    def newobj(self, t, name, n=None):
        x = self.strip(t)
        es, c = self.leaf(x)
        o = O(es, n if n is not None else c, name, typ=x)
        self.objs.append(o)
        return o

    def cellbytes(self, o, i, sg=False):
        v = o.cells[i]
        if v is None:
            raise Unsupported("read of uninitialised storage %s at line %s" % (o.name, self.line))
        return self.tob(v, o.es * 8, False)

    def load(self, p, size):
        if not isinstance(p, P):
            raise Unsupported("load through %r" % (p,))
        o, off = p.o, p.off
        if o.ext is not None:
            bits = []
            for k in range(size):
                bits += self.extbyte(o, nadd(off, k)).b
            return B(bits)
        if not isinstance(off, int):
            raise Unsupported("symbolic position inside %s at line %s" % (o.name, self.line))
        if off < 0 or off + size > o.es * len(o.cells):
            raise OutOfBlock("access to %s[%d..%d) of %d bytes" % (o.name, off, off + size, o.es * len(o.cells)), self.line)
        if size == o.es and off % o.es == 0:
            v = o.cells[off // o.es]
            if v is None:
                raise Unsupported("read of uninitialised storage %s at line %s" % (o.name, self.line))
            return v
        bits = []
        for k in range(off, off + size):
            cb = self.cellbytes(o, k // o.es)
            bits += cb.b[8 * (k % o.es):8 * (k % o.es) + 8]
        return self.toint(B(bits))

    def store(self, p, size, v):
        if not isinstance(p, P) or p.o.ext is not None:
            raise Unsupported("store through %r at line %s" % (p, self.line))
        o, off = p.o, p.off
        if o.const:
            raise Unsupported("store into constant %s" % o.name)
        if not isinstance(off, int):
            raise Unsupported("symbolic position inside %s at line %s" % (o.name, self.line))
        if off < 0 or off + size > o.es * len(o.cells):
            raise OutOfBlock("access to %s[%d..%d) of %d bytes" % (o.name, off, off + size, o.es * len(o.cells)), self.line)
        if size == o.es and off % o.es == 0:
            o.cells[off // o.es] = v
            return
        vb = self.tob(v, size * 8)
        for k in range(size):
            c, r = (off + k) // o.es, (off + k) % o.es
            old = list(self.tob(o.cells[c] if o.cells[c] is not None else 0, o.es * 8).b)
            old[8 * r:8 * r + 8] = vb.b[8 * k:8 * k + 8]
            o.cells[c] = self.toint(B(old))

    def extbyte(self, o, off):
        """The byte of the input block at a (possibly symbolic) position, relative to the current phase of the program."""
        return o.ext(self, off)

    # ---- conditions -----------------------------------------------------------------------------
    def cmp(self, op, a, b):
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P) and a.o is b.o:
                a, b = a.off, b.off
            elif op in ("==", "!="):
                return 1 if op == "!=" else 0
            else:
                raise Unsupported("pointer comparison")
        if isinstance(a, B) or isinstance(b, B):
            w = max(len(a.b) if isinstance(a, B) else 0, len(b.b) if isinstance(b, B) else 0)
            if op in ("==", "!="):
                w = max([w] + [x.bit_length() for x in (a, b) if isinstance(x, int)])
                x = self.nonzero(self.toint(B([p ^ q for p, q in zip(self.tob(a, w).b, self.tob(b, w).b)])))
                if op == "!=":
                    return x
                return (1 - x) if isinstance(x, int) else B([x.b[0] ^ 1])
            raise Unsupported("ordering comparison of data at line %s" % self.line)
        d = nadd(a, b, -1)
        if isinstance(d, int):
            return 1 if {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op] else 0
        s = self.sign(d)
        if s is None:
            raise SymCond(op, d)
        return 1 if {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0, "==": False, "!=": s != 0}[op] and s != "z" else 0

    def sign(self, d):
        """Sign of a linear form that does not mention t, for every q >= QMIN; None when it depends on t."""
        if "t" in d.t:
            return None
        k = d.t.get("q", 0)
        lo = d.c + k * self.QMIN
        if k > 0 and lo > 0:
            return 1
        if k < 0 and lo < 0:
            return -1
        raise Unsupported("sign of %r is not uniform" % (d,))

    # ---- expressions ----------------------------------------------------------------------------
    def lv(self, e):
        """-> P"""
        k = e["k"]
        self.line = e.get("l") or self.line
        if k == "Var":
            f = self.env[-1]
            if e["id"] in f:
                return f[e["id"]]
            if e["id"] in self.globs:
                return self.globs[e["id"]]
            return self.glob(e)
        if k == "Idx":
            b, i = self.ev(e["b"]), self.ev(e["i"])
            if not isinstance(b, P):
                b, i = i, b
            s = self.sizeof(e["t"])
            return self.ptradd(b, i, s, self.strip(e["t"]))
        if k == "Un" and e["op"] == "*":
            v = self.ev(e["s"])
            if not isinstance(v, P):
                raise Unsupported("dereference of %r" % (v,))
            return v
        if k == "Un" and e["op"] in ("++", "--") and not e.get("post"):
            p = self.lv(e["s"])
            self.incdec(e, p)
            return p
        if k == "Asg":
            self.ev(e)
            return self.lv(e["a"])
        if k == "Cast" and e["ck"] in ("NoOp", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase"):
            return self.lv(e["s"])
        if k == "Cond":
            c = self.ev(e["c"])
            if isinstance(c, int):
                return self.lv(e["a"] if c else e["b"])
            raise Unsupported("conditional lvalue")
        if k == "Call":
            r = self.call(e)
            if isinstance(r, (P, LUT)):
                return r
            raise Unsupported("call result is not an lvalue at line %s" % self.line)
        if k == "Mem":
            b = self.ev(e["b"]) if e.get("arrow") else self.lv(e["b"])
            o = b.o
            if o.fields is None:
                o.fields = {}
            if e["f"] not in o.fields:
                o.fields[e["f"]] = self.newobj(e["ft"] if "ft" in e else e["t"], "%s.%s" % (o.name, e["n"]))
            return P(o.fields[e["f"]], 0)
        # materialised temporary
        v = self.ev(e)
        if isinstance(v, O):
            return P(v, 0)
        o = self.newobj(e["t"], "temporary")
        self.store(P(o, 0), self.sizeof(e["t"]), v)
        return P(o, 0)

    def ptradd(self, b, i, s, et=None):
        if isinstance(i, B):
            if b.o.ext is not None or isinstance(b.off, N):
                raise Unsupported("data-dependent position in the block at line %s" % self.line)
            return LUT(b, i, s)
        if isinstance(i, N):
            return P(b.o, nadd(b.off, i.mul(s)))
        return P(b.o, nadd(b.off, i * s))

    def glob(self, e):
        g = self.p.globs.get(e["id"])
        if g is None or "init" not in g:
            raise Unsupported("global %s has no initialiser" % e.get("n"))
        key = e["id"]
        shared = getattr(self.p, "_gf2_globs", None)
        if shared is None:
            shared = self.p._gf2_globs = {}
        if key in shared:
            self.globs[key] = shared[key]
            return shared[key]
        o = self.newobj(g["t"], g["n"])
        self.env.append({})
        sv = self.inloop
        self.inloop = None
        try:
            self.initialise(P(o, 0), g["t"], g["init"])
        finally:
            self.inloop = sv
            self.env.pop()
        o.const = True
        self.globs[key] = shared[key] = P(o, 0)
        return self.globs[key]

    def rd(self, p, t):
        x = self.strip(t)
        if isinstance(p, LUT):
            return p.read(self, t)
        if x["k"] in ("array", "rec"):
            return p
        size = 8 if x["k"] == "ptr" else self.sizeof(x)
        v = self.load(p, size)
        if isinstance(v, B):
            r = self.toint(v)
            if isinstance(r, int):
                return self.wrap(r, t)
            return r
        if isinstance(v, int):
            return self.wrap(v, t)
        return v

    def ev(self, e):
        self.steps += 1
        if self.steps > self.maxstep:
            raise Unsupported("interpretation budget exhausted")
        k = e["k"]
        if "cv" in e and not e.get("lv"):
            return self.wrap(e["cv"], e["t"]) if isinstance(e["cv"], int) else self.bigcv(e)
        self.line = e.get("l") or self.line
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression kind %s at line %s" % (k, self.line))
        return m(e)

    def bigcv(self, e):
        v = e["cv"]
        if isinstance(v, str) and v.startswith("#"):
            return self.wrap(int(v[1:]), e["t"])
        if isinstance(v, bool):
            return int(v)
        raise Unsupported("constant %r" % (v,))

    def e_Int(self, e):
        return self.wrap(e.get("cv", e.get("v", 0)), e["t"])

    def e_Zero(self, e):
        return 0

    def e_SizeOf(self, e):
        return self.sizeof(e["at"])

    def e_Cast(self, e):
        ck = e["ck"]
        if ck == "LValueToRValue":
            return self.rd(self.lv(e["s"]), e["t"])
        if ck in ("NoOp", "BitCast", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay"):
            if e.get("lv"):
                return self.lv(e["s"])
            return self.ev(e["s"])
        if ck == "ArrayToPointerDecay":
            return self.lv(e["s"])
        if ck in ("IntegralCast",):
            v = self.ev(e["s"])
            if isinstance(v, B):
                ii = self.intinfo(e["s"]["t"])
                jj = self.intinfo(e["t"])
                v = self.tob(v, jj[0], ii[1])
                r = self.toint(v)
                return self.wrap(r, e["t"])
            return self.wrap(v, e["t"])
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            return self.nonzero(self.ev(e["s"]))
        if ck == "ToVoid":
            self.ev(e["s"])
            return None
        raise Unsupported("cast %s at line %s" % (ck, self.line))

    def e_Var(self, e):
        return self.rd(self.lv(e), e["t"])

    def e_Idx(self, e):
        return self.rd(self.lv(e), e["t"])

    def e_Mem(self, e):
        return self.rd(self.lv(e), e["t"])

    def e_Cond(self, e):
        c = self.ev(e["c"])
        if isinstance(c, int):
            return self.ev(e["a"] if c else e["b"])
        a, b = self.ev(e["a"]), self.ev(e["b"])
        return self.mux(c, a, b, e["t"])

    def mux(self, c, a, b, t):
        if a == b:
            return a
        if isinstance(a, (P, N)) or isinstance(b, (P, N)):
            raise Unsupported("data-dependent counter at line %s" % self.line)
        w = self.intinfo(t)[0] if t is not None else max(len(x.b) for x in (a, b) if isinstance(x, B))
        cb = c.b[0]
        out = []
        for x, y in zip(self.tob(a, w).b, self.tob(b, w).b):
            # assume the condition in each arm: x is only used when c=1, y when c=0
            d = x ^ y
            if d == 0:
                out.append(x)
            elif d == 1:
                out.append(y ^ cb)
            elif d == cb:
                out.append(x)       # c=1: x=y^1.. => value y ^ c*c = y^c = x
            elif d == (cb ^ 1):
                out.append(y)       # c*(c^1) = 0
            else:
                raise Unsupported("data-dependent choice is not affine at line %s" % self.line)
        return self.toint(B(out))

    def e_Un(self, e):
        op = e["op"]
        if op == "&":
            return self.lv(e["s"])
        if op == "*":
            return self.rd(self.lv(e), e["t"])
        if op in ("++", "--"):
            p = self.lv(e["s"])
            old = self.incdec(e, p)
            if e.get("post"):
                return old
            return self.rd(p, e["t"]) if not e.get("lv") else p
        v = self.ev(e["s"])
        if op == "!":
            x = self.nonzero(v)
            return (1 - x) if isinstance(x, int) else B([x.b[0] ^ 1])
        if op == "~":
            if isinstance(v, B):
                return B([x ^ 1 for x in v.b])
            return self.wrap(~v, e["t"])
        if op == "-":
            if isinstance(v, int):
                return self.wrap(-v, e["t"])
            if isinstance(v, B):
                # -x for a value that is a single 0/1 bit: all bits equal to it
                if all(x == 0 for x in v.b[1:]):
                    return B([v.b[0]] * len(v.b))
            raise Unsupported("negation of data at line %s" % self.line)
        if op == "+":
            return v
        raise Unsupported("unary %s" % op)

    def incdec(self, e, p):
        t = e["s"]["t"]
        d = 1 if e["op"] == "++" else -1
        x = self.strip(t)
        if x["k"] == "ptr":
            old = self.load(p, 8)
            self.store(p, 8, P(old.o, nadd(old.off, d * self.sizeof(x["to"]))))
            return old
        old = self.rd(p, t)
        if isinstance(old, B):
            raise Unsupported("increment of data at line %s" % self.line)
        self.store(p, self.sizeof(x), self.wrap(nadd(old, d), t))
        return old

    def e_Bin(self, e):
        op = e["op"]
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        if op in ("&&", "||"):
            a = self.nonzero(self.ev(e["a"]))
            if isinstance(a, int):
                if (op == "&&") != bool(a):
                    return a
                return self.nonzero(self.ev(e["b"]))
            raise Unsupported("short-circuit on data at line %s" % self.line)
        a, b = self.ev(e["a"]), self.ev(e["b"])
        return self.bin(op, a, b, e["t"], e["a"]["t"], e["b"]["t"])

    def bin(self, op, a, b, t, ta, tb):
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.cmp(op, a, b)
        if isinstance(a, P) or isinstance(b, P):
            if op == "+":
                if not isinstance(a, P):
                    a, b, ta = b, a, tb
                return self.ptradd(a, b, self.sizeof(self.strip(ta)["to"]))
            if op == "-" and isinstance(b, P):
                if a.o is not b.o:
                    raise Unsupported("difference of unrelated pointers")
                d = nadd(a.off, b.off, -1)
                s = self.sizeof(self.strip(ta)["to"])
                return self.ndiv(d, s)
            if op == "-":
                s = self.sizeof(self.strip(ta)["to"])
                return P(a.o, nadd(a.off, b * s if isinstance(b, int) else b.mul(s), -1))
            raise Unsupported("pointer arithmetic %s" % op)
        a, b = self.toint(a), self.toint(b)
        if isinstance(a, int) and isinstance(b, int):
            if op in ("<<", ">>"):
                w = self.intinfo(t)[0]
                if b < 0 or b >= w:
                    raise OutOfBlock("shift by %d of a %d-bit value" % (b, w), self.line)
                r = a << b if op == "<<" else a >> b
            elif op in ("/", "%"):
                if b == 0:
                    raise OutOfBlock("division by zero", self.line)
                qq = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = qq if op == "/" else a - qq * b
            else:
                r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
            return self.wrap(r, t)
        if isinstance(a, N) or isinstance(b, N):
            if isinstance(a, B) or isinstance(b, B):
                raise Unsupported("counter mixed with data at line %s" % self.line)
            if op in ("+", "-"):
                return nadd(a, b, 1 if op == "+" else -1)
            if op == "*" and (isinstance(a, int) or isinstance(b, int)):
                return b.mul(a) if isinstance(a, int) else a.mul(b)
            if op in ("/", "%") and isinstance(b, int) and b > 0:
                return self.ndiv(a, b) if op == "/" else self.nmod(a, b)
            if op == ">>" and isinstance(b, int):
                return self.ndiv(a, 1 << b)
            if op == "<<" and isinstance(b, int):
                return a.mul(1 << b)
            if op == "&" and isinstance(b, int) and (b & (b + 1)) == 0:
                return self.nmod(a, b + 1)
            if op == "&" and isinstance(b, int):
                # x & ~(2^k-1): round down
                m = (-b) & ((1 << 64) - 1)
                w = self.intinfo(t)[0]
                m = ((~b) & ((1 << w) - 1)) + 1
                if m & (m - 1) == 0:
                    return nadd(a, self.nmod(a, m), -1)
            raise Unsupported("operator %s on counters at line %s" % (op, self.line))
        w = self.intinfo(t)[0]
        sa = self.intinfo(ta)[1] if self.intinfo(ta) else False
        if op in ("<<", ">>"):
            if not isinstance(b, int):
                raise Unsupported("data-dependent shift at line %s" % self.line)
            if b < 0 or b >= w:
                raise OutOfBlock("shift by %d of a %d-bit value" % (b, w), self.line)
            x = self.tob(a, w, sa).b
            if op == "<<":
                return self.toint(B((0,) * b + x[:w - b]))
            return self.toint(B(x[b:] + ((x[-1] if sa else 0),) * b))
        x, y = self.tob(a, w).b, self.tob(b, w).b
        if op == "^":
            return self.fix(B([p ^ q for p, q in zip(x, y)]), t)
        if op == "&":
            return self.fix(B([self.band(p, q) for p, q in zip(x, y)]), t)
        if op == "|":
            return self.fix(B([p ^ q ^ self.band(p, q) for p, q in zip(x, y)]), t)
        if op in ("+",):
            if all(p == 0 or q == 0 for p, q in zip(x, y)):
                return self.fix(B([p ^ q for p, q in zip(x, y)]), t)
            raise Unsupported("carrying addition of data at line %s" % self.line)
        if op == "*":
            for u, v in ((a, b), (b, a)):
                if isinstance(v, int):
                    if v == 0:
                        return 0
                    if v & (v - 1) == 0:
                        return self.bin("<<", u, v.bit_length() - 1, t, t, t)
                    ub = self.tob(u, w).b
                    if all(z == 0 for z in ub[1:]):     # 0/1 times a constant
                        return self.fix(B([ub[0] if (v >> i) & 1 else 0 for i in range(w)]), t)
        if op == "-" and isinstance(a, int) and a == 0:
            ub = y
            if all(z == 0 for z in ub[1:]):
                return B([ub[0]] * w)
        raise Unsupported("operator %s on data at line %s" % (op, self.line))

    def fix(self, v, t):
        r = self.toint(v)
        return self.wrap(r, t) if isinstance(r, int) else r

    def band(self, p, q):
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1:
            return p
        if p == q:
            return p
        if p == q ^ 1:
            return 0
        raise Unsupported("conjunction of two data bits at line %s" % self.line)

    def ndiv(self, a, b):
        if isinstance(a, int):
            return a // b
        if any(v % b for v in a.t.values()):
            raise Unsupported("division of a counter at line %s" % self.line)
        return norm(N(a.c // b, {k: v // b for k, v in a.t.items()}))

    def nmod(self, a, b):
        if isinstance(a, int):
            return a % b
        if any(v % b for v in a.t.values()):
            raise Unsupported("remainder of a counter at line %s" % self.line)
        return a.c % b

    def e_Asg(self, e):
        t = e["a"]["t"]
        if e["op"] == "=":
            v = self.ev(e["b"])
            p = self.lv(e["a"])
        else:
            v = self.ev(e["b"])
            p = self.lv(e["a"])
            old = self.rd(p, t)
            ct = e.get("ct", t)
            op = e["op"][:-1]
            x = self.strip(t)
            if x["k"] == "ptr":
                v = self.bin(op, old, v, t, t, e["b"]["t"])
            else:
                if isinstance(old, B):
                    cc = self.intinfo(ct)
                    old = self.tob(old, cc[0], self.intinfo(t)[1])
                v = self.bin(op, old, v, ct, ct, e["b"]["t"])
        self.assign(p, t, v)
        return self.rd(p, t) if not e.get("lv") else p

    def assign(self, p, t, v):
        x = self.strip(t)
        if isinstance(v, P) and x["k"] in ("array", "rec"):
            self.copyobj(p, v, self.sizeof(x))
            return
        if x["k"] == "ptr":
            self.store(p, 8, v)
            return
        self.store(p, self.sizeof(x), self.wrap(v, t))

    def copyobj(self, d, s, n):
        if isinstance(n, N):
            raise Unsupported("block copy of symbolic size at line %s" % self.line)
        es = d.o.es
        if s.o.ext is None and s.o.es == es and isinstance(s.off, int) and isinstance(d.off, int) and s.off % es == 0 and d.off % es == 0 and n % es == 0:
            for k in range(0, n, es):
                self.store(P(d.o, d.off + k), es, self.load(P(s.o, s.off + k), es))
            return
        vals = [self.load(P(s.o, nadd(s.off, k)), 1) for k in range(n)]
        k = 0
        while k < n:
            if isinstance(d.off, int) and (d.off + k) % es == 0 and k + es <= n:
                bits = []
                for j in range(es):
                    bits += self.tob(vals[k + j], 8).b
                self.store(P(d.o, nadd(d.off, k)), es, self.toint(B(bits)))
                k += es
            else:
                self.store(P(d.o, nadd(d.off, k)), 1, vals[k])
                k += 1

    def e_Init(self, e):
        o = self.newobj(e["t"], "temporary")
        self.initialise(P(o, 0), e["t"], e)
        return P(o, 0)

    def e_This(self, e):
        return self.env[-1]["this"]

    # ---- calls ----------------------------------------------------------------------------------
    def e_Call(self, e):
        r = self.call(e)
        return r if e.get("lv") or not isinstance(r, LUT) else r

    def call(self, e):
        if "fn" not in e:
            raise Unsupported("indirect call at line %s" % self.line)
        d = self.p.fdecls[e["fn"]]
        q, n = d["q"], d["n"]
        cls = d.get("cls") or ""
        if q in ("memcpy", "std::memcpy", "memmove", "std::memmove", "__builtin_memcpy"):
            dst, src, cnt = [self.ev(a) for a in e["args"]]
            self.copyobj(dst, src, cnt)
            return dst
        if q in ("memset", "std::memset"):
            dst, v, cnt = [self.ev(a) for a in e["args"]]
            for k in range(cnt):
                self.store(P(dst.o, nadd(dst.off, k)), 1, v & 255)
            return dst
        if cls.startswith("std::array") or cls.startswith("std::basic_string_view"):
            return self.libobj(e, d, cls)
        if q in ("std::min", "std::max"):
            a, b = [self.lv(x) for x in e["args"]]
            va, vb = self.rd(a, e["args"][0]["t"]), self.rd(b, e["args"][1]["t"])
            c = self.cmp("<", vb, va) if n == "min" else self.cmp("<", va, vb)
            return b if c else a
        if q in ("std::move", "std::forward", "std::as_const"):
            return self.lv(e["args"][0])
        f = self.p.funs.get(e["fn"])
        if f is None or not d.get("repo"):
            raise Unsupported("call of %s at line %s" % (q, self.line))
        fr = {}
        if "obj" in e:
            fr["this"] = self.ev(e["obj"]) if e.get("arrow") else self.lv(e["obj"])
        for prm, a in zip(f["params"], e["args"]):
            if self.isref(prm["t"]):
                fr[prm["id"]] = self.lv(a)
            else:
                v = self.ev(a)
                o = self.newobj(prm["t"], prm["n"])
                if isinstance(v, SV):
                    o.cells = [v]
                elif isinstance(v, O):
                    o = v
                else:
                    self.assign(P(o, 0), prm["t"], v) if not isinstance(v, P) or self.strip(prm["t"])["k"] == "ptr" else self.copyval(o, prm["t"], v)
                fr[prm["id"]] = P(o, 0)
        return self.invoke(f, fr)

    def copyval(self, o, t, v):
        if v.o.cells and isinstance(v.o.cells[0], SV):
            o.cells = [v.o.cells[0]]
        else:
            self.copyobj(P(o, 0), v, self.sizeof(t))

    def invoke(self, f, fr):
        if len(self.env) > 40:
            raise Unsupported("recursion")
        self.env.append(fr)
        rt = self.p.fdecls[f["id"]]["r"]
        saved = self.line
        try:
            self.st(f["body"])
            return None
        except Ret as r:
            v = r.v
            if v is not None and not isinstance(v, P):
                v = self.wrap(v, rt)
            return v
        finally:
            self.env.pop()
            self.line = saved

    def libobj(self, e, d, cls):
        n = d["n"]
        ob = self.ev(e["obj"]) if e.get("arrow") else self.lv(e["obj"])
        if cls.startswith("std::array"):
            x = self.strip(e["obj"]["t"])
            if x["k"] == "ptr":
                x = self.strip(x["to"])
            et = x["ta"][0]["t"]
            cnt = int(x["ta"][1]["v"])
            if n in ("operator[]", "at"):
                i = self.ev(e["args"][0])
                if isinstance(i, int) and not (0 <= i < cnt):
                    raise OutOfBlock("index %d of an array of %d" % (i, cnt), self.line)
                if isinstance(ob, LUT):
                    raise Unsupported("two data-dependent indices at line %s" % self.line)
                r = self.ptradd(ob, i, self.sizeof(et))
                if isinstance(r, LUT):
                    r.n = cnt
                return r
            if n in ("data", "begin", "cbegin"):
                return ob
            if n in ("end", "cend"):
                return P(ob.o, ob.off + cnt * self.sizeof(et))
            if n == "size":
                return cnt
            if n == "fill":
                v = self.ev(e["args"][0])
                for k in range(cnt):
                    self.store(P(ob.o, ob.off + k * self.sizeof(et)), self.sizeof(et), v if not isinstance(v, P) else self.load(v, self.sizeof(et)))
                return None
        else:
            sv = ob.o.cells[0]
            if n in ("size", "length"):
                return sv.n
            if n in ("data", "begin", "cbegin"):
                return sv.p
            if n in ("end", "cend"):
                return P(sv.p.o, nadd(sv.p.off, sv.n))
            if n == "empty":
                return self.cmp("==", sv.n, 0)
            if n in ("operator[]", "at"):
                return self.ptradd(sv.p, self.ev(e["args"][0]), 1)
        raise Unsupported("call of %s::%s at line %s" % (cls, n, self.line))

    def e_Ctor(self, e):
        d = self.p.fdecls[e["fn"]]
        cls = d.get("cls") or ""
        if cls.startswith("std::array") and not e["args"]:
            o = self.newobj(e["t"], "temporary")
            o.cells = [0] * len(o.cells)
            return P(o, 0)
        if cls.startswith("std::basic_string_view") and len(e["args"]) == 1:
            return self.lv(e["args"][0])
        if len(e["args"]) == 1:
            return self.lv(e["args"][0])
        raise Unsupported("construction of %s at line %s" % (cls, self.line))

    # ---- statements -----------------------------------------------------------------------------
    def initialise(self, p, t, e):
        x = self.strip(t)
        if e["k"] == "Init" and x["k"] in ("array", "rec"):
            if x["k"] == "rec" and not (x.get("q") or x.get("s", "")).startswith("std::array"):
                raise Unsupported("aggregate %s" % x.get("s"))
            els = e["e"]
            if x["k"] == "rec":
                if len(els) == 1 and els[0]["k"] == "Init":
                    els, e = els[0]["e"], els[0]
                elif not els:
                    els = []
            et = self.elemtype(x)
            s = self.sizeof(et)
            cnt = self.sizeof(x) // s
            es, c = self.leaf(et)
            for i in range(cnt):
                q = P(p.o, p.off + i * s)
                if i < len(els):
                    self.initialise(q, et, els[i])
                else:
                    for j in range(c):
                        self.store(P(q.o, q.off + j * es), es, 0)
            return
        if e["k"] == "Init" and len(e["e"]) <= 1:
            if not e["e"]:
                self.assign(p, t, 0)
                return
            e = e["e"][0]
        if e["k"] == "Zero" and x["k"] in ("array", "rec"):
            es, c = self.leaf(x)
            for j in range(c):
                self.store(P(p.o, p.off + j * es), es, 0)
            return
        if x["k"] == "rec" and not (x.get("q") or x.get("s", "")).startswith("std::array"):
            v = self.ev(e)
            if isinstance(v, P) and v.o.cells and isinstance(v.o.cells[0], SV):
                p.o.cells = [v.o.cells[0]]
                return
            raise Unsupported("object of type %s at line %s" % (x.get("s"), self.line))
        self.assign(p, t, self.ev(e))

    def decl(self, v):
        self.line = v.get("l") or self.line
        if self.isref(v["t"]):
            self.env[-1][v["id"]] = self.lv(v["init"])
            return
        o = self.newobj(v["t"], v["n"])
        self.env[-1][v["id"]] = P(o, 0)
        if "init" in v:
            self.initialise(P(o, 0), v["t"], v["init"])

    def st(self, s):
        if s is None:
            return
        k = s["k"]
        self.line = s.get("l") or self.line
        if k == "Block":
            for x in s["b"]:
                self.st(x)
        elif k == "Decl":
            for v in s["v"]:
                self.decl(v)
        elif k == "Expr":
            self.ev(s["e"])
        elif k == "Nop":
            pass
        elif k == "Return":
            if "e" not in s:
                raise Ret(None)
            v = self.ev(s["e"])
            if isinstance(v, P) and self.strip(s["e"]["t"])["k"] not in ("rec", "ptr", "array"):
                v = self.rd(v, s["e"]["t"])
            raise Ret(v)
        elif k == "If":
            if s.get("init"):
                self.st(s["init"])
            c = self.nonzero(self.ev(s["c"]))
            if isinstance(c, int):
                self.st(s["a"] if c else s.get("b"))
            else:
                self.branch(c, s)
        elif k in ("While", "For", "Do", "RFor"):
            self.loop(s)
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cnt()
        else:
            raise Unsupported("statement %s at line %s" % (k, self.line))

    def snapshot(self):
        return [(o, list(o.cells)) for o in self.objs]

    def restore(self, snap):
        known = set()
        for o, c in snap:
            o.cells = list(c)
            known.add(id(o))
        self.objs = [o for o in self.objs if id(o) in known]

    def branch(self, c, s):
        snap = self.snapshot()
        try:
            self.st(s["a"])
            m1 = {id(o): list(o.cells) for o, _ in snap}
            self.restore(snap)
            self.st(s.get("b"))
        except (Ret, Brk, Cnt):
            raise Unsupported("data-dependent exit at line %s" % self.line)
        for o, _ in snap:
            a, b = m1[id(o)], o.cells
            for i in range(len(b)):
                if a[i] is not b[i] and a[i] != b[i]:
                    if a[i] is None or b[i] is None:
                        raise Unsupported("storage written on one arm only")
                    w = o.es * 8
                    va, vb = a[i], b[i]
                    if isinstance(va, (P, N)) or isinstance(vb, (P, N)):
                        raise Unsupported("data-dependent counter at line %s" % self.line)
                    cb = c.b[0]
                    out = []
                    for x, y in zip(self.tob(va, w).b, self.tob(vb, w).b):
                        d = x ^ y
                        if d == 0:
                            out.append(x)
                        elif d == 1:
                            out.append(y ^ cb)
                        elif d == cb:
                            out.append(x)
                        elif d == (cb ^ 1):
                            out.append(y)
                        else:
                            raise Unsupported("data-dependent choice is not affine at line %s" % self.line)
                    b[i] = self.toint(B(out))

    # ---- loops ----------------------------------------------------------------------------------
    def loop(self, s):
        k = s["k"]
        if k == "RFor":
            return self.rfor(s)
        if k == "For" and s.get("init"):
            self.st(s["init"])
        cond = (lambda: self.nonzero(self.ev(s["c"]))) if s.get("c") else (lambda: 1)
        inc = (lambda: self.ev(s["inc"])) if k == "For" and s.get("inc") else (lambda: None)
        self.runloop(cond, lambda: self.st(s["b"]), inc, k == "Do", s)

    def rfor(self, s):
        r = self.lv(s["r"])
        x = self.strip(s["r"]["t"])
        if r.o.cells and isinstance(r.o.cells[0], SV):
            sv = r.o.cells[0]
            base, n, es, et = sv.p, sv.n, 1, None
        elif x["k"] == "array" or (x.get("q") or x.get("s", "")).startswith("std::array"):
            et = self.elemtype(x)
            es = self.sizeof(et)
            base, n = r, self.sizeof(x) // es
        else:
            raise Unsupported("range-for over %s" % x.get("s"))
        cnt = O(8, 1, "position")
        cnt.cells[0] = 0
        self.objs.append(cnt)
        v = s["v"]

        def body():
            p = P(base.o, nadd(base.off, cnt.cells[0] * es if isinstance(cnt.cells[0], int) else cnt.cells[0].mul(es)))
            if self.isref(v["t"]):
                self.env[-1][v["id"]] = p
            else:
                o = self.newobj(v["t"], v["n"])
                self.store(P(o, 0), es, self.load(p, es))
                self.env[-1][v["id"]] = P(o, 0)
            self.st(s["b"])

        def inc():
            cnt.cells[0] = nadd(cnt.cells[0], 1)
        self.runloop(lambda: self.cmp("<", cnt.cells[0], n), body, inc, False, s)

    def runloop(self, cond, body, inc, first, s):
        try:
            it = 0
            while True:
                if not (first and it == 0):
                    c = self.trycond(cond)
                    if c is None:
                        return self.induct(cond, body, inc, s)
                    if not isinstance(c, int):
                        raise Unsupported("data-dependent loop condition at line %s" % self.line)
                    if not c:
                        return
                    # a condition that is uniformly true for a symbolic block count starts an inductive loop
                    if self.symbolic_cond:
                        return self.induct(cond, body, inc, s)
                it += 1
                try:
                    body()
                except Cnt:
                    pass
                inc()
        except Brk:
            return

    def trycond(self, cond):
        self.symbolic_cond = False
        old = self.sign

        def sg(d):
            self.symbolic_cond = True
            return old(d)
        self.sign = sg
        try:
            return cond()
        except SymCond:
            return None
        finally:
            del self.sign

    def induct(self, cond, body, inc, s):
        if self.inloop is not None:
            raise Unsupported("nested unbounded loops at line %s" % self.line)
        if self.summary is not None:
            raise Unsupported("a second unbounded loop at line %s" % self.line)
        line = s.get("l")
        snap = self.snapshot()
        before = {id(o): c for o, c in snap}
        # 1. which cells does the body change, and which of those are counters?
        delta, state = {}, set()

        def differ():
            ch = []
            for o, c in snap:
                for i in range(len(o.cells)):
                    if o.cells[i] is not c[i] and o.cells[i] != c[i]:
                        ch.append((o, i, c[i], o.cells[i]))
            return ch

        def one():
            try:
                body()
            except Cnt:
                pass
            inc()
        t = N(0, {"t": 1})
        statevars = {}
        for attempt in range(12):
            self.restore(snap)
            cur = {id(o): list(c) for o, c in snap}
            for (oi, i), d in delta.items():
                o = oi
                base = cur[id(o)][i]
                if isinstance(base, P):
                    v = P(base.o, nadd(base.off, t.mul(d)))
                else:
                    v = nadd(base, t.mul(d))
                o.cells[i] = v
            for (o, i) in state:
                if (o, i) not in statevars:
                    statevars[(o, i)] = self.word("state%d" % len(statevars), o.es * 8)
                o.cells[i] = statevars[(o, i)]
            head = {id(o): list(o.cells) for o, _ in snap}
            self.inloop = {"lo": None, "hi": 0, "stride": None, "base": None, "vars": {}}
            try:
                self.checkguard(cond)
                one()
            except Brk:
                raise Unsupported("break out of an unbounded loop at line %s" % self.line)
            except Ret:
                raise Unsupported("return out of an unbounded loop at line %s" % self.line)
            log = self.inloop
            self.inloop = None
            again = False
            for o, c in snap:
                h = head[id(o)]
                for i in range(len(o.cells)):
                    if o.cells[i] is h[i] or o.cells[i] == h[i]:
                        continue
                    key = (o, i)
                    if key in state:
                        continue
                    a, b = h[i], o.cells[i]
                    d = None
                    if isinstance(a, P) and isinstance(b, P) and a.o is b.o:
                        d = nadd(b.off, a.off, -1)
                    elif isinstance(a, (int, N)) and isinstance(b, (int, N)) and not isinstance(a, bool):
                        d = nadd(b, a, -1)
                    if key in delta:
                        if d == delta[key]:
                            continue
                        del delta[key]
                        state.add(key)
                        again = True
                    elif isinstance(d, int) and not isinstance(a, B) and not isinstance(b, B) and key not in state:
                        delta[key] = d
                        again = True
                    else:
                        state.add(key)
                        again = True
            # counters that did not move on the generic iteration cannot be counters
            for key in list(delta):
                o, i = key
                a, b = head[id(o)][i], o.cells[i]
                if a == b and delta[key] != 0:
                    del delta[key]
                    state.add(key)
                    again = True
            if not again:
                break
        else:
            raise Unsupported("loop at line %s has no simple inductive form" % line)
        after = {(o, i): o.cells[i] for (o, i) in state}
        # 2. the first iteration number at which the condition fails
        self.restore(snap)
        for (o, i), d in delta.items():
            base = before[id(o)][i]
            o.cells[i] = P(base.o, nadd(base.off, t.mul(d))) if isinstance(base, P) else nadd(base, t.mul(d))
        for (o, i) in state:
            o.cells[i] = statevars[(o, i)]
        tstar = self.exit_iter(cond)
        # 3. the state on exit
        entry = {(o, i): before[id(o)][i] for (o, i) in state}
        self.restore(snap)
        exitvars = {}
        for (o, i), d in delta.items():
            base = before[id(o)][i]
            m = tstar.mul(d) if isinstance(tstar, N) else tstar * d
            o.cells[i] = P(base.o, nadd(base.off, m)) if isinstance(base, P) else nadd(base, m)
        for n, (o, i) in enumerate(sorted(state, key=lambda k: (k[0].name, k[1]))):
            exitvars[(o, i)] = self.word("exit%d" % n, o.es * 8)
            o.cells[i] = exitvars[(o, i)]
        self.summary = {"line": line, "state": statevars, "after": after, "entry": entry, "exit": exitvars, "tstar": tstar, "log": log}

    def checkguard(self, cond):
        try:
            cond()
        except SymCond:
            pass

    def exit_iter(self, cond):
        try:
            cond()
        except SymCond as sc:
            op, d = sc.op, sc.d
        else:
            raise Unsupported("loop condition does not depend on the iteration at line %s" % self.line)
        a = d.t.get("t", 0)
        rest = {k: v for k, v in d.t.items() if k != "t"}
        # continue while  a*t + rest + c  op  0
        if op in (">", ">="):
            a, rest, c = -a, {k: -v for k, v in rest.items()}, -d.c
            op = {">": "<", ">=": "<="}[op]
        else:
            c = d.c
        if op == "!=":
            if a < 0:
                a, rest, c = -a, {k: -v for k, v in rest.items()}, -c
            # leaves when a*t = -(rest+c)
            if a == 0 or c % a or any(v % a for v in rest.values()):
                raise Unsupported("loop may step over its end at line %s" % self.line)
            op = "<"
        if a <= 0 or op not in ("<", "<="):
            raise Unsupported("loop condition %s %r at line %s" % (op, d, self.line))
        if op == "<=":
            c -= 1
        # first t with a*t >= -(rest + c)
        if any(v % a for v in rest.values()):
            raise Unsupported("loop end is not a multiple of its step at line %s" % self.line)
        r = norm(N(-(c // a), {k: -v // a for k, v in rest.items()}))
        if isinstance(r, N) and self.sign(r) < 0:
            raise Unsupported("loop end is negative")
        return r


class SymCond(Exception):
    def __init__(self, op, d):
        super().__init__()
        self.op, self.d = op, d


class SV:
    """A string_view value."""
    def __init__(self, p, n):
        self.p, self.n = p, n

    def __eq__(self, o):
        return isinstance(o, SV) and self.p == o.p and self.n == o.n


class LUT:
    """The lvalue table[x] for a data-dependent index: readable when the table is affine in the index bits."""
    def __init__(self, base, i, s):
        self.base, self.i, self.s, self.n = base, i, s, None

    @property
    def o(self):
        return self.base.o

    @property
    def off(self):
        raise Unsupported("address of a data-dependent element")

    def read(self, eng, t):
        size = eng.sizeof(t)
        bits = self.i.b
        used = [k for k, x in enumerate(bits) if x != 0]
        top = max(used) + 1
        base = self.base
        if isinstance(base, LUT):
            raise Unsupported("two data-dependent indices")
        n = 1 << top
        if self.n is not None and n > self.n:
            raise OutOfBlock("index of up to %d into a table of %d" % (n - 1, self.n), eng.line)
        key = (id(base.o), base.off, self.s, size, top)
        ent = eng.tabcache.get(key) if base.o.const else None
        if ent is None:
            vals = []
            for j in range(n):
                v = eng.toint(eng.load(P(base.o, base.off + j * self.s), size))
                if not isinstance(v, int):
                    raise Unsupported("table of data")
                vals.append(v)
            for j in range(n):
                x = vals[0]
                for b in range(top):
                    if j >> b & 1:
                        x ^= vals[1 << b] ^ vals[0]
                if x != vals[j]:
                    raise NotAffine(base.o.name, j, eng.line)
            ent = (vals[0], [vals[1 << b] ^ vals[0] for b in range(top)])
            eng.tabcache[key] = ent
        c, cols = ent
        w = size * 8
        out = [(c >> i) & 1 for i in range(w)]
        for b in range(top):
            x = bits[b]
            if x:
                col = cols[b]
                for i in range(w):
                    if col >> i & 1:
                        out[i] ^= x
        return eng.fix(B(out), t)


class NotAffine(Exception):
    def __init__(self, name, j, line):
        super().__init__("table %s is not linear in its index (entry %d)" % (name, j))
        self.line = line
