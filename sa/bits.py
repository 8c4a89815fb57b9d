"""Bit slices: results of masks, shifts, truncations and combinations are identified by the input bits they consist of."""
from .lin import Lin
from .engine import State, Num


class BitsMixin:
    """Overrides integer arithmetic so that two expressions that select the same bits are the same value."""

    def bitof(self):
        m = self.__dict__.get("_bits")
        if m is None:
            m = self._bits = {}
        return m

    def symbits(self, s):
        b = self.bitof().get(s)
        if b is not None:
            return b
        lo, hi = self.rg.get(s)
        if lo is None or hi is None or lo < 0 or hi >= 1 << 64:
            return None
        return tuple((s, i) for i in range(hi.bit_length()))

    def bits(self, l, w=64):
        """Tuple of bits (0, 1 or (symbol, index)), least significant first, or None."""
        c = l.c
        if l.is_const():
            if c < 0:
                c &= (1 << w) - 1
            return tuple((c >> i) & 1 for i in range(c.bit_length()))
        if c < 0:
            return None
        parts = [tuple((c >> i) & 1 for i in range(c.bit_length()))]
        for s, k in l.t.items():
            if k <= 0 or k & (k - 1):
                return None
            b = self.symbits(s)
            if b is None:
                return None
            parts.append((0,) * (k.bit_length() - 1) + b)
        out = [0] * max(len(p) for p in parts)
        for p in parts:
            for i, x in enumerate(p):
                if x != 0:
                    if out[i] != 0:
                        return None
                    out[i] = x
        return tuple(out)

    def frombits(self, b):
        b = list(b)
        while b and b[-1] == 0:
            b.pop()
        if all(x in (0, 1) for x in b):
            return Num(sum(x << i for i, x in enumerate(b)))
        # consecutive bits of one symbol from bit 0 are the symbol itself when they are all of it
        s = b[0][0] if isinstance(b[0], tuple) else None
        if s is not None and tuple(b) == self.symbits(s):
            return Num(Lin.sym(s))
        low = 0
        while b[low] == 0:
            low += 1
        if low:
            return Num(self.frombits(b[low:]).l.scale(1 << low))
        key = ("bits", tuple(b))
        l = self.memo_sym(key, "b", sum(1 << i for i, x in enumerate(b) if x == 1), sum(1 << i for i, x in enumerate(b) if x != 0))
        self.bitof()[next(iter(l.t))] = tuple(b)
        return Num(l)


    def arith(self, st, op, a, b, t, node):
        if op in ("&", "|", "^", "<<", ">>", "+"):
            la, lb = self.as_lin(st, a), self.as_lin(st, b)
            if not (la.is_const() and lb.is_const()):
                w = t.get("w", 32)
                ba, bb = self.bits(la, w), self.bits(lb, w)
                r = None
                if ba is not None and bb is not None and t["k"] in ("int", "enum", "bool"):
                    n = max(len(ba), len(bb))
                    pa, pb = ba + (0,) * (n - len(ba)), bb + (0,) * (n - len(bb))
                    if op in ("<<", ">>"):
                        if lb.is_const() and 0 <= lb.c < w:
                            r = (0,) * lb.c + ba if op == "<<" else ba[lb.c:]
                    elif op == "&":
                        r = [0 if x == 0 or y == 0 else x if y == 1 or x == y else y if x == 1 else None for x, y in zip(pa, pb)]
                    elif op == "|":
                        r = [1 if x == 1 or y == 1 else x if y == 0 or x == y else y if x == 0 else None for x, y in zip(pa, pb)]
                    elif op == "^":
                        r = [x if y == 0 else y if x == 0 else 0 if x == y else None for x, y in zip(pa, pb)]
                    elif op == "+" and all(x == 0 or y == 0 for x, y in zip(pa, pb)):
                        r = [x if y == 0 else y for x, y in zip(pa, pb)]
                    if r is not None and None not in r:
                        if t.get("u", 1) or t["k"] != "int":
                            r = tuple(r)[:w]
                        if len(r) <= (w if t.get("u", 1) else w - 1):
                            return [(st, self.frombits(r))]
                        if len(r) == w and r[-1] == 1 and op in "&|^":
                            return [(st, Num(self.frombits(r).l - (1 << w)))]
        return super().arith(st, op, a, b, t, node)

    def fit(self, st, l, t, why, tags=()):
        lo, hi = self.range_of(t)
        if lo == 0 and hi is not None and not (hi & (hi + 1)) and t["k"] == "int" and not self.in_range(st, l, lo, hi):
            b = self.bits(l)
            if b is not None:
                return self.frombits(b[:hi.bit_length()])
        return super().fit(st, l, t, why, tags)

    def convert(self, st, v, t, ft=None):
        if isinstance(v, Num) and t["k"] == "int" and t.get("u"):
            lo, hi = self.range_of(t)
            if not v.l.is_const() and not self.in_range(st, v.l, lo, hi):
                b = self.bits(v.l)
                if b is not None:
                    return self.frombits(b[:hi.bit_length()])
        return super().convert(st, v, t, ft)
