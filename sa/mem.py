"""Memory-access obligations on top of the abstract interpreter."""
from .lin import Lin, entails_le
from .engine import Engine, State, Num, Bool, Ptr, Obj, Opq, NULLREG, locstr, locstr_u, neg
from . import models


class Log:
    """Ordered list of block copies performed so far (destination pointer, source pointer, byte count)."""
    __slots__ = ("e",)

    def __init__(self, e=()):
        self.e = tuple(e)

    def __eq__(self, o):
        return isinstance(o, Log) and self.e == o.e

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return "Log%r" % (self.e,)


class MemEngine(Engine):
    """Proves that every access stays inside its region whenever the region's size is known."""
    track_log = False
    check_null = True

    def __init__(self, prog):
        super().__init__(prog)
        self.untracked = 0
        self.checked = 0
        self.ignore_regions = ()
        self.only = None        # predicate(reg) restricting which regions carry obligations

    def region_name(self, reg):
        return locstr(reg)

    def cex(self, st, lins):
        return ""

    def wants(self, st, ptr, node, fr):
        return self.only is None or self.only(ptr.reg)

    def access(self, st, ptr, n, mode, node, fr):
        if not isinstance(ptr, Ptr):
            return
        if ptr.reg == NULLREG:
            live = self.assume(st, ("le", Lin(1) - n)) if n.t or n.c <= 0 else [st]
            if live and mode != "s" and self.feasible_all(live):
                self.oblige(st, False, "null", "dereference of a null pointer", node, fr)
            return
        if self.quiet:
            return
        b = self.region_bytes(st, ptr.reg)
        if not self.wants(st, ptr, node, fr):
            return
        if b is None:
            self.untracked += 1
            return
        self.checked += 1
        live = [st]
        if n.t or n.c <= 0:
            live = self.assume(st, ("le", Lin(1) - n))
        ok, why = True, ""
        for s in live:
            if not self.proves_le(s, -ptr.off):
                ok, why = False, "offset %r may be negative" % ptr.off
                break
            if mode == "s":
                n = Lin(1)
            if not self.proves_le(s, ptr.off + n - b):
                ok, why = False, "offset %r + length %r may exceed %r" % (ptr.off, n, b)
                break
        kind = {"r": "read", "w": "write", "d": "access", "s": "read"}[mode]
        self.oblige(st, ok, "bounds", "%s within %s" % (kind, self.region_name(ptr.reg)), node, fr, why)

    def feasible_all(self, sts):
        return any(self.feasible(s) for s in sts)

    def index(self, st, ptr, es, i, n, node, fr, ct):
        if self.quiet or (ptr.reg != ("none",) and not self.wants(st, ptr, node, fr)):
            return
        ok = self.proves_le(st, -i) and self.proves_le(st, i - n + 1)
        self.checked += 1
        self.oblige(st, ok, "bounds", "index within %s" % (ct.get("q") or "container"), node, fr, "" if ok else "index %r, size %r" % (i, n))

    def on_copy(self, st, dst, src, n, node, fr, may_overlap):
        if self.track_log and isinstance(dst, Ptr) and isinstance(src, Ptr):
            old = st.store.get(("#log",), Log())
            if not self.quiet and not may_overlap and dst.reg == src.reg and dst.reg != NULLREG:
                live = self.assume(st, ("le", Lin(1) - n))
                ok = all(self.proves_le(s, dst.off + n - src.off) or self.proves_le(s, src.off + n - dst.off) for s in live)
                self.oblige(st, ok, "overlap", "non-overlapping copy", node, fr, "" if ok else "regions may overlap")
            if isinstance(old, Log):
                st = st.set(("#log",), Log(old.e + ((dst, src, n),)))
        return st
