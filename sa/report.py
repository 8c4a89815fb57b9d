"""Result collection, evidence and verdict output shared by all checks."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = []     # (ok, where, rule, what, detail)
        self.notes = []
        self.coverage = {}
        self.assumptions = []
        self.floors = []

    def ob(self, ok, where, rule, what, detail=""):
        self.obligations.append((bool(ok), where, rule, what, detail))
        return ok

    def viol(self, where, rule, what, detail=""):
        self.ob(False, where, rule, what, detail)

    def floor(self, name, n, least):
        """At least `least` instances must have been analysed, otherwise the analysis itself is broken."""
        self.coverage[name] = n
        if n < least:
            self.floors.append((name, n, least))

    def merge_engine(self, eng, rule_prefix=""):
        for (f, l, kind, what), (ok, det, n, q) in sorted(eng.obl.items(), key=lambda x: str(x[0])):
            self.ob(ok, "%s:%s" % (f, l), rule_prefix + kind, "%s in %s" % (what, q), det)


def where(fn, node=None):
    return "%s:%s" % (fn["file"], (node or {}).get("l") or fn.get("line"))
