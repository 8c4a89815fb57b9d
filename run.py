#!/usr/bin/env python3
"""Driver: run.py <property id>   (tier from VERIF_TIER, seed from VERIF_SEED; both only recorded: the analyses are deterministic)."""
import importlib, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
try:
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
except Exception:
    pass
from sa.program import Program, AnalysisError, VERIF, REPO  # noqa: E402
from sa.report import Result  # noqa: E402
from sa.registry import CHECKS  # noqa: E402


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def run_check(pid, prog, tier):
    spec = CHECKS[pid]
    res = Result(pid)
    mod = importlib.import_module("sa.checks." + spec["module"])
    getattr(mod, spec.get("func", "run"))(prog, res, tier)
    return res


def main():
    pid = sys.argv[1]
    if pid == "--warm":
        Program.load()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = CHECKS[pid]
    t0 = time.time()
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        prog = Program.load()
        res = run_check(pid, prog, tier)
        for name, n, least in res.floors:
            if n < least:
                raise AnalysisError("only %d %s analysed, at least %d expected: the rule no longer matches the code" % (n, name, least))
        if not res.obligations:
            raise AnalysisError("no obligation was generated")
    except AnalysisError as ex:
        print("ERROR property=%s analysis could not be carried out: %s" % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error" % pid)
        return 2
    bad, seen = [], set()
    for o in res.obligations:
        if not o[0] and (o[1], o[2], o[3]) not in seen:
            seen.add((o[1], o[2], o[3]))
            bad.append(o)
    kf = [k for k in known() if k["property"] == pid and not k.get("fixed")]
    new, hit = [], {}
    for o in bad:
        for k in kf:
            if k["rule"] == o[2] and k["what"] == o[3] and o[1].split(":")[0] == k["file"]:
                hit.setdefault(k["id"], (k, o))
                break
        else:
            new.append(o)
    for i, (k, o) in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["description"], o[1]))
    distinct = {}
    for o in res.obligations:
        distinct.setdefault((o[1], o[2], o[3]), True)
        if not o[0]:
            distinct[(o[1], o[2], o[3])] = False
    n, d = len(distinct), sum(1 for v in distinct.values() if v)
    rules = {}
    for (w, r, x), v in distinct.items():
        a = rules.setdefault(r, [0, 0])
        a[0] += 1
        a[1] += 1 if v else 0
    cov = {
        "obligations": n,
        "discharged": d,
        "checker_cmd": "python3 run.py " + pid,
        "trusted_base": ["clang 18 front end (parsing, overload resolution, constant evaluation)", "sa/engine.py and sa/models.py (transfer functions)",
                         "sa/lin.py (linear arithmetic decision procedure)", "stubs/ (declarations of third-party headers absent from this sandbox)"],
        "explanation": spec["note"],
        "rules": {k: {"instances": v[0], "discharged": v[1]} for k, v in sorted(rules.items())},
        "functions_in_program": len(prog.funs),
        "translation_units": len(prog.tus),
        "samples": ["%s [%s] %s" % (w, r, x) for (w, r, x) in list(distinct)[:: max(1, n // 12)][:14]],
        "known_findings_hit": sorted(hit),
    }
    cov.update(res.coverage)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": spec.get("assumptions", []) + res.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        rp = os.path.join(evdir, pid + ".violations.txt")
        with open(rp, "w") as fh:
            for o in new:
                fh.write("%s: rule %s: %s\n    %s\n" % (o[1], o[2], o[3], o[4]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        for o in new[:40]:
            print("  %s: [%s] %s%s" % (o[1], o[2], o[3], (" -- " + o[4]) if o[4] else ""))
        return 1
    print("OK property=%s obligations=%d discharged=%d %s wall=%.1fs" % (pid, n, d, " ".join("%s=%s" % kv for kv in res.coverage.items() if isinstance(kv[1], int)), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
