#!/usr/bin/env python3
"""Development aid: apply textual edits to a scratch copy of /repo's include/ and src/ and run checks there.
usage: mut.py FILE.py   (FILE defines MUTS = [(name, [(path, old, new), ...], [check ids], expected exit 1|0), ...])
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    name, edits, checks, want = m
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        for x in ("include", "src"):
            shutil.copytree("/repo/" + x, d + "/" + x)
        for path, old, new in edits:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) < 1:
                return name, "EDIT DOES NOT APPLY: %s %r" % (path, old[:60]), False
            open(p, "w").write(s.replace(old, new, 1))
        out = []
        good = True
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(V, "run.py"), c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/evidence"))
            good = good and r.returncode == want
            lines = (r.stdout + r.stderr).strip().splitlines()
            out.append("%s rc=%d %s" % (c, r.returncode, " | ".join(lines[1:3] if r.returncode == 1 else lines[-2:])[:330]))
        return name, "\n      ".join(out), good
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    muts = [m for m in ns["MUTS"] if len(sys.argv) < 3 or sys.argv[2] in m[0]]
    with ThreadPoolExecutor(max_workers=4) as ex:
        for name, out, good in ex.map(one, muts):
            print("%s %s\n      %s" % ("ok  " if good else "????", name, out), flush=True)


main()
