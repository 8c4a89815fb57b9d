#!/usr/bin/env python3
"""Development aid: merge property lines (a python file defining PROPS) into properties.jsonl."""
import json, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
old = [json.loads(l) for l in open("/verif/properties.jsonl") if l.strip()]
new = {p["id"]: p for p in ns["PROPS"]}
ps = [new.pop(p["id"], p) for p in old] + list(new.values())
with open("/verif/properties.jsonl", "w") as f:
    for p in sorted(ps, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
