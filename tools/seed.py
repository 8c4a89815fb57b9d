#!/usr/bin/env python3
"""Development aid.  seed.py make FILE.py [filter]: create /verif/seeded/<id>/ from SEEDS; seed.py check [filter] [--run]: confirm in /repo (apply, build, test, demo, undo)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"; R = "/repo"
FRAMER_SH = '''#!/bin/bash
# builds the framers from the sources in the current directory and runs demo.cpp against them
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
srcs="src/decoders/common/src/framer.cpp src/decoders/common/src/framer_manager.cpp src/common/src/common.cpp src/common/src/logger.cpp src/decoders/oem/src/framer.cpp $(ls src/decoders/oem/src/framer_*.cpp)"
for f in $srcs "$here/demo.cpp"; do
  g++ -w -std=c++17 -O1 %s -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -Iinclude -I"$here" -c "$f" -o "$out/$(basename "$f" .cpp)_$RANDOM.o" &
done
wait
g++ %s "$out"/*.o -lspdlog -lfmt -o "$out/demo"
cd "$out"
timeout 60 ./demo
'''
HDR_SH = '''#!/bin/bash
# compiles demo.cpp against the headers and common.cpp in the current directory and runs it
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -w -std=c++17 -O1 %s -Iinclude -I"$here" "$here/demo.cpp" src/common/src/common.cpp -o "$out/demo"
cd "$out"
timeout 60 ./demo
'''
LOG_SH = HDR_SH.replace("src/common/src/common.cpp -o", "src/common/src/common.cpp %s -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -lspdlog -lfmt -o")


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    subprocess.run("git -C %s archive HEAD src include | tar -x -C %s" % (R, t), shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm b", shell=True, cwd=t, check=True)
    for p, o, n in s["edits"]:
        f = os.path.join(t, p)
        x = open(f).read()
        assert x.count(o) >= 1, (s["id"], p, o)
        k = s.get("nth", {}).get(o, 0)
        parts = x.split(o)
        x = o.join(parts[:k + 1]) + n + o.join(parts[k + 1:])
        open(f, "w").write(x)
    diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout
    shutil.rmtree(t)
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    flags = s.get("flags", "")
    kind = s.get("kind", "hdr")
    if kind == "framer":
        sh = FRAMER_SH % (flags, flags)
        for f in ("simdjson.h", "novatel_edie/version.h", "spdlog_setup/spdlog_setup.hpp"):
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            shutil.copy(os.path.join(V, "stubs", f), os.path.join(d, f))
    elif kind == "src":
        sh = FRAMER_SH % (flags, flags)
        sh = re.sub(r'^srcs=.*$', 'srcs="%s"' % s["srcs"], sh, flags=re.M).replace("builds the framers from the sources", "builds the sources below")
        for f in ("simdjson.h", "novatel_edie/version.h", "spdlog_setup/spdlog_setup.hpp"):
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            shutil.copy(os.path.join(V, "stubs", f), os.path.join(d, f))
    elif kind == "log":
        sh = LOG_SH % (flags, s.get("srcs", ""))
        for f in ("simdjson.h", "novatel_edie/version.h", "spdlog_setup/spdlog_setup.hpp"):
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            shutil.copy(os.path.join(V, "stubs", f), os.path.join(d, f))
    else:
        sh = HDR_SH % flags
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def check(i, run):
    d = os.path.join(V, "seeded", i)
    t = tempfile.mkdtemp(prefix="seedc.", dir="/tmp")
    r = t + "/repo"
    try:
        subprocess.run(["cp", "-a", R, r], check=True)
        demo = t + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        a = subprocess.run(["bash", demo + "/demo.sh"], cwd=r, capture_output=True, text=True)
        p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, capture_output=True, text=True)
        if p.returncode:
            print(i, "PATCH DOES NOT APPLY", p.stderr[:200])
            return
        b = subprocess.run(["bash", demo + "/demo.sh"], cwd=r, capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0
        line = "%s demo clean rc=%d patched rc=%d %s" % (i, a.returncode, b.returncode, "ok" if ok else "???? " + (a.stdout + a.stderr)[-300:] + " / " + (b.stdout + b.stderr)[-300:])
        # the stable tests, with the patched headers
        w = subprocess.run("for t in common decoders_common; do :; done; cmake -S /opt/vp/partial -B %s/_b -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null && cmake --build %s/_b -j4 >/dev/null && ctest --test-dir %s/_b -j4 2>&1 | tail -4" % (t, r, t, t),
                           shell=True, capture_output=True, text=True)
        m = re.search(r"(\d+)% tests passed, (\d+) tests failed out of (\d+)", w.stdout)
        line += " tests: %s" % (m.group(0) if m else "?? " + (w.stdout + w.stderr)[-200:])
        if run:
            pid = json.load(open(d + "/meta.json"))["property"]
            c = subprocess.run([sys.executable, V + "/run.py", pid], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=t + "/ev"))
            line += "\n    check %s rc=%d %s %s" % (pid, c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED", " | ".join((c.stdout + c.stderr).strip().splitlines()[1:3])[:300])
        print(line, flush=True)
    finally:
        shutil.rmtree(t)


if sys.argv[1] == "make":
    ns = {}
    exec(open(sys.argv[2]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) < 4 or sys.argv[3] in s["id"]:
            make(s)
            print("made", s["id"])
else:
    f = [a for a in sys.argv[2:] if not a.startswith("--")]
    from concurrent.futures import ThreadPoolExecutor
    ids = [i for i in sorted(os.listdir(V + "/seeded")) if not f or any(x in i for x in f)]
    with ThreadPoolExecutor(max_workers=3) as ex:
        list(ex.map(lambda i: check(i, "--run" in sys.argv), ids))
