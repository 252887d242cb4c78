#!/usr/bin/env python3
"""Development aid: confirm planted bugs in scratch clones and store them in seeded/.

    plant.py DEFS.py [id ...]        confirm and store
DEFS.py defines BUGS: id -> dict(property, needs, breaks, edits=[(file, old, new)], demo=<C++ source>)
"""
import json, os, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the library behaves as the property says; run with cwd at the repository
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
%s
'''
BUILD = '''g++ -std=c++17 -O1 -w -pthread -I "$PWD/include" "$here/demo.cpp" -o "$work/demo" || exit 2
timeout 120 "$work/demo"
'''


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def confirm(i, b):
    w = "/tmp/sd/" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/sd", exist_ok=True)
    sh("git clone -q /repo " + w)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) < 1:
            return "%s: text not found in %s: %r" % (i, f, old[:60])
        n = b.get("nth", {}).get(f, 0)
        at = -1
        for _ in range(n + 1):
            at = s.index(old, at + 1)
        s = s[:at] + new + s[at + len(old):]
        open(p, "w").write(s)
    for f, text in b.get("new", {}).items():
        open(os.path.join(w, f), "w").write(text)
    diff = sh("git add -N . && git diff", w).stdout
    d = os.path.join(ROOT, "seeded", i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    if "demo" in b:
        open(d + "/demo.cpp", "w").write(b["demo"])
    open(d + "/demo.sh", "w").write(DEMO % (b.get("run") or BUILD))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON && ninja -C _b && ctest --test-dir _b -j8 -E test_g3helloEngabra", w)
    if r.returncode:
        shutil.rmtree(d)
        return "%s: build or tests fail:\n%s" % (i, (r.stdout + r.stderr)[-600:])
    bad = sh("bash %s/demo.sh" % d, w)
    good = sh("bash %s/demo.sh" % d, "/repo")
    if good.returncode != 0 or bad.returncode == 0:
        shutil.rmtree(d)
        return "%s: demo unchanged=%d changed=%d %s%s" % (i, good.returncode, bad.returncode, good.stderr[-800:], bad.stderr[-800:])
    shutil.rmtree(w + "/_b")
    return "%s: confirmed (demo ends with %d)" % (i, bad.returncode)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for i in sys.argv[2:] or bugs:
        print(confirm(i, bugs[i]), flush=True)
