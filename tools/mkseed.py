#!/usr/bin/env python3
"""mkseed.py FILE: makes seeded/<id>/ folders from a python file defining SEEDS (id, property, [(file, old, new)...], needs, breaks, demo{name:text})."""
import json, os, subprocess, sys
g = {}; exec(open(sys.argv[1]).read(), g)
W = "/tmp/mkseed_wt"
if not os.path.exists(W): subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-f", "--detach", W], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
DEMO_SH = """#!/bin/bash
# cwd: /repo after the build; exits 0 when the behaviour is right
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
{compile}
timeout 120 "$t/demo"
"""
LIB = 'g++ -std=c++17 -w -g -DNANOARROW_NAMESPACE=OFF -Isrc -Isrc/vendor -I_build/cpp/geoarrow/generated "$here/demo.cc" _build/cpp/geoarrow/libgeoarrow.a _build/cpp/geoarrow/libgeoarrow_nanoarrow.a -o "$t/demo"'
ASAN = '''S="-g -O1 -w -fsanitize=address,undefined -fno-sanitize=alignment,pointer-overflow -fno-sanitize-recover=undefined -Isrc -Isrc/vendor -I_build/cpp/geoarrow/generated"
for f in src/geoarrow/*.c src/geoarrow/ryu/*.c src/vendor/nanoarrow/nanoarrow.c; do gcc $S -c "$f" -o "$t/$(echo $f | tr / _).o" & done; wait
g++ -std=c++17 $S "$here/demo.cc" src/geoarrow/double_parse_fast_float.cc "$t"/*.o -o "$t/demo"'''
PY = None
for s in g["SEEDS"]:
    i, prop, edits, needs, breaks, demo = s[:6]
    kind = s[6] if len(s) > 6 else "lib"
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "."])
    bad = False
    for f, a, b in edits:
        t = open(f"{W}/{f}").read()
        if t.count(a) != 1: print("!!", i, f, "matches", t.count(a)); bad = True; continue
        open(f"{W}/{f}", "w").write(t.replace(a, b))
    if bad: continue
    d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if kind == "py":
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=python/geoarrow-c/src timeout 200 /opt/vp/venv/bin/python "$here/demo.py"\n')
    else:
        open(d + "/demo.cc", "w").write(g.get("HEAD", "") + demo)
        open(d + "/demo.sh", "w").write(DEMO_SH.replace("{compile}", ASAN if kind == "asan" else LIB))
    print("made", i)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "."])
