#!/usr/bin/env python3
"""helper of the author: mkseed.py SPEC.py [ID..]: SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)]; stores and confirms each"""
import importlib.util, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
for s in m.SEEDS:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    seed.scratch()
    for f, o, n in s["edits"]:
        p = os.path.join(seed.W, f); t = open(p, encoding="utf-8").read()
        if t.count(o) != 1: print(s["id"], "edit text occurs", t.count(o), "times:", o[:80]); break
        open(p, "w", encoding="utf-8").write(t.replace(o, n))
    else:
        d = os.path.join(seed.V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        if "demo" in s: open(d + "/demo.rs", "w", encoding="utf-8").write(s["demo"])
        seed.save(s["id"], s["prop"], s["needs"], s["breaks"])
        if "demo_py" in s:
            open(d + "/demo.py", "w", encoding="utf-8").write(s["demo_py"])
            open(d + "/demo.sh", "w").write("""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 4
trap 'rm -rf "$T"' EXIT
export REPO=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
cd "$T" && timeout 200 python3 "$here/demo.py"
""")
        print(s["id"], seed.confirm(s["id"]), flush=True)
    seed.sh("git checkout -q -- .")
