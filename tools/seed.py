#!/usr/bin/env python3
"""helper of the author: confirm planted bugs and measure which checks catch them.
seed.py confirm ID [ID..]: in a scratch copy of /repo, patch applies, builds, stable tests pass, demo fails with it and passes without
seed.py catch ID [ID..] [--props C01,C02 | --seeds 1,2]: apply to /repo, run the check of its property, undo
seed.py save ID PROP NEEDS BREAKS: store the changes made in the scratch copy as seeded/ID"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w"
E = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
         CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
E.pop("RUSTFLAGS", None); E.pop("CARGO_TARGET_DIR", None)

def sh(cmd, cwd=W, timeout=900, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **k)

def scratch():
    if not os.path.exists(W):
        subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD")

def build():
    return sh("cargo build --workspace --offline && cargo test --workspace --no-run --offline")

def tests():
    p = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    base = json.load(open("/opt/vp/BASELINE.json"))
    ok = set()
    for l in p.stdout.splitlines():
        if l.startswith("test ") and l.rstrip().endswith("... ok"):
            ok.add(l[5:].rsplit(" ...", 1)[0].strip())
    names = base.get("stable") or base.get("tests") or base.get("passed") or base
    names = [n if isinstance(n, str) else n.get("name") for n in (names if isinstance(names, list) else list(names))]
    miss = [n for n in names if not any(n.endswith(o) or o.endswith(n) for o in ok)]
    return miss

def save(i, prop, needs, breaks):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    shutil.copy(os.path.join(V, "tools/demo.sh"), d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .")

def confirm(i):
    d = os.path.join(V, "seeded", i)
    scratch()
    sh("git checkout -q -- .")
    p = sh("git apply %s/patch.diff" % d)
    if p.returncode: return "patch does not apply " + p.stdout
    p = build()
    if p.returncode: sh("git checkout -q -- ."); return "build fails " + p.stdout[-1500:]
    m = tests()
    if m: m = [x for x in tests() if x in m]
    d1 = sh("bash %s/demo.sh" % d)
    sh("git checkout -q -- .")
    if m: return "tests fail: %s" % m
    if d1.returncode == 0: return "demo passes with the patch: " + d1.stdout[-800:]
    if d1.returncode == 3: return "demo does not compile: " + d1.stdout[-1500:]
    build()
    d0 = sh("bash %s/demo.sh" % d)
    if d0.returncode: return "demo fails without the patch: " + d0.stdout[-1500:]
    return "ok"

def catch(i, props, seeds):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    out = []
    for p in props or [meta["property"]]:
        for s in seeds:
            subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
            try:
                r = subprocess.run(["python3", "check.py", p, "--seed", s], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_TIER="quick"))
            finally:
                subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
            cls = sorted(set(l[1:].split("]")[0] for l in r.stdout.splitlines() if l.startswith("[")))
            out.append("%s seed %s: exit %d %s" % (p, s, r.returncode, cls if r.returncode == 1 else r.stdout[-300:]))
    return "; ".join(out)

if __name__ == "__main__":
    a = sys.argv[2:]
    props, seeds, ids = None, ["1"], []
    if sys.argv[1] == "save":
        save(*a); sys.exit(0)
    k = 0
    while k < len(a):
        if a[k] == "--props": props = a[k+1].split(","); k += 2
        elif a[k] == "--seeds": seeds = a[k+1].split(","); k += 2
        else: ids.append(a[k]); k += 1
    if ids == ["all"]: ids = sorted(os.listdir(os.path.join(V, "seeded")))
    if sys.argv[1] == "confirm":
        for i in ids: print(i, confirm(i), flush=True)
    else:
        for i in ids: print(i, catch(i, props, seeds), flush=True)
