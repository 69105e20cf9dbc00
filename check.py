#!/usr/bin/env python3
"""Driver of one check: builds the monitor binary of a property against the current tree of /repo, runs it,
writes /verif/evidence/<id>.json and reports.

usage: check.py PROP [--tier quick|thorough] [--seed N] [--budget S]
exit 0: property held on everything observed; 1: violation; 2: the check itself could not be done"""
import fcntl
import json
import os
import resource
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.environ.get("VH_TARGET", os.path.join(VERIF, "target"))
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
PROFILE = "debug"
AS_LIMIT = 20 << 30


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTFLAGS"] = "-Awarnings"
    return e


def build(bins):
    os.makedirs(TARGET, exist_ok=True)
    cmd = ["cargo", "build", "--offline", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    with open(os.path.join(TARGET, ".vh.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lib = os.path.join(TARGET, "fastclock.so")
        if not os.path.exists(lib):
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, os.path.join(HARNESS, "fastclock.c")], check=False)
    return p.returncode, p.stdout


def all_bins():
    d = os.path.join(HARNESS, "src", "bin")
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith(".rs")) + ["nar20_main"]


# monitors which run the real program
PROGRAM = ["c23", "c25", "c34", "c36"]


def known(prop):
    """classes/inputs listed as known findings: 'known: property=<id> class=<class> match=<substring> <text>'"""
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known: property=%s " % prop):
                continue
            rest = line[len("known: property=%s " % prop):]
            cls = rest.split("class=", 1)[1].split(" ", 1)[0]
            match = rest.split('match="', 1)[1].split('"', 1)[0]
            text = rest.split('match="', 1)[1].split('"', 1)[1].strip()
            res.append((cls, match, text))
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        rc, out = build(all_bins())
        if rc != 0:
            print(out)
        return 2 if rc else 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    e = env()
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--seed":
            seed = args[i + 1]
        elif args[i] == "--budget":
            e["VH_BUDGET"] = args[i + 1]
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(seed)
    except ValueError:
        seed = 1
    name = prop.lower()
    t0 = time.time()
    rc, out = build([name] + (["nar20_main"] if name in PROGRAM else []))
    if rc != 0:
        print("the monitor of %s could not be built against the current tree:" % prop)
        errs = [l for l in out.splitlines()]
        print("\n".join(errs[-60:]))
        return 2
    outdir = os.path.join(VERIF, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    resf = os.path.join(outdir, "result-%d.json" % os.getpid())
    logf = os.path.join(outdir, "log-%s.txt" % tier)
    if os.path.exists(resf):
        os.remove(resf)
    e["VH_OUT"] = resf
    e["VERIF_SEED"] = str(seed)
    e["VERIF_TIER"] = tier
    e["RUST_BACKTRACE"] = "0"
    limit = 840 if tier == "quick" else 3400
    scratch = os.path.join(outdir, "scratch")
    os.makedirs(scratch, exist_ok=True)
    e["VH_SCRATCH"] = scratch
    if os.path.exists(os.path.join(TARGET, "fastclock.so")):
        e["VH_CLOCKLIB"] = os.path.join(TARGET, "fastclock.so")
    with open(logf, "wb") as log:
        # endless growth of memory ends in an abort of the process instead of exhausting the machine
        p = subprocess.Popen([os.path.join(TARGET, PROFILE, name)], cwd=scratch, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=log, start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT)))
        try:
            code = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            code = "timeout"
    wall = time.time() - t0
    res = None
    if os.path.exists(resf):
        try:
            res = json.load(open(resf, encoding="utf-8"))
        except ValueError:
            res = None
        os.remove(resf)
    viols = []
    if res is None:
        if isinstance(code, int) and code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
            # e.g. stack overflow or abort inside of the code under test
            tail = open(logf, errors="replace").read()[-2000:]
            viols = [{"class": "abort", "detail": "process ended by signal %d; log: %s" % (-code, tail)}]
            res = {"evaluations": 0, "distinct": 0, "rule": "", "samples": [], "counters": {}, "assumptions": [], "harness_errors": []}
        else:
            print("no result from the monitor (exit %s), log in %s" % (code, logf))
            print(open(logf, errors="replace").read()[-3000:])
            return 2
    else:
        viols = res["violations"]
    kn = known(prop)
    fresh = []
    seen = []
    for v in viols:
        for k in kn:
            if v["class"] == k[0] and k[1] in v["detail"]:
                if k[2] not in seen:
                    seen.append(k[2])
                break
        else:
            fresh.append(v)
    for s in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, s))
    cov = {
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct"],
        "rule": res["rule"],
        "samples": res["samples"][:12],
        "observed": res["counters"],
    }
    evid = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "wall_s": round(wall, 2),
        "assumptions": res["assumptions"],
        "violations": len(fresh),
        "violation_details": [{"class": v["class"], "detail": v["detail"][:2000]} for v in fresh],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(evid, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if fresh:
        rep = os.path.join(outdir, "violation-%s-%d.json" % (tier, seed))
        with open(rep, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s" % (seed, tier, VERIF, prop),
                       "violations": fresh}, f, indent=1, ensure_ascii=False)
        for v in fresh[:6]:
            print("[%s] %s" % (v["class"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if res.get("harness_errors"):
        print("the monitor itself failed:")
        for h in res["harness_errors"][:5]:
            print(h)
        return 2
    print("%s %s: held; %d evaluations, %d distinct non-trivial, %.1f s; %s" % (
        prop, tier, res["evaluations"], res["distinct"], wall, json.dumps(res["counters"], ensure_ascii=False)))
    if res["evaluations"] == 0 or res["distinct"] == 0:
        print("nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
