#!/usr/bin/env python3
"""helper of the author: random small changes of the sources, to find what no check notices.
mut.py WORKER N SEED [FILE..]: in a private mount namespace with copies of /repo and /verif; survivors are appended to /tmp/mut/survivors-WORKER.txt"""
import json, os, random, re, subprocess, sys, time, shutil
CH = {
 "NarUnify.rs": "C03 C06 C12 C13", "Term.rs": "C31 C01 C10 C03 C06", "TermUtils.rs": "C31 C19 C24", "TermApi.rs": "C31 C06", "NarseseParser.rs": "C01 C02",
 "Tv.rs": "C05 C04", "TvVec.rs": "C05", "NarStamp.rs": "C08 C11", "NarSentence.rs": "C31 C04 C08 C10 C23 C16", "NarMem.rs": "C10 C32 C11 C25 C09",
 "NarWorkingCycle.rs": "C06 C07 C08 C09 C10 C12 C32 C35 C15 C13 C11 C14 C23 C04 C34", "NarProc.rs": "C17 C18 C19 C25 C20 C21 C11 C24 C22 C04 C14", "NarGoalSystem.rs": "C20 C35 C32 C19 C11 C21 C04",
 "NarInfProcedural.rs": "C22 C20 C17 C21 C19", "NarInputFacade.rs": "C23 C02", "NarServer.rs": "C16", "Nar.rs": "C01 C25 C23 C10 C17", "OpLib.rs": "C24",
 "EnvPong3.rs": "C29", "ProcTicTacToe.rs": "C30", "ad.rs": "C26", "Nn.rs": "C26", "Map2d.rs": "C27", "ModVisionB.rs": "C28", "ModVisionC.rs": "C28", "ModVisionD.rs": "C28",
 "BinSearch.rs": "C35", "Reasoner1Entry.rs": "C34 C29", "ProcChaosEntry.rs": "C34", "NarUtilReadn.rs": "C23", "NarInteractive.rs": "C23", "Eval.rs": "C34", "ModNlpA.rs": "C33", "NarModuleNlp3.rs": "C33",
}
W = {"NarWorkingCycle.rs": 5, "NarProc.rs": 4, "NarGoalSystem.rs": 4, "NarseseParser.rs": 2, "Term.rs": 2, "NarUnify.rs": 2, "NarMem.rs": 2, "NarInfProcedural.rs": 2}
def regions(t):
    """code positions outside of tests and comments"""
    ok = [True] * len(t)
    for m in re.finditer(r"#\[cfg\(test\)\]", t):
        i = t.index("{", m.end()); d = 0
        for k in range(i, len(t)):
            d += t[k] == "{"; d -= t[k] == "}"
            if d == 0: break
        for x in range(m.start(), k): ok[x] = False
    for m in re.finditer(r"//[^\n]*|/\*.*?\*/|[^\n]*println!\([^\n]*|[^\n]*panic!\([^\n]*", t, re.S):
        for x in range(m.start(), m.end()): ok[x] = False
    return ok
OPS = [
 (r"(?<=\s)<(?=\s)", ["<="]), (r"(?<=\s)>(?=\s)", [">="]), (r"<=", ["<"]), (r"(?<![=-])>=", [">"]), (r"==(?!>)", ["!="]), (r"!=", ["=="]),
 (r"&&", ["||"]), (r"\|\|(?!\s*[{\w]+\s*\))", ["&&"]), (r"(?<=[\w\)\] ])\+(?=[\w\( ])(?!=)", ["-"]), (r"(?<=[\w\)\]])-(?=[\w\(])", ["+"]), (r"(?<=[\w\)] )-(?= [\w\(])", ["+"]), (r"(?<=[\w\)])\*(?=[\w\(])", ["+"]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.#\"])\d+(?![\w.\]])", ["+1", "-1"]), (r"(?<![\w.])\d+\.\d+(?![\w.])", ["f"]), (r"\[\d\]", ["idx"]),
 (r"(?m)^[ \t]+(?!let |use |pub |fn |return|type |const )[^\n{}/]*[^,{}\n];[^\n{}]*$", ["del"]), (r"\bcontinue;|\bbreak;", ["();"]), (r"(?m)if (?!let)[^\n{}]*\{", ["iftrue", "iffalse"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.all\(", [".any("]), (r"\.any\(", [".all("]),
 (r"\bINH\b", ["SIM"]), (r"!(?=[a-zA-Z_]+[\.\(\)])(?<![a-z]!)", [""]),
]
def mutants(t, rnd):
    ok = regions(t); res = []
    for rx, reps in OPS:
        for m in re.finditer(rx, t):
            if not all(ok[m.start():m.end()]): continue
            s = m.group(0)
            for rep in reps:
                if rep == "+1": n = str(int(s) + 1)
                elif rep == "-1": n = str(int(s) - 1) if int(s) > 0 else None
                elif rep == "f": n = {"0.0": "0.5", "1.0": "0.5"}.get(s, "%r" % (float(s) * 1.3))
                elif rep == "idx": n = "[%d]" % (1 - int(s[1])) if s[1] in "01" else "[%d]" % (int(s[1]) - 1)
                elif rep == "del": n = ""
                elif rep == "iftrue": n = "if true || (" + s[3:-1].strip() + ") {"
                elif rep == "iffalse": n = "if false && (" + s[3:-1].strip() + ") {"
                else: n = rep
                if n is None: continue
                res.append((m.start(), m.end(), s, n))
    return res
def sh(cmd, timeout=300):
    try: return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = str(e.stdout or "")
        return R
def inner(worker, n, seed, files):
    rnd = random.Random(seed)
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = "/tmp/mut/survivors-%s.txt" % worker
    stat = {}
    pool = files or [f for f in CH for _ in range(W.get(f, 1))]
    done = 0
    while done < n:
        f = rnd.choice(pool); p = "/repo/src/" + f
        checks = [c for c in CH[f].split() if os.path.exists("/verif/harness/src/bin/%s.rs" % c.lower())]
        if not checks: continue
        t = open(p, encoding="utf-8").read()
        ms = mutants(t, rnd)
        if not ms: continue
        a, b, s, r = rnd.choice(ms)
        ln = t.count("\n", 0, a) + 1
        key = "%s:%d %r -> %r" % (f, ln, s.strip(), r)
        open(p, "w", encoding="utf-8").write(t[:a] + r + t[b:])
        done += 1
        try:
            b1 = sh("bash /opt/vp/build.sh")
            if b1.returncode: stat["nobuild"] = stat.get("nobuild", 0) + 1; continue
            sh("bash /opt/vp/test.sh /tmp/mut/t-%s.json" % worker, 60)
            try: ps = json.load(open("/tmp/mut/t-%s.json" % worker))["passed"]
            except Exception: ps = []
            if len(ps) < 30: stat["tests"] = stat.get("tests", 0) + 1; continue
            res = None
            for c in checks:
                k = sh("cd /verif && VH_BUDGET=%s python3 check.py %s --tier quick --seed %d" % (os.environ.get("MB", "6"), c, rnd.randrange(1000)), 400)
                if k.returncode == 1: res = c; break
                if k.returncode not in (0, 1):
                    res = "BROKEN %s %d %s" % (c, k.returncode, k.stdout[-300:]); break
            if res is None:
                stat["survived"] = stat.get("survived", 0) + 1
                line = t.splitlines()[ln - 1].strip()
                open(out, "a").write("SURV %s   | %s\n" % (key, line[:160]))
            elif res.startswith("BROKEN"):
                open(out, "a").write("%s %s\n" % (res.replace("\n", " "), key))
            else:
                stat["caught"] = stat.get("caught", 0) + 1
                open("/tmp/mut/caught-%s.txt" % worker, "a").write("%s %s\n" % (res, key))
        finally:
            open(p, "w", encoding="utf-8").write(t)
            open("/tmp/mut/stat-%s.json" % worker, "w").write(json.dumps(stat))
if __name__ == "__main__":
    if os.environ.get("MUT_INNER"):
        inner(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
    else:
        w = sys.argv[1]; d = "/tmp/mut/w%s" % w
        os.makedirs(d, exist_ok=True)
        for x in ("repo", "verif"):
            subprocess.check_call("rm -rf %s/%s && cp -a /%s %s/%s" % (d, x, x, d, x), shell=True)
        os.environ["MUT_INNER"] = "1"
        shutil.copy(os.path.abspath(__file__), d + "/mut.py")
        os.execvp("unshare", ["unshare", "-Urmnpf", "--mount-proc", "bash", "-c", "ip link set lo up; mount --bind %s/repo /repo && mount --bind %s/verif /verif && exec python3 %s/mut.py %s" % (d, d, d, " ".join(sys.argv[1:]))])
