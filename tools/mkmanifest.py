#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the monitors which exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitor: generated input lines against an independent printer/grammar oracle",
 "C02": "runtime monitor: panic, hang and liveness monitors over hostile line sequences on a live session",
 "C03": "runtime monitor: reference matcher observing every match and substitution on generated term pairs",
 "C04": "online invariant monitor on hooked shared state of live concurrent runs",
 "C05": "runtime monitor: reference truth functions compared on generated and extreme values",
 "C06": "runtime monitor: reference rule table compared with the conclusions of the real inference, both orders",
 "C07": "runtime monitor: reference rule table compared with the conclusions of the real structural inference",
 "C08": "evidence-ledger monitor: every belief's counts recomputed from its stamp; overlap monitors",
 "C09": "history checker: pooled-evidence ledger against the whole belief memory, plus race stress",
 "C10": "history checker: exact expected belief memory against the real one",
 "C11": "online bound monitors under sustained load",
 "C12": "trace checker over recorded answers of listeners",
 "C13": "bounded-liveness monitor over recorded answers",
 "C14": "stress with hang watchdog, thread-end monitor and liveness monitor over many schedules",
 "C15": "offline closure checker over the recorded content of memory",
 "C16": "offline trace checker (order, exactly once, completeness) over recorded TCP sessions",
 "C17": "offline trace checker: learned evidence justified by the recorded event log",
 "C18": "ledger monitor: reference model of anticipations stepped beside the real system",
 "C19": "online trace checker: each executed operation justified from the state before the step",
 "C20": "online monitor: each derived goal justified; satisfaction recomputed",
 "C21": "bounded-liveness monitor over recorded operation calls",
 "C22": "runtime monitor: stored variants compared with a reference abstraction",
 "C23": "history checker: command sequences against a reference model of the session",
 "C24": "runtime monitor: recorded calls and memory deltas against a reference",
 "C25": "history checker: told temporal knowledge against the real memory and recorded answers",
 "C26": "runtime monitor: reference evaluation and symbolic derivative on generated expressions",
 "C27": "runtime monitor: per-cell reference geometry on generated calls",
 "C28": "history checker: reference classifier stepped beside the real one",
 "C29": "online trace checker over recorded game states",
 "C30": "online trace checker over recorded game states",
 "C31": "runtime monitor: reference term model compared on generated terms",
 "C32": "runtime monitor: kept against dropped content recomputed from recorded state before cleanup",
 "C33": "runtime monitor: reference interpreter of generated networks compared with extracted relations and the belief memory",
 "C34": "offline trace checker over the output of the real programs; recorded answer times against the reported ones",
 "C36": "offline checker: lines recorded by a stand-in for the reasoner, and lines read, against what was planned; output of the relation tool read by the real parser",
 "C35": "online monitor: each selected work item compared with reference credits; sampling frequencies against their shares (Chernoff bound)",
}
NOTE = "Exploration: an independent oracle watches executions of the real code built from /repo's current tree, under generated, hostile and (where threads are involved) concurrent workloads. It shows that nothing observed broke the property; it does not prove that unobserved inputs or schedules do not. Trusted: the reference models in harness/src, rustc. See DESIGN.md for what each monitor watches."
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "harness/src/bin/%s.rs" % p.lower())):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": TECH[p], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "monitor not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: all state the monitors watch is public. Repairs of defects are the fix: commits listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
