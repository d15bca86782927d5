#!/usr/bin/env python3
"""Decide one property of /repo's current working tree.  Usage: check.py C01

Exit 0: held on everything explored; exit 1: a line `VIOLATION property=<id> replay=<path>`.
See DESIGN.md for how the layers fit together."""
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from tools import deductive, bounded, props  # noqa: E402
from tools.common import REPO, WORK, log, seed, tier  # noqa: E402


def known_findings(pid):
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            w = line.split()
            if len(w) >= 3 and w[0] == "known:" and w[1] == "property=" + pid:
                out.append((w[2], " ".join(w[3:])))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    cfg = props.PROPS[pid]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = known_findings(pid)
    deadline = t0 + (780 if tier() == "quick" else 3300)

    res = {}

    def ded():
        try:
            res["ded"] = deductive.run_all(pid, cfg, deadline)
        except Exception as e:  # the machinery itself failed: undecided, never a violation
            import traceback
            res["ded"] = {"error": traceback.format_exc(), "failed": [], "undecided": [("machinery", str(e))]}

    def bnd():
        try:
            res["bnd"] = bounded.run_all(pid, cfg, deadline)
        except Exception as e:
            import traceback
            res["bnd"] = {"error": traceback.format_exc(), "findings": [], "known": [], "notes": [str(e)], "suites": {}}

    th = [threading.Thread(target=ded), threading.Thread(target=bnd)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    d, b = res["ded"], res["bnd"]

    # ---- known findings
    listed = {k for k, _ in known}
    findings = list(b["findings"])
    for k in b["known"]:
        if k["entry"] not in listed:
            findings.append(dict(k, clause="known entry no longer listed: " + k["entry"]))
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, what))

    # ---- verdict
    violations = []
    rdir = os.path.join(WORK, "replay")
    os.makedirs(rdir, exist_ok=True)
    failed = d.get("failed", [])
    if findings:
        for n, f in enumerate(findings[:5]):
            p = os.path.join(rdir, "%s-input-%d.json" % (pid, n))
            with open(p, "w") as o:
                json.dump({"property": pid, "failing_input": f, "failed_obligations": failed,
                           "reproduce": f.get("reproduce", "")}, o, indent=1)
            violations.append("VIOLATION property=%s replay=%s" % (pid, p))
            log("finding:", f.get("clause"), str(f.get("detail"))[:600])
    elif failed:
        p = os.path.join(rdir, "%s-obligation.json" % pid)
        with open(p, "w") as o:
            json.dump({"property": pid, "failing_input": None, "failed_obligations": failed,
                       "reproduce": d.get("checker_cmd", "")}, o, indent=1)
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
    for f in failed:
        log("failed obligation:", f["fn"], "|", f["message"], "|", f.get("clause", ""))
    for u in d.get("undecided", []):
        log("undecided:", *u)
    for n in b.get("notes", []):
        log("note:", n)
    if d.get("error"):
        log(d["error"])
    if b.get("error"):
        log(b["error"])

    # ---- evidence
    cov = {
        "obligations": d.get("obligations", 0),
        "discharged": d.get("discharged", 0),
        "checker_cmd": d.get("checker_cmd", ""),
        "trusted_base": d.get("trusted_base", []),
        "functions_under_contract": d.get("functions", []),
        "contract_clauses": d.get("clauses", 0),
        "lemmas": d.get("lemmas", []),
        "back_end": d.get("back_end", "Verus / Z3"),
        "solver_time_ms": d.get("smt_ms", 0),
        "failed_obligations": failed,
        "undecided": ["%s: %s" % u for u in d.get("undecided", [])],
        "vacuity_probes": d.get("probes", {}),
        "kani": d.get("kani", {}),
        "bounded": {"label": "bounded stand-ins and validation of assumed contracts; never counted as proved",
                    "suites": b.get("suites", {}), "notes": b.get("notes", [])},
        "evaluations": sum(s.get("cases", 0) for s in b.get("suites", {}).values()),
        "distinct_nontrivial": sum(s.get("distinct_nontrivial", 0) for s in b.get("suites", {}).values()),
    }
    cov["rule"] = "; ".join("%s: %s" % (k, s.get("rule", "")) for k, s in b.get("suites", {}).items())
    cov["samples"] = [x for s in b.get("suites", {}).values() for x in s.get("samples", [])][:6]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as o:
        json.dump({"property": pid, "tier": tier(), "seed": seed(), "level": "proof" if cfg.get("contracts") else "exploration",
                   "coverage": cov, "assumptions": cfg.get("assumptions", []) + d.get("assumptions", []),
                   "wall_s": round(time.time() - t0, 1), "violations": len(violations)}, o, indent=1)

    print("%s: %d obligations, %d discharged, %d failed, %d undecided; %d bounded cases, %d findings; %.0f s" % (
        pid, cov["obligations"], cov["discharged"], len(failed), len(cov["undecided"]),
        cov["evaluations"], len(findings), time.time() - t0))
    for v in violations:
        print(v)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
