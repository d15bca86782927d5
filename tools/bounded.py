"""Executable contracts: finds concrete failing inputs, stands in (labelled bounded) where a function is
outside the verifiers' reach, and validates assumed contracts.  Never counted as proved."""
import glob
import json
import os
import shutil
import threading
import time

from . import cli
from .common import VERIF, WORK, cargo_env, run, seed, tier

HARNESS = os.path.join(VERIF, "harness")
BIN = os.path.join(HARNESS, "target", "release", "cambrian-contract-harness")

# properties a suite speaks about when the process under test dies (stack overflow, abort)
CRASH = {"codec": ["C11", "C15"], "specdoc": ["C10", "C15"], "ops": ["C12", "C13", "C15"], "targeted": ["C13", "C17"], "runs": ["C15"], "launcher": ["C15"],
         "battery": ["C15", "C17"], "adversarial": ["C15"], "meta": ["C14", "C15"]}


def build():
    # cargo goes by mtime: always recompile the crate under test
    for d in glob.glob(os.path.join(HARNESS, "target", "release", ".fingerprint", "cambrian-*")):
        shutil.rmtree(d, ignore_errors=True)
    rc, o, e = run(["cargo", "build", "--release", "--offline", "--locked"], 700, cwd=HARNESS,
                   env=cargo_env({"RUSTFLAGS": "--cfg cambrian_verif"}))
    if rc != 0:
        raise RuntimeError("the harness does not build against /repo: " + e[-2500:])


def one(suite, sd, scale, secs):
    cmd = [BIN, "--suites", suite, "--seed", str(sd), "--scale", str(scale), "--max-secs", str(secs)]
    rc, o, e = run(cmd, secs + 90, cwd=HARNESS)
    fs, ks, st, h = [], [], {}, None
    for line in o.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if "finding" in d:
            f = d["finding"]
            f["reproduce"] = "%s --suites %s --seed %s --index %s" % (BIN, f["suite"] or suite, f["seed"], f["index"])
            fs.append(f)
        elif "known" in d:
            ks.append(d["known"])
        elif "stats" in d:
            st = d["stats"]
            h = d["trace_hash"]
    note = None
    if rc is None:
        note = "suite %s (seed %s) exceeded its time" % (suite, sd)
    elif rc < 0 and rc != -9:
        for p in CRASH.get(suite, ["C15"]):
            fs.append({"property": p, "clause": "process dies", "detail": "signal %d: %s" % (-rc, e[-600:]), "suite": suite, "seed": sd,
                       "index": "?", "reproduce": " ".join(cmd)})
    elif rc != 0:
        note = "suite %s (seed %s): exit %s %s" % (suite, sd, rc, e[-300:])
    return fs, ks, st, h, note


def run_all(pid, cfg, deadline):
    res = {"findings": [], "known": [], "suites": {}, "notes": []}
    lock = threading.Lock()
    thorough = tier() == "thorough"

    def merge(fs, ks, st, note):
        with lock:
            res["findings"] += [f for f in fs if f["property"] == pid]
            seen = {k["entry"] for k in res["known"]}
            res["known"] += [k for k in ks if k["property"] == pid and k["entry"] not in seen]
            for k, s in st.items():
                t = res["suites"].setdefault(k, {"cases": 0, "distinct_nontrivial": 0, "rule": s["rule"], "samples": []})
                t["cases"] += s["cases"]
                t["distinct_nontrivial"] += s["distinct_nontrivial"]
                t["samples"] = (t["samples"] + s["samples"])[:3]
            if note:
                res["notes"].append(note)

    def harness():
        try:
            build()
        except Exception as e:
            with lock:
                res["notes"].append(str(e))
            return
        ts = []
        for suite, scale in cfg.get("suites", {}).items():
            shards = 1 if suite in ("battery",) else cfg.get("shards", 2)
            if thorough and suite != "battery":
                shards *= 3
            secs = cfg.get("secs", 75) if not thorough else 900
            for k in range(shards):
                def go(suite=suite, scale=scale, k=k):
                    fs, ks, st, h, note = one(suite, seed() + 7919 * k, scale * (20 if thorough else 1), secs)
                    merge(fs, ks, st, note)
                    if k == 0 and suite in cfg.get("twice", []):
                        fs2, ks2, st2, h2, note2 = one(suite, seed(), scale * (20 if thorough else 1), secs)
                        if h and h2 and st == st2 and h != h2 or h and h2 and any(st[x]["cases"] == st2.get(x, {}).get("cases") and h != h2 for x in st):
                            with lock:
                                res["findings"].append({"property": "C09", "clause": "two processes, same run", "detail": "traces differ: %s / %s" % (h, h2),
                                                        "suite": suite, "seed": seed(), "reproduce": "%s --suites %s --seed %d (twice)" % (BIN, suite, seed())})
                t = threading.Thread(target=go)
                t.start()
                ts.append(t)
        for t in ts:
            t.join()

    def clisuite():
        try:
            r = cli.run_suite({pid}, max(30, min(400, deadline - time.time() - 60)))
        except Exception as e:
            with lock:
                res["notes"].append("cli: " + str(e)[:1500])
            return
        with lock:
            for f in r["findings"]:
                if f["property"] == pid:
                    f["reproduce"] = "scenario %s of tools/cli.py; command and objective program are in this file" % f["case"]
                    res["findings"].append(f)
            res["notes"] += r["notes"]
            res["suites"]["cli"] = r["stats"]

    ts = []
    if cfg.get("suites"):
        ts.append(threading.Thread(target=harness))
    if cfg.get("cli"):
        ts.append(threading.Thread(target=clisuite))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res
