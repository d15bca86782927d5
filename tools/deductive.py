"""The deciding layer: vx extracts the functions from /repo/src, Verus discharges every obligation."""
import json
import os
import re
import threading
import time

from .common import REPO, VERIF, WORK, cargo_env, log, run

VX = os.path.join(VERIF, "vx", "target", "debug", "vx")
CONTRACTS = os.path.join(VERIF, "contracts")

# Verus messages that are verification results (anything else is an error of the machinery)
VERIF_MSGS = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion failure",
    "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
    "decreases not satisfied", "unreachable", "possible bit shift underflow/overflow", "loop ensures not satisfied",
    "cannot show invariant holds", "assert_by_contradiction", "failed precondition", "recommendation not met",
    "could not prove termination", "assertion not satisfied", "constructed value may fail to meet its declared type invariant",
    "possible index out of bounds", "split precondition failure", "split postcondition failure", "split assertion failure",
    "trait method", "opens_invariants", "forall", "cast",
]
LIMIT_MSGS = ["Resource limit (rlimit) exceeded", "while loop: Resource limit", "function body check: Resource limit",
              "could not finish", "smt solver"]


def build_vx():
    rc, o, e = run(["cargo", "build", "--offline", "--locked"], 600, cwd=os.path.join(VERIF, "vx"), env=cargo_env())
    if rc != 0:
        raise RuntimeError("vx does not build:\n" + e[-3000:])


def extract(pid, files, out, skip, probe=False):
    cmd = [VX, "--repo", REPO, "--contracts", CONTRACTS, "--prop", pid, "--out", out]
    for f in files:
        cmd += ["--file", f]
    for s in sorted(skip):
        cmd += ["--skip", s]
    if probe:
        cmd += ["--probe", "1"]
    rc, o, e = run(cmd, 60)
    if rc != 0:
        raise RuntimeError("vx failed: " + (o + e)[-3000:])
    with open(out + ".json") as f:
        return json.load(f)


def verus(path, rlimit, multi, timeout):
    cmd = ["verus", os.path.basename(path), "--rlimit", str(rlimit), "--multiple-errors", str(multi),
           "--output-json", "--time-expanded", "--error-format=json"]
    rc, o, e = run(cmd, timeout, cwd=os.path.dirname(path))
    diags = []
    for line in e.splitlines():
        line = line.strip()
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    js = None
    i = o.find("{")
    if i >= 0:
        try:
            js = json.loads(o[i:])
        except ValueError:
            js = None
    return rc, js, diags, " ".join(cmd), e


def lines_of(d):
    out = []
    for s in d.get("spans", []):
        out.append((s["line_start"], bool(s.get("is_primary")), s.get("label") or "", "".join(t["text"] for t in s.get("text", []))[:300]))
    for c in d.get("children", []):
        for s in c.get("spans", []):
            out.append((s["line_start"], False, s.get("label") or c.get("message", ""), ""))
    return out


class Map:
    def __init__(self, m):
        self.fns = [x for x in m["map"] if x["kind"] == "fn"]
        self.raw = [x for x in m["map"] if x["kind"] == "raw"]
        self.clauses = [x for x in m["map"] if x["kind"] == "clause"]
        self.types = [x for x in m["map"] if x["kind"] == "type"]
        self.warnings = m["warnings"]

    def fn_at(self, line):
        for f in self.fns:
            if f["start"] <= line <= f["end"]:
                return f
        return None

    def raw_at(self, line):
        for f in self.raw:
            if f["start"] <= line <= f["end"]:
                return f
        return None

    def clause_at(self, line):
        for c in self.clauses:
            if c["line"] == line:
                return "%s: %s" % (c["contract"], c["text"])
        return ""


def classify(msg):
    for m in LIMIT_MSGS:
        if m in msg:
            return "limit"
    for m in VERIF_MSGS:
        if m in msg:
            return "verif"
    return "compile"


STRUCTURE = {"unsupported", "signature", "source"}
# the annotations do not line up with the code any more: the proof is tried all the same, and when it fails nothing is
# concluded (the function falls to the bounded layer)
SOFT = {"unannotated-loop", "lost-loop", "lost-point", "lost-anchor"}


PANIC_MSGS = ("possible arithmetic", "possible division", "possible bit shift", "possible index", "could not prove termination", "decreases not satisfied")


def panic_only(d):
    """An obligation that only says `does not panic` or `terminates`: a precondition of a std function, an overflow, a decreases."""
    if d["message"].startswith(PANIC_MSGS):
        return True
    if d["message"].startswith("precondition not satisfied"):
        text = json.dumps(d)
        return "std_specs/" in text or "vx_unreachable" in text or "vstd/" in text or "// panics" in text
    return False


def marked(d, mark):
    """One of the clauses involved carries the mark vx left for a `//@` in the contract: `// decides` this property, or,
    `// aside`, only others."""
    return any(sp["line_start"] == sp["line_end"] and any(mark in t["text"] for t in sp.get("text", [])) for sp in d.get("spans", []))


def decides(d, mode):
    """Whether a failed obligation decides the property.  mode: {"panics": freedom from panics is the property,
    "tagged": only clauses that name the property decide it}"""
    if marked(d, "// aside"):
        return False
    if mode.get("tagged"):
        return marked(d, "// decides")
    return mode.get("panics") or not panic_only(d)


def run_set(pid, name, files, deadline, outdir, mode):
    """One Verus file.  Returns the dictionary used by check.py."""
    r = {"failed": [], "undecided": [], "functions": [], "lemmas": [], "obligations": 0, "discharged": 0,
         "clauses": 0, "smt_ms": 0, "trusted": [], "probes": {}, "cmds": []}
    out = os.path.join(outdir, "%s_%s.rs" % (pid, name))
    skip = set()
    reasons = {}
    m = None
    js = None
    diags = []
    for attempt in range(8):
        m = Map(extract(pid, files, out, skip))
        new = set()
        for w in m.warnings:
            if w["kind"] in STRUCTURE and w["fn"] not in skip and any(f["fn"] == w["fn"] and f["mode"] == "verified" for f in m.fns):
                new.add(w["fn"])
                reasons.setdefault(w["fn"], "%s: %s" % (w["kind"], w["what"]))
        if new:
            skip |= new
            continue
        left = max(30, deadline - time.time())
        rc, js, diags, cmd, err = verus(out, 60, 8, min(left, 500))
        r["cmds"] = [cmd]
        comp = [d for d in diags if classify(d["message"]) == "compile" and not d["message"].startswith("aborting due")]
        if rc is None:
            r["undecided"].append((name, "verus timed out"))
            return r, m
        vr = (js or {}).get("verification-results", {})
        if "verified" not in vr or vr.get("encountered-vir-error"):
            new = set()
            for d in comp:
                hit = None
                for (ln, prim, _, _) in sorted(lines_of(d), key=lambda x: not x[1]):
                    f = m.fn_at(ln)
                    if f and f["mode"] == "verified" and f["fn"] not in skip:
                        hit = f["fn"]
                        break
                if hit:
                    new.add(hit)
                    reasons.setdefault(hit, "not accepted by the verifier's front end: " + d["message"][:200])
            if not new:
                r["undecided"].append((name, "the verifier rejects the extracted text: " + "; ".join(
                    (d["message"][:160] + " @" + str([l[0] for l in lines_of(d)][:2])) for d in comp[:3]) + ("" if comp else err[-600:])))
                return r, m
            skip |= new
            continue
        soft = {w["fn"]: "%s: %s" % (w["kind"], w["what"]) for w in m.warnings if w["kind"] in SOFT}
        new = set()
        for d in diags:
            if classify(d["message"]) in ("verif", "limit") and decides(d, mode):
                for (ln, _, _, _) in lines_of(d):
                    f = m.fn_at(ln)
                    if f and f["mode"] == "verified" and f["fn"] in soft and f["fn"] not in skip:
                        new.add(f["fn"])
                        reasons.setdefault(f["fn"], soft[f["fn"]])
        if new:
            skip |= new
            continue
        break
    else:
        r["undecided"].append((name, "no accepted extraction after 8 attempts"))
        return r, m
    vr = js["verification-results"]
    limits = [d for d in diags if classify(d["message"]) == "limit"]
    fails = [d for d in diags if classify(d["message"]) == "verif"]
    if limits or fails:
        # a larger budget before anything is reported
        left = deadline - time.time()
        if left > 60:
            rc2, js2, diags2, cmd2, _ = verus(out, 240, 8, min(left - 20, 400))
            if rc2 is not None and js2 and "verified" in js2.get("verification-results", {}):
                js, diags, vr = js2, diags2, js2["verification-results"]
                r["cmds"] = [cmd2]
                limits = [d for d in diags if classify(d["message"]) == "limit"]
                fails = [d for d in diags if classify(d["message"]) == "verif"]
    for d in diags:
        if classify(d["message"]) == "compile" and not d["message"].startswith("aborting due"):
            r["undecided"].append((name, "unclassified message: " + d["message"][:200]))
    for d in limits:
        fn = None
        for (ln, _, _, _) in lines_of(d):
            fn = fn or m.fn_at(ln)
        r["undecided"].append((fn["fn"] if fn else name, "solver limit: " + d["message"][:120]))
    for d in fails:
        if not decides(d, mode):
            r["undecided"].append((name, "not this property's obligation (freedom from panics and divergence is decided by C15, other clauses by the checks their contract names): " + d["message"]))
            continue
        fn, clause, text = None, "", ""
        ls = lines_of(d)
        for (ln, prim, lab, tx) in sorted(ls, key=lambda x: not x[1]):
            f = m.fn_at(ln)
            if f and not fn and f["mode"] == "verified":
                fn = f
            clause = clause or m.clause_at(ln)
            text = text or tx.strip()
        raws = [m.raw_at(l[0]) for l in ls]
        nm = fn["fn"] if fn else ("lemma in " + str([x["fn"] for x in raws if x][:1]))
        r["failed"].append({"fn": nm, "message": d["message"], "clause": clause, "text": text[:300],
                            "set": name, "lemma": fn is None, "output": d.get("rendered", "")[:3000]})
    for fn in sorted(skip):
        r["undecided"].append((fn, reasons.get(fn, "")))
    r["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
    r["discharged"] = vr.get("verified", 0)
    t = js.get("times-ms", {})
    r["smt_ms"] = t.get("smt", {}).get("smt-run", 0)
    per = {}
    for mt in t.get("smt", {}).get("smt-run-module-times", []):
        for fb in mt.get("function-breakdown", []):
            per[fb["function"].split("::", 1)[1]] = fb.get("time-micros", 0)
    seen = set()
    for f in m.fns:
        if f["mode"] == "verified":
            r["functions"].append({"fn": f["fn"], "hash": f["hash"], "smt_us": per.get(f["fn"], None), "loops": f["loops"],
                                   "extraction_notes": f.get("notes", "")})
            seen.add(f["fn"])
        elif f["mode"] == "assumed":
            used = "~" + f["file"] in files
            r["trusted"].append(("contract used here, verified by: %s: " % ", ".join(verified_by(f["file"], pid))) + f["fn"] if used
                                else "assumed contract: /repo function " + f["fn"])
        else:
            r["trusted"].append("undecided this run, contract assumed: " + f["fn"])
    r["lemmas"] = sorted(k for k in per if k not in seen and not k.startswith("ext::"))
    r["clauses"] = len([c for c in m.clauses if c["text"]])
    for w in m.warnings:
        if w["kind"] == "expect":
            r["undecided"].append((w["fn"], "expected item not found: " + w["what"]))
    return r, m


def vacuity(pid, name, files, deadline, outdir, skip):
    out = os.path.join(outdir, "%s_%s_probe.rs" % (pid, name))
    extract(pid, files, out, skip, probe=True)
    text = open(out).read()
    want = set(int(x) for x in re.findall(r"vx_probe\((\d+)\)", text))
    lines = text.split("\n")
    rc, js, diags, cmd, err = verus(out, 10, 400, max(20, min(300, deadline - time.time())))
    got, hard = set(), set()
    for d in diags:
        if "rlimit" in d["message"]:
            # the solver gave up on this function: its probes are neither reached nor unreachable
            hard |= set(ln for (ln, _, _, _) in lines_of(d))
        if "assertion failed" in d["message"]:
            for (ln, _, _, tx) in lines_of(d):
                mm = None
                for k in range(ln - 1, max(ln - 4, -1), -1):
                    mm = re.search(r"vx_probe\((\d+)\)", lines[k])
                    if mm:
                        break
                if mm:
                    got.add(int(mm.group(1)))
    unknown, head = set(), 0
    for k, t in enumerate(lines, 1):
        if re.match(r"\s*(pub )?fn ", t):
            head = k
        mm = re.search(r"vx_probe\((\d+)\)", t)
        if mm and head in hard:
            unknown.add(int(mm.group(1)))
    return {"probes": len(want), "reachable": len(want & got), "undetermined": len(unknown - got),
            "unreached": sorted(want - got - unknown) if rc is not None else "timeout"}


def verified_by(file, pid):
    """the checks whose sets verify the functions of a contract file (rather than use their contracts)"""
    from .props import PROPS
    return [p for p, c in sorted(PROPS.items()) if p != pid and any(file in fs for fs in c.get("contracts", {}).values())] or ["none"]


def trusted_prelude():
    """Mechanical scan of the prelude and contract files for everything that is assumed."""
    out = []
    for fn in sorted(os.listdir(CONTRACTS)):
        if not (fn.endswith(".rs") or fn.endswith(".vc")):
            continue
        src = open(os.path.join(CONTRACTS, fn)).read()
        n_ext = len(re.findall(r"verifier::external_body", src))
        ax = re.findall(r"axiom fn (\w+)", src)
        asm = re.findall(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", src)
        adm = len(re.findall(r"\b(?:admit|assume)\s*\(", src))
        if n_ext or ax or asm or adm:
            out.append("%s: %d external_body stubs; axioms: %s; assume_specification: %s; assume/admit: %d" % (
                fn, n_ext, ", ".join(ax), ", ".join(asm), adm))
    return out


def run_all(pid, cfg, deadline):
    outdir = os.path.join(WORK, "verus", pid)
    os.makedirs(outdir, exist_ok=True)
    build_vx()
    tot = {"failed": [], "undecided": [], "functions": [], "lemmas": [], "obligations": 0, "discharged": 0, "clauses": 0,
           "smt_ms": 0, "trusted_base": [], "probes": {}, "checker_cmd": "", "assumptions": []}
    cmds = []
    lock = threading.Lock()

    def one(name, files):
        try:
            r, m = run_set(pid, name, files, deadline, outdir, {"panics": cfg.get("panics", False), "tagged": cfg.get("tagged", False)})
            skip = set(f["fn"] for f in (m.fns if m else []) if f["mode"] == "undecided")
            v = {}
            if deadline - time.time() > 60 and r["obligations"]:
                v = vacuity(pid, name, files, deadline, outdir, skip)
        except Exception as ex:
            r, v = {"failed": [], "undecided": [(name, "machinery: " + str(ex)[:500])], "functions": [], "lemmas": [], "obligations": 0,
                    "discharged": 0, "clauses": 0, "smt_ms": 0, "trusted": [], "cmds": []}, {}
        with lock:
            for k in ("failed", "undecided", "functions", "lemmas"):
                tot[k] += r[k]
            for k in ("obligations", "discharged", "clauses", "smt_ms"):
                tot[k] += r[k]
            for x in r["trusted"]:
                if x not in tot["trusted_base"]:
                    tot["trusted_base"].append(x)
            tot["probes"][name] = v
            if v.get("unreached"):
                tot["undecided"].append((name, "vacuity: unreached probes %s" % v["unreached"]))
            cmds.extend(r["cmds"])

    ts = [threading.Thread(target=one, args=(n, f)) for n, f in cfg.get("contracts", {}).items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    tot["checker_cmd"] = "; ".join(cmds)
    used = set(["prelude.rs"])
    for files in cfg.get("contracts", {}).values():
        used |= set(f.lstrip("~") for f in files)
    tot["trusted_base"] += [x for x in trusted_prelude() if x.split(":")[0] in used]
    notes = json.load(open(os.path.join(CONTRACTS, "assumptions.json")))
    tot["assumptions"] = sorted(set(a for f in used for a in notes.get(f, [])))
    return tot


