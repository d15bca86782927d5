"""Bounded, labelled: the real binary, run as a user runs it, against the contracts of the process
boundary (C04, C07, C14, C15, C16).  Every child process lives in a scratch directory of its own."""
import glob
import json
import math
import os
import random
import shutil
import signal
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from .common import REPO, VERIF, WORK, cargo_env, run, seed, tier

TARGET = os.path.join(WORK, "repo-target")
BIN = os.path.join(TARGET, "debug", "cambrian")


def build():
    # cargo goes by mtime: always recompile the crate under test
    for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", "cambrian-*")):
        shutil.rmtree(d, ignore_errors=True)
    rc, o, e = run(["cargo", "build", "--offline", "--locked", "--manifest-path", REPO + "/Cargo.toml", "--bin", "cambrian",
                    "--target-dir", TARGET], 600, cwd=WORK, env=cargo_env({"RUSTFLAGS": "-C debuginfo=0"}))
    if rc != 0:
        raise RuntimeError("the binary does not build: " + e[-2000:])


# ----------------------------------------------------------------------------- specs and conformity
SPECS = [
    ("real", "type: real\ninit: 1.5\nscale: 2\nmin: -10\nmax: 10\n", {"t": "real", "min": -10, "max": 10}),
    ("int", "type: int\ninit: 3\nscale: 2\nmin: 0\nmax: 9\n", {"t": "int", "min": 0, "max": 9}),
    ("bool", "type: bool\ninit: true\n", {"t": "bool"}),
    ("const", "type: const\n", {"t": "const"}),
    ("hostile", "a b:\n  type: int\n  init: 0\n  scale: 1\n\"q'uo\\\"te\":\n  type: bool\n  init: false\n\"$(x) `y` ;&|\":\n  type: enum\n"
     "  init: \"a;b'c\\\"d\"\n  values: [\"a;b'c\\\"d\", \"*?\", \"$HOME\", \"-n\", \"\"]\n\"\u00fc\\n\":\n  type: optional\n  initPresent: true\n  valueType:\n    type: real\n    init: 0\n    scale: 1\n",
     {"t": "sub", "map": {"a b": {"t": "int"}, "q'uo\"te": {"t": "bool"}, "$(x) `y` ;&|": {"t": "enum", "values": ["a;b'c\"d", "*?", "$HOME", "-n", ""]},
                          "\u00fc\n": {"t": "optional", "v": {"t": "real"}}}}),
    ("nested", "m:\n  type: anon map\n  initSize: 2\n  minSize: 1\n  maxSize: 4\n  valueType:\n    type: variant\n    init: x\n    x:\n      type: int\n      init: 5\n      scale: 1\n    y:\n      type: const\n"
     "arr:\n  type: array\n  size: 3\n  valueType:\n    type: real\n    init: 0\n    scale: 1\n    min: -1\n    max: 1\n",
     {"t": "sub", "map": {"m": {"t": "map", "min": 1, "max": 4, "v": {"t": "variant", "o": {"x": {"t": "int"}, "y": {"t": "const"}}}},
                          "arr": {"t": "array", "n": 3, "v": {"t": "real", "min": -1, "max": 1}}}}),
]


def conf(s, j):
    t = s["t"]
    if t == "real":
        return isinstance(j, (int, float)) and not isinstance(j, bool) and math.isfinite(j) and s.get("min", -math.inf) <= j <= s.get("max", math.inf)
    if t == "int":
        return isinstance(j, int) and not isinstance(j, bool) and s.get("min", -math.inf) <= j <= s.get("max", math.inf)
    if t == "bool":
        return isinstance(j, bool)
    if t == "const":
        return j is None
    if t == "sub":
        return isinstance(j, dict) and set(j) == set(s["map"]) and all(conf(s["map"][k], j[k]) for k in j)
    if t == "enum":
        return isinstance(j, str) and j in s["values"]
    if t == "optional":
        return j is None or conf(s["v"], j)
    if t == "map":
        return isinstance(j, dict) and s["min"] <= len(j) <= s["max"] and all(k.isdigit() and conf(s["v"], j[k]) for k in j)
    if t == "array":
        return isinstance(j, list) and len(j) == s["n"] and all(conf(s["v"], x) for x in j)
    if t == "variant":
        return isinstance(j, dict) and len(j) == 1 and all(k in s["o"] and conf(s["o"][k], j[k]) for k in j)
    raise ValueError(t)


# ----------------------------------------------------------------------------- one run
LOGGED = """#!/bin/sh
# every invocation: its process group, its arguments (NUL separated)
D=%(dir)s
for a; do printf '%%s\\0' "$a"; done > "$D/argv.$$.tmp"; mv "$D/argv.$$.tmp" "$D/argv.$$"
echo $$ >> "$D/pids"
eval "seed=\\${$#}"
%(body)s
"""


SPAWN = threading.Lock()


class Run:
    def __init__(self, root, name, spec, body, args=(), user_args=(), out_dir=True, raw_spec=None, program=None, pre=None,
                 sigint_after=None, timeout=40, env=None):
        self.name = name
        self.dir = os.path.join(root, name)
        k = 0
        while os.path.exists(self.dir):
            k += 1
            self.dir = os.path.join(root, "%s.%d" % (name, k))
        os.makedirs(self.dir)
        self.spec = spec
        self.specfile = os.path.join(self.dir, "spec.yaml")
        with open(self.specfile, "w") as f:
            f.write(raw_spec if raw_spec is not None else spec[1])
        self.prog = os.path.join(self.dir, "obj fn.sh")
        self.log = os.path.join(self.dir, "log")
        os.makedirs(self.log)
        with SPAWN:  # a file open for writing in a forked child could not be executed
            with open(self.prog, "w") as f:
                f.write(LOGGED % {"dir": "'" + self.log + "'", "body": body})
            os.chmod(self.prog, 0o755)
        self.out = os.path.join(self.dir, "out")
        cmd = [BIN, "-s", self.specfile]
        if out_dir:
            cmd += ["-o", self.out]
        cmd += list(args)
        cmd += ["--", program if program is not None else self.prog] + list(user_args)
        self.cmd = cmd
        self.user_args = list(user_args)
        if pre:
            pre(self)
        e = dict(os.environ)
        e.update(env or {})
        e["RUST_BACKTRACE"] = "0"
        with SPAWN:
            self.t0 = time.time()
            self.p = subprocess.Popen(cmd, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                      start_new_session=True, env=e)
        if sigint_after is not None:
            def go():
                time.sleep(sigint_after)
                try:
                    os.kill(self.p.pid, signal.SIGINT)
                except ProcessLookupError:
                    pass
            threading.Thread(target=go, daemon=True).start()
        self.hang = False
        try:
            o, e2 = self.p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.hang = True
            self.p.kill()
            try:
                o, e2 = self.p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                o, e2 = b"", b""
        self.wall = time.time() - self.t0
        self.rc, self.stdout, self.stderr = self.p.returncode, o, e2

    # -- observations
    def pids(self):
        try:
            with open(os.path.join(self.log, "pids")) as f:
                return [int(x) for x in f.read().split()]
        except FileNotFoundError:
            return []

    def alive(self):
        """Live (non-zombie) processes among those the objective programs logged."""
        out = []
        for p in self.pids():
            try:
                with open("/proc/%d/stat" % p) as f:
                    st = f.read()
                r = st[st.rindex(")") + 2:].split()
                # fields: state ppid pgrp ...; start time is field 22
                if r[0] not in ("Z", "X") and int(r[19]) >= self.start_ticks():
                    out.append(p)
            except (FileNotFoundError, ProcessLookupError, ValueError, IndexError):
                pass
        return out

    def start_ticks(self):
        with open("/proc/uptime") as f:
            up = float(f.read().split()[0])
        return int((up - (time.time() - self.t0) - 1) * os.sysconf("SC_CLK_TCK"))

    def still_alive(self, grace=1.0):
        end = time.time() + grace
        while True:
            a = self.alive()
            if not a or time.time() > end:
                return a
            time.sleep(0.05)

    def cleanup(self):
        for p in self.alive():
            try:
                os.kill(p, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass

    def argvs(self):
        out = []
        for f in sorted(os.listdir(self.log)):
            if f.startswith("argv.") and not f.endswith(".tmp"):
                with open(os.path.join(self.log, f), "rb") as h:
                    out.append(h.read().split(b"\0")[:-1])
        return out

    def rows(self):
        """Detailed report: list of (id, source, crossover_prob, pressure, mut_prob, mut_scale, value, seed, result)."""
        p = os.path.join(self.out, "detailed_report.csv")
        with open(p, encoding="utf-8") as f:
            lines = f.read().split("\n")
        assert lines[-1] == "", "last line is incomplete"
        out = []
        for ln in lines[1:-1]:
            a = ln.split(";", 7)
            rest, s, v = a[7].rsplit(";", 2)
            out.append((int(a[0]), a[2], a[3], a[4], a[5], a[6], json.loads(rest), int(s), None if v == "" else float(v)))
        return out

    def descr(self):
        return {"cmd": self.cmd, "spec": open(self.specfile).read(), "objective": open(self.prog).read(), "exit": self.rc,
                "stdout": self.stdout[:800].decode("utf-8", "replace"), "stderr": self.stderr[:800].decode("utf-8", "replace"),
                "wall_s": round(self.wall, 2)}


OK = 'echo "{\\"objFuncVal\\": $seed}"'        # the seed is a positive 64-bit number
FLOAT = 'echo "{\\"objFuncVal\\": 0.$seed}"'


class Ctx:
    def __init__(self):
        self.findings = []
        self.cases = 0
        self.names = set()
        self.samples = []
        self.lock = threading.Lock()

    def done(self, r):
        with self.lock:
            self.cases += 1
            self.names.add(r.name)
            if len(self.samples) < 3:
                self.samples.append(" ".join(r.cmd[1:])[:300])

    def bad(self, props, clause, detail, r):
        with self.lock:
            for p in props:
                self.findings.append({"property": p, "clause": clause, "detail": detail[:1500], "suite": "cli", "case": r.name,
                                      "run": r.descr()})


def basics(c, r, props=("C15",)):
    c.done(r)
    if r.hang:
        c.bad(list(props) + ["C15"], "hang", "the run did not end", r)
    err = r.stderr.decode("utf-8", "replace")
    if r.rc is not None and (r.rc == 101 or r.rc < 0 and not r.hang or "panicked at" in err):
        c.bad(["C15"] + [p for p in props if p != "C15"], "panic", "exit status %s: %s" % (r.rc, err[:600]), r)


def success(c, r, props, spec):
    """Contract of a successful run (C16)."""
    if r.rc != 0:
        c.bad(props, "exit status", "expected success, got %s: %s" % (r.rc, r.stderr[:500].decode("utf-8", "replace")), r)
        return None
    lines = r.stdout.decode("utf-8").split("\n")
    if len(lines) != 2 or lines[1] != "":
        c.bad(["C16"], "one stdout line", "stdout: %r" % r.stdout[:500], r)
        return None
    try:
        j = json.loads(lines[0])
    except ValueError:
        c.bad(["C16"], "stdout is JSON", "stdout: %r" % r.stdout[:500], r)
        return None
    if not conf(spec[2], j):
        c.bad(["C16"], "stdout conforms", "%s does not conform to %s" % (j, spec[0]), r)
    return j


def failure(c, r, props, started=None, dump=False):
    if r.rc == 0:
        c.bad(props, "non-zero exit status", "the run succeeded: %r" % r.stdout[:300], r)
        return
    if r.stdout != b"":
        c.bad(props, "no result on failure", "stdout: %r" % r.stdout[:300], r)
    if not r.stderr.strip():
        c.bad(props, "error message", "nothing on stderr", r)
    if started is not None and len(r.argvs()) != started:
        c.bad(props, "evaluations started", "%d evaluations were started, expected %d" % (len(r.argvs()), started), r)
    if dump:
        files = os.listdir(r.out) if os.path.isdir(r.out) else []
        blob = b"".join(open(os.path.join(r.out, f), "rb").read() + b"\n" for f in files)
        if not any("fail" in f for f in files) or len(files) < 3:
            c.bad(props, "diagnostic files", "files: %s" % files, r)
        return blob
    return None


def agree(c, r, expect_results=None, failed=False):
    """C14: the detailed report and best-seen file against the program's own log."""
    try:
        rows = r.rows()
    except Exception as e:
        c.bad(["C14"], "detailed report readable", repr(e), r)
        return None
    started = {}
    for a in r.argvs():
        started.setdefault(int(a[-1]), []).append(json.loads(a[-2]))
    for (i, src, cp, sp, mp, ms, v, s, res) in rows:
        if s not in started and res is None:
            continue  # ended before the program got to log itself
        if s not in started or v not in started[s]:
            c.bad(["C14"], "record of an evaluation", "record %s was never evaluated with that seed and value" % ((i, v, s),), r)
            return None
        for x in (cp, sp, mp):
            if x != "" and not (0.0 <= float(x) <= 1.0):
                c.bad(["C14"], "probabilities", "record %d: %s" % (i, x), r)
        if ms != "" and not (math.isfinite(float(ms)) and float(ms) > 0):
            c.bad(["C14"], "mutation scale", "record %d: %s" % (i, ms), r)
        if expect_results is not None and s in expect_results and not failed:
            w = expect_results[s]
            if (w is None) != (res is None) or (w is not None and abs(w - res) > 1e-9 * max(1.0, abs(w))):
                c.bad(["C14"], "recorded result", "record %d seed %d: %s, returned %s" % (i, s, res, w), r)
    if len(set(x[7] for x in rows)) != len(rows):
        c.bad(["C14"], "one record per evaluation", "a seed occurs twice in the detailed report", r)
    acc = [x for x in rows if x[8] is not None]
    bs = os.path.join(r.out, "best_seen.json")
    if acc:
        best = min(x[8] for x in acc)
        try:
            j = json.load(open(bs))
        except Exception as e:
            c.bad(["C14"], "best-seen file", repr(e), r)
            return rows
        if not any(x[8] == best and x[6] == j for x in acc):
            c.bad(["C14"], "best-seen file", "holds %s, minimum is %s" % (j, best), r)
    if not failed and r.rc == 0:
        summ = open(os.path.join(r.out, "summary_report.txt")).read()
        import re
        nums = re.findall(r"\b\d+\b", summ)
        if str(len(acc)) not in nums or str(len(rows) - len(acc)) not in nums:
            c.bad(["C14"], "counts in the summary", "%d accepted, %d rejected; summary: %s" % (len(acc), len(rows) - len(acc), summ), r)
    return rows


def gone(c, r, props=("C07",)):
    a = r.still_alive()
    if a:
        c.bad(list(props), "process left alive", "%d of %d logged processes are still alive after the run returned" % (len(a), len(r.pids())), r)
    r.cleanup()


# ----------------------------------------------------------------------------- scenarios
def scenarios(root, c, want, rng):
    jobs = []

    def job(props, f):
        if any(p in want for p in props):
            jobs.append(f)

    real, intg, hostile, nested = SPECS[0], SPECS[1], SPECS[4], SPECS[5]

    # -- C16: argument vector, output, files
    def argv(spec, ua, nc, i):
        def f():
            n = 12 if nc == 1 else 8
            r = Run(root, "argv-%s-%d" % (spec[0], i), spec, OK, ["-n", str(n), "--num-concurrent", str(nc)], ua)
            basics(c, r, ("C16",))
            j = success(c, r, ["C16", "C15"], spec)
            av = r.argvs()
            if len(av) != n:
                c.bad(["C16", "C03"], "evaluations started", "%d started, budget %d" % (len(av), n), r)
            for a in av:
                if a[:len(ua)] != [x if isinstance(x, bytes) else x.encode() for x in ua] or len(a) != len(ua) + 2:
                    c.bad(["C16"], "argument vector", "got %s, user arguments %s" % (a, ua), r)
                    break
                try:
                    v = json.loads(a[-2])
                    s = int(a[-1])
                    ok = conf(spec[2], v) and 0 <= s < 2 ** 64 and a[-1] == str(s).encode()
                except ValueError:
                    ok = False
                if not ok:
                    c.bad(["C16", "C01"], "argument vector", "parameters %s seed %s" % (a[-2], a[-1]), r)
                    break
            if j is not None and av:
                best = min(av, key=lambda a: float(a[-1]))
                if json.loads(best[-2]) != j:
                    c.bad(["C16", "C02"], "best-seen printed", "%s, but seed %s (the minimum) was evaluated with %s" % (j, best[-1], best[-2]), r)
                fs = set(os.listdir(r.out))
                if not {"summary_report.txt", "detailed_report.csv", "best_seen.json"} <= fs:
                    c.bad(["C16"], "output files", str(fs), r)
                else:
                    if json.load(open(os.path.join(r.out, "best_seen.json"))) != j:
                        c.bad(["C14", "C16"], "best-seen file", "differs from stdout", r)
                rows = agree(c, r, {int(a[-1]): float(a[-1]) for a in av})
                if rows is not None and len(rows) != n:
                    c.bad(["C14"], "one record per evaluation", "%d records, %d evaluations" % (len(rows), n), r)
            gone(c, r)
        return f

    for i, spec in enumerate(SPECS):
        job(["C16", "C14"], argv(spec, ["a", "", "x y", "--flag", "$HOME", "\"q\"'", "*", "-n", "7", "--", "--help", "\\", "\u00fc\n"][i:], 1 + 2 * (i % 2), i))
    job(["C16"], argv(real, [], 1, 90))
    job(["C16"], argv(hostile, ["--sample-size", "2", "-s", "/nonexistent"], 4, 91))
    job(["C16"], argv(nested, [b"\xff\xfe\x80".decode("latin-1")], 2, 92))

    # -- C16/C15: result encodings.  None: rejection, float: accepted, "fail": the run fails
    enc = [
        ('{"objFuncVal": 1.5}', 0, 1.5), ('{"objFuncVal": -0.0}', 0, -0.0), ('{"objFuncVal":1e300}', 0, 1e300), ('{"objFuncVal": 7}', 0, 7.0),
        ('  {\\n"objFuncVal" : 2 }  \\n\\n', 0, 2.0), ('{"objFuncVal": null}', 0, None), ('{}', 0, None), (' {} \\n', 0, None),
        ('{"objFuncVal": 18446744073709551615}', 0, 18446744073709551615.0), ('{"objFuncVal": -9223372036854775808}', 0, -9.223372036854775808e18),
        ('{"objFuncVal": 1.5, "x": 1}', 0, "fail"), ('{"x": 1}', 0, "fail"), ('{"objFuncVal": "1.5"}', 0, "fail"), ('{"objFuncVal": true}', 0, "fail"),
        ('{"objFuncVal": [1.5]}', 0, "fail"), ('{"objFuncVal": {}}', 0, "fail"), ('[1.5]', 0, "fail"), ('[]', 0, "fail"), ('[null]', 0, "fail"), ('1.5', 0, "fail"),
        ('null', 0, "fail"), ('"objFuncVal"', 0, "fail"), ('', 0, "fail"), ('{"objFuncVal": 1.5', 0, "fail"), ('{"objFuncVal": 1.5} x', 0, "fail"),
        ('{"objFuncVal": 1.5}{}', 0, "fail"), ('{"objFuncVal": 1.5} {"objFuncVal": 1.5}', 0, "fail"), ('{"objFuncVal": NaN}', 0, "fail"),
        ('{"objFuncVal": Infinity}', 0, "fail"), ('{"objFuncVal": 1e999}', 0, "fail"), ('\\377\\376', 0, "fail"), ('{"objFuncVal": 1.5}\\377', 0, "fail"), ('\\000', 0, "fail"),
        ('{"objfuncval": 1.5}', 0, "fail"), ('{"objFuncVal": 1.5, "objFuncVal": 1.5}', 0, "fail"), ('{"": null}', 0, "fail"), ("{'objFuncVal': 1.5}", 0, "fail"),
        ('{"objFuncVal": 1.5}', 1, "fail"), ('{"objFuncVal": null}', 3, "fail"), ('{}', 255, "fail"), ('', 1, "fail"), ('\\377', 2, "fail"), ('{"objFuncVal": 1.5}', "KILL", "fail"),
    ]

    def encoding(i, txt, code, want_res, od):
        def f():
            body = "printf '%%b' '%s'\n" % txt.replace("'", "'\\''")
            body += "echo noise >&2\n"
            body += "kill -9 $$\n" if code == "KILL" else "exit %d\n" % code
            r = Run(root, "enc-%d-%d" % (i, od), real, body, ["-n", "3"], ["u"], out_dir=bool(od))
            basics(c, r, ("C16",))
            if want_res == "fail":
                blob = failure(c, r, ["C16"], started=1, dump=bool(od))
                if od and blob is not None:
                    av = r.argvs()
                    if av and str(int(av[0][-1])).encode() not in blob:
                        c.bad(["C16"], "failing arguments in a file", "the seed is in no file", r)
                    if b"noise" not in blob:
                        c.bad(["C16"], "failing output in a file", "stderr of the child is in no file", r)
                    raw = txt.encode().decode("unicode_escape").encode("latin-1") if "\\" in txt and "\\3" not in txt and "\\0" not in txt else None
                    if raw and raw not in blob:
                        c.bad(["C16"], "failing output in a file", "stdout of the child is in no file", r)
                    agree(c, r, failed=True)
            elif want_res is None:
                # nothing is ever accepted: the run ends with an error, after using its budget
                failure(c, r, ["C16"], started=3)
                if od:
                    rows = agree(c, r, failed=True)
                    if rows is not None and (len(rows) != 3 or any(x[8] is not None for x in rows)):
                        c.bad(["C14", "C16"], "rejections recorded", str(rows), r)
            else:
                success(c, r, ["C16"], real)
                if od:
                    rows = agree(c, r)
                    if rows is not None and [x[8] for x in rows] != [want_res] * 3:
                        c.bad(["C16", "C14"], "accepted value", "%s, returned %s" % ([x[8] for x in rows], want_res), r)
            gone(c, r)
        return f

    for i, (t, code, w) in enumerate(enc):
        job(["C16"], encoding(i, t, code, w, 1))
        if i % 4 == 0:
            job(["C16"], encoding(i, t, code, w, 0))

    # -- C15: any bytes on stdout / stderr, verbose or not
    noise = ["head -c 300000 /dev/zero", "printf '\\377\\376\\200'", "yes '{\"objFuncVal\": 1}' | head -c 2000000", "printf '{\"objFuncVal\"'",
             "printf '\\357\\273\\277{}'", "head -c 100000 /dev/urandom", "printf '\\n\\n'", "awk 'BEGIN{for(i=0;i<20000;i++)printf \"[\"}'", "true"]

    def bytes_(i, cmd, to_err):
        def f():
            outs = []
            for v in (0, 1):
                body = ("%s 1>&2\n%s\n" % (cmd, OK)) if to_err else cmd + "\n"
                r = Run(root, "bytes-%d-%d-%d" % (i, to_err, v), real, body, ["-n", "2"] + (["-v"] if v else []))
                basics(c, r)
                if to_err:
                    success(c, r, ["C15", "C16"], real)
                else:
                    failure(c, r, ["C15", "C16"], started=1, dump=True)
                outs.append((r.rc, r.stdout, [x[6:] for x in r.rows()]))
                gone(c, r)
            if outs[0] != outs[1]:
                c.bad(["C15"], "verbose changes only the log", "%s / %s" % (str(outs[0])[:400], str(outs[1])[:400]), r)
        return f

    for i, cmd in enumerate(noise):
        job(["C15"], bytes_(i, cmd, True))
        job(["C15"], bytes_(i, cmd, False))

    # -- C15/C09: verbose changes nothing, runs are repeatable
    def verbose():
        outs = []
        for v in ([], ["-v"], []):
            r = Run(root, "verbose-%d" % len(outs), nested, OK, ["-n", "60"] + v)
            basics(c, r)
            j = success(c, r, ["C15"], nested)
            outs.append((r.rc, r.stdout, [(x[0],) + x[2:] for x in (r.rows() if r.rc == 0 else [])], open(os.path.join(r.out, "best_seen.json")).read() if r.rc == 0 else ""))
            gone(c, r)
        if outs[0] != outs[1]:
            c.bad(["C15"], "verbose changes only the log", "two runs differ", r)
        if outs[0] != outs[2]:
            c.bad(["C09"], "two processes, same run", "the evaluations or the report differ", r)
    job(["C15", "C09"], verbose)

    # -- C16: output directory, invalid options
    def existing(force, as_file):
        def f():
            def pre(r):
                if as_file:
                    open(r.out, "w").write("keep")
                else:
                    os.makedirs(os.path.join(r.out, "sub"))
                    open(os.path.join(r.out, "keep"), "w").write("k")
                    open(os.path.join(r.out, "sub", "keep2"), "w").write("k2")
            r = Run(root, "existing-%d-%d" % (force, as_file), real, OK, ["-n", "2"] + (["--force"] if force else []), pre=pre)
            basics(c, r, ("C16",))
            if force and not as_file:
                success(c, r, ["C16"], real)
                if os.path.exists(os.path.join(r.out, "keep")) or not os.path.exists(os.path.join(r.out, "summary_report.txt")):
                    c.bad(["C16"], "--force replaces the output directory", str(os.listdir(r.out)), r)
            elif not force:
                failure(c, r, ["C16"], started=0)
                if as_file:
                    same = os.path.isfile(r.out) and open(r.out).read() == "keep"
                else:
                    same = sorted(os.listdir(r.out)) == ["keep", "sub"] and os.listdir(os.path.join(r.out, "sub")) == ["keep2"] \
                        and open(os.path.join(r.out, "keep")).read() == "k" and open(os.path.join(r.out, "sub", "keep2")).read() == "k2"
                if not same:
                    c.bad(["C16"], "existing output directory untouched", "it was changed", r)
        return f
    job(["C16"], existing(False, False))
    job(["C16"], existing(True, False))
    job(["C16"], existing(False, True))

    def empty_existing():
        r = Run(root, "existing-empty", real, OK, ["-n", "2"], pre=lambda r: os.makedirs(r.out))
        basics(c, r, ("C16",))
        failure(c, r, ["C16"], started=0)
        if os.listdir(r.out):
            c.bad(["C16"], "existing output directory untouched", str(os.listdir(r.out)), r)
    job(["C16"], empty_existing)

    bad = [["--num-concurrent", "0"], ["--sample-size", "0"], ["--num-concurrent", "-1"], ["-n", "-1"], ["-n", "x"], ["-t", "abc"], ["-t", "NaN"], ["-t", "inf"],
           ["--terminate-after", "soon"], ["--terminate-after", ""], ["-k", "x"], ["--initial-guess", "{"], ["--initial-guess", "11.0"], ["--initial-guess", "\"a\""],
           ["--initial-guess", "null"], ["--nonsense"], ["-n", "1", "-n", "2"], ["--initial-guess", "[1.0]"], ["--sample-size", "1.5"]]

    def invalid(i, a):
        def f():
            r = Run(root, "invalid-%d" % i, real, OK, (["-n", "3"] if "-n" not in a else []) + [x for x in a[:1]] + a[1:])
            basics(c, r, ("C16",))
            failure(c, r, ["C16"], started=0)
        return f
    for i, a in enumerate(bad):
        job(["C16"], invalid(i, ["%s=%s" % (a[0], a[1])] if len(a) == 2 and a[1].startswith("-") else a))

    def bad_spec(i, txt):
        def f():
            r = Run(root, "badspec-%d" % i, real, OK, ["-n", "3"], raw_spec=txt)
            basics(c, r, ("C16", "C10"))
            failure(c, r, ["C16", "C10"], started=0)
        return f
    for i, t in enumerate(["", "type: real\n", "a: [", "type: real\ninit: 5\nscale: 1\nmax: 1\n", "type: nope\n", "x:\n  type: bool\n  init: true\n  foo: 1\n", "\x00"]):
        job(["C16"], bad_spec(i, t))

    def missing_spec():
        r = Run(root, "nospec", real, OK, ["-n", "3"], pre=lambda r: os.remove(r.specfile))
        open(r.specfile, "w").close()
        basics(c, r, ("C16",))
        failure(c, r, ["C16"], started=0)
    job(["C16"], missing_spec)

    def unlaunchable(i, prog, chmod):
        def f():
            r = Run(root, "nolaunch-%d" % i, real, OK, ["-n", "3", "--num-concurrent", str(1 + i)], program=prog)
            basics(c, r, ("C16",))
            failure(c, r, ["C16", "C06"], started=0)
            if r.rc != 0 and "individual" in r.stderr.decode("utf-8", "replace").lower():
                c.bad(["C06"], "the failure is the reported error", "the program could not be launched: %s" % r.stderr[:500].decode("utf-8", "replace"), r)
        return f
    job(["C16", "C06"], unlaunchable(0, "/nonexistent/prog", 0))
    job(["C16", "C06"], unlaunchable(1, "/", 0))
    job(["C16", "C06"], unlaunchable(2, "/etc/hostname", 0))

    def unlaunchable2(what, nc):
        def f():
            held = []
            def pre(r):
                if what == "busy":
                    held.append(open(r.prog, "a"))
                elif what == "mode":
                    os.chmod(r.prog, 0o644)
                elif what == "interpreter":
                    with SPAWN:
                        with open(r.prog, "w") as g:
                            g.write("#!/nonexistent/sh\n")
                elif what == "format":
                    with SPAWN:
                        with open(r.prog, "wb") as g:
                            g.write(b"\x7fELF\x00\x01")
            try:
                r = Run(root, "nolaunch-%s-%d" % (what, nc), real, OK, ["-n", "3", "--num-concurrent", str(nc)], pre=pre)
            finally:
                for h in held:
                    h.close()
            basics(c, r, ("C16",))
            failure(c, r, ["C16", "C06"], started=0)
            if r.rc != 0 and "individual" in r.stderr.decode("utf-8", "replace").lower():
                c.bad(["C06"], "the failure is the reported error", "the program could not be launched (%s): %s" % (what, r.stderr[:500].decode("utf-8", "replace")), r)
        return f
    for what in ("busy", "mode", "interpreter", "format"):
        for nc in (1, 2):
            job(["C16", "C06"], unlaunchable2(what, nc))

    # -- C06: a failure after evaluations that went well
    bad = {"exit1": "exit 1", "exit255": OK + "\nexit 255", "kill": "kill -9 $$", "term": OK + "\nkill -15 $$", "segv": "kill -11 $$", "empty": "true",
           "text": "echo error", "two": OK + "\n" + OK, "field": "echo '{\"objFuncVal\": 1, \"a\": 2}'", "string": "echo '{\"objFuncVal\": \"1\"}'",
           "nan": "echo '{\"objFuncVal\": NaN}'", "huge": "echo '{\"objFuncVal\": 1e400}'", "list": "echo '[1]'", "bytes": "printf '\\377'"}

    def fails(what, nc):
        def f():
            body = 'case $seed in 5)\n%s\n;; *)\n%s\n;;\nesac\n' % (bad[what], OK if nc == 1 else "sleep 0.02\n" + OK)
            r = Run(root, "fails-%s-%d" % (what, nc), real, body, ["-n", "60", "--num-concurrent", str(nc)])
            basics(c, r, ("C16",))
            failure(c, r, ["C06", "C16"], started=6 if nc == 1 else None, dump=True)
            if len(r.argvs()) >= 60:
                c.bad(["C06"], "nothing is started after the failure", "%d evaluations" % len(r.argvs()), r)
        return f
    for what in bad:
        job(["C06", "C16"], fails(what, 1))
    for what in ("exit1", "kill", "text"):
        job(["C06", "C16"], fails(what, 3))

    def guess():
        r0 = Run(root, "guess-0", nested, OK, ["-n", "40"])
        basics(c, r0, ("C16", "C11"))
        j = success(c, r0, ["C16"], nested)
        if j is None:
            return
        r = Run(root, "guess-1", nested, OK, ["-n", "3", "--initial-guess", r0.stdout.decode().strip()])
        basics(c, r, ("C16", "C11"))
        success(c, r, ["C16", "C11"], nested)
        rows = r.rows() if r.rc == 0 else []
        if rows and rows[0][6] != j and not any(isinstance(x, float) for x in json.dumps(j)):
            pass
        gone(c, r0)
        gone(c, r)
    job(["C16"], guess)

    # -- C07: no process survives the run, whatever ends it and whatever the children do
    log_bg = 'echo $! >> "$D/pids"\n'
    beh = {
        "fast": OK,
        "slow": "sleep 30\n" + OK,
        "stubborn": "trap '' TERM INT HUP\n(trap '' TERM INT HUP; sleep 30) &\n" + log_bg + "sleep 30\n" + OK,
        "grandchild": "sleep 30 >/dev/null 2>&1 &\n" + log_bg + OK,
        "pipeholder": "sleep 30 &\n" + log_bg + OK,
        "nested": "sh -c 'sleep 30 & echo $! >> \"$0/pids\"; sh -c \"sleep 30 & echo \\$! >> \\\"\\$0/pids\\\"; wait\" \"$0\" & echo $! >> \"$0/pids\"; wait' \"$D\" >/dev/null 2>&1 &\n" + log_bg + "sleep 0.2\n" + OK,
        "closed": "exec >&- 2>&-\nsleep 30\n",
        "fail": "sleep 30 >/dev/null 2>&1 &\n" + log_bg + "exit 1\n",
        "badout": "sleep 30 >/dev/null 2>&1 &\n" + log_bg + "echo nonsense\n",
    }
    first = 'if mkdir "$D/first" 2>/dev/null; then\n%s\nexit\nfi\n'

    def ends(cause, b, nc):
        def f():
            args = ["--num-concurrent", str(nc)]
            body = beh[b]
            sig = None
            if cause == "budget":
                args += ["-n", str(nc + 2)]
            elif cause == "target":
                args += ["-t", "0.5"]
                body = first % 'sleep 0.4\necho "{\\"objFuncVal\\": 0.25}"' + body
            elif cause == "time":
                args += ["--terminate-after", "700ms"]
                body = first % OK + body
            elif cause == "sigint":
                sig = 0.7
                body = first % OK + body
            elif cause == "failure":
                args += ["-k", "1500ms"]
                body = first % "sleep 0.4\nexit 3" + body
            elif cause == "sigint0":
                sig = 0.7
            r = Run(root, "ends-%s-%s-%d" % (cause, b, nc), real, body, args, sigint_after=sig, timeout=25)
            basics(c, r, ("C07",))
            gone(c, r)
            slow = b in ("slow", "stubborn", "pipeholder", "closed")
            if cause in ("time", "sigint", "sigint0") and r.wall > 8:
                c.bad(["C04"], "a terminated run returns", "took %.1f s, all evaluations honour the abort" % r.wall, r)
            if cause in ("time", "sigint") and b not in ("fail", "badout"):
                j = success(c, r, ["C04", "C16"], real)
            if cause == "target" and b not in ("fail", "badout", "fast", "grandchild", "nested"):
                success(c, r, ["C04"], real)
                if r.wall > 8:
                    c.bad(["C04"], "a target-terminated run returns", "took %.1f s" % r.wall, r)
            if cause == "failure" and r.rc == 0:
                c.bad(["C06", "C16"], "a failure fails the run", "exit status 0", r)
            if cause == "budget" and b in ("fast", "grandchild", "nested"):
                success(c, r, ["C07", "C16"], real)
                if len(r.argvs()) != nc + 2:
                    c.bad(["C03"], "budget used exactly", "%d started" % len(r.argvs()), r)
        return f

    combos = []
    for nc in (1, 3):
        for b in ("grandchild", "nested", "fail", "badout"):
            combos.append(("budget", b, nc))
        for b in ("slow", "stubborn", "grandchild", "pipeholder", "closed"):
            if nc > 1:
                combos.append(("target", b, nc))
                combos.append(("failure", b, nc))
            combos.append(("time", b, nc))
            combos.append(("sigint", b, nc))
    combos.append(("sigint0", "stubborn", 2))
    combos.append(("sigint0", "pipeholder", 2))
    for x in combos:
        job(["C07"] + (["C04"] if x[0] != "budget" else []), ends(*x))

    def limit(b, nc, keep):
        def f():
            # odd seeds exceed the limit, the others are quick
            n = 8
            body = 'case $seed in *[13579]) \n%s\n;; *) sleep 0.05\n%s\n;; esac\n' % (b, OK)
            r = Run(root, "limit-%s-%d" % (keep, nc), real, body, ["-n", str(n), "--num-concurrent", str(nc), "-k", "1500ms"])
            basics(c, r, ("C07",))
            gone(c, r)
            av = r.argvs()
            if len(av) != n:
                c.bad(["C07", "C03"], "the run continues after a killed evaluation", "%d of %d evaluations started" % (len(av), n), r)
            want_ = {int(a[-1]): (None if int(a[-1]) % 2 else float(a[-1])) for a in av}
            if any(v is not None for v in want_.values()):
                success(c, r, ["C07"], real)
            rows = agree(c, r, want_, failed=r.rc != 0)
            if rows is not None:
                for x in rows:
                    if (x[7] % 2 == 1) != (x[8] is None):
                        c.bad(["C07"], "exceeded evaluations count as rejected, others are kept", "seed %d: %s" % (x[7], x[8]), r)
                        break
        return f
    for nm, b in (("slow", "sleep 30"), ("stubborn", "trap '' TERM INT\nsleep 30 &\n" + log_bg + "wait\nsleep 30"), ("closed", "exec >&- 2>&-\nsleep 30"),
                  ("exited", "sleep 30 &\n" + log_bg + OK + "\nexit 0"), ("late", "sleep 5\n" + OK)):
        for nc in (1, 3):
            job(["C07", "C14"], limit(b, nc, nm))

    def in_time(nc):
        def f():
            body = 'sleep 0.6\n(sleep 0.2; touch "$D/done.$$")\n' + OK
            r = Run(root, "intime-%d" % nc, real, body, ["-n", "6", "--num-concurrent", str(nc), "-k", "6s"])
            basics(c, r, ("C07",))
            done = [x for x in os.listdir(r.log) if x.startswith("done.")]
            if len(done) != 6 or r.rc != 0:
                c.bad(["C07"], "an evaluation that finishes in time is never killed", "%d of 6 finished, exit status %s" % (len(done), r.rc), r)
            gone(c, r)
        return f
    job(["C07"], in_time(2))
    job(["C07"], in_time(3))

    # -- C04: nothing new starts after the time limit
    def no_new(sig):
        def f():
            body = 'date +%s.%N > "$D/start.$$"\nsleep 0.15\n' + OK
            r = Run(root, "nonew-%s" % sig, real, body, ["--num-concurrent", "3"] + ([] if sig else ["--terminate-after", "900ms"]), sigint_after=0.9 if sig else None)
            basics(c, r, ("C04",))
            success(c, r, ["C04"], real)
            late = []
            for x in os.listdir(r.log):
                if x.startswith("start."):
                    t = open(os.path.join(r.log, x)).read().strip()
                    if t and float(t) - r.t0 > 0.9 + 1.5:
                        late.append(float(t) - r.t0)
            if late:
                c.bad(["C04"], "no evaluation starts after the request", "started %.2f s after the start of the run" % max(late), r)
            gone(c, r)
            agree(c, r)
        return f
    job(["C04"], no_new(True))
    job(["C04"], no_new(False))

    # -- C14: whole runs with rejections, several records in flight
    def whole(spec, nc, n, i):
        def f():
            body = 'case $seed in *[37]) echo "{}";; *) %s;; esac\n' % FLOAT
            r = Run(root, "whole-%s-%d" % (spec[0], i), spec, body, ["-n", str(n), "--num-concurrent", str(nc)])
            basics(c, r, ("C14",))
            success(c, r, ["C14", "C16"], spec)
            av = r.argvs()
            want_ = {}
            for a in av:
                s = a[-1].decode()
                want_[int(s)] = None if s[-1] in "37" else float("0." + s)
            rows = agree(c, r, want_)
            if rows is not None and len(rows) != len(av):
                c.bad(["C14"], "one record per evaluation", "%d records, %d evaluations" % (len(rows), len(av)), r)
        return f
    for i, spec in enumerate(SPECS):
        job(["C14"], whole(spec, 1 + i % 4, 60 if tier() == "quick" else 400, i))

    def fails_late(nc):
        def f():
            body = 'n=$(ls "$D" | grep -c argv)\nif [ $n -ge 9 ]; then exit 4; fi\n' + FLOAT
            r = Run(root, "faillate-%d" % nc, nested, body, ["-n", "60", "--num-concurrent", str(nc)])
            basics(c, r, ("C14", "C06"))
            failure(c, r, ["C16", "C06"], dump=True)
            rows = agree(c, r, {int(a[-1]): float("0." + a[-1].decode()) for a in r.argvs()}, failed=True)
            if rows is not None and len(rows) < 8:
                c.bad(["C14"], "records written so far", "%d records of at least 8 processed evaluations" % len(rows), r)
            gone(c, r)
        return f
    for nc in (1, 3):
        job(["C14"], fails_late(nc))
    return jobs


def run_suite(want, max_secs, workers=8):
    build()
    root = os.path.join(WORK, "cli-%d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    c = Ctx()
    rng = random.Random(seed())
    notes = []
    end = time.time() + max_secs
    njobs = len(scenarios(root, c, want, rng))
    suspects = []

    def go(i):
        if time.time() > end:
            notes.append("cli: a scenario was skipped for lack of time")
            return
        mine = Ctx()
        try:
            scenarios(root, mine, want, random.Random(seed()))[i]()
        except Exception:
            import traceback
            notes.append("cli scenario error: " + traceback.format_exc()[-600:])
        with c.lock:
            c.cases += mine.cases
            c.names |= mine.names
            c.samples = (c.samples + mine.samples)[:3]
            if mine.findings:
                suspects.append((i, mine.findings))
    order = list(range(njobs))
    rng.shuffle(order)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, order))
    # a finding counts once it shows again with nothing else running
    for i, fs in suspects[:12]:
        confirmed = False
        for _ in range(3):
            again = Ctx()
            try:
                scenarios(root, again, want, random.Random(seed()))[i]()
            except Exception:
                pass
            keys = {(f["property"], f["clause"]) for f in again.findings}
            hit = [f for f in fs if (f["property"], f["clause"]) in keys]
            if hit:
                c.findings += hit
                confirmed = True
                break
        if not confirmed:
            notes.append("cli: not reproduced alone, not reported: %s" % [(f["property"], f["clause"], f["detail"][:200]) for f in fs[:2]])
    shutil.rmtree(root, ignore_errors=True)
    return {"findings": c.findings, "notes": sorted(set(notes)),
            "stats": {"cases": c.cases, "distinct_nontrivial": len(c.names), "samples": c.samples,
                      "rule": "runs of the built binary: argument vectors, result encodings, child behaviours x termination causes, options; distinct: scenario"}}


if __name__ == "__main__":
    import sys
    t = time.time()
    os.makedirs(WORK, exist_ok=True)
    r = run_suite(set(sys.argv[1].split(",")), 300)
    for f in r["findings"]:
        print(f["property"], f["clause"], f["case"], f["detail"][:300])
        print("   ", json.dumps(f["run"])[:1500])
    print(r["notes"], r["stats"], time.time() - t)
