import os
import signal
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")


def log(*a):
    print("  " + " ".join(str(x) for x in a), file=sys.stderr, flush=True)


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1")) & 0x7FFFFFFF
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def run(cmd, timeout, cwd=None, env=None, stdin=None):
    """(returncode or None on timeout, stdout, stderr); the whole process group is ended on a timeout."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, er = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), er.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return None, o.decode("utf-8", "replace"), er.decode("utf-8", "replace")


def cargo_env(extra=None):
    e = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0"}
    e.update(extra or {})
    return e
