"""Writes MANIFEST.json from props.py (run by hand after a change)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for pid, c in PROPS.items():
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": c.get("technique", "contract-based deductive verification"),
                   "level": "proof" if c["contracts"] else "exploration", "level_note": c.get("note", "deductive part under construction" if not c["contracts"] else "see DESIGN.md")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "cfg(cambrian_verif)", "enable": "RUSTFLAGS=\"--cfg cambrian_verif\"", "source_commits": ["e798b25"]},
           "checks": checks, "not_applicable": []}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
