"""Records which loops each function under contract has (contracts/loops.txt), to be run when contracts are written.
A check never runs this: it only reads the file, to find the loop an annotation was written for in changed code."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools import deductive, props, common

def main(repo):
    seen, bad = {}, set()
    for pid, c in props.PROPS.items():
        for name, files in c["contracts"].items():
            cmd = [deductive.VX, "--repo", repo, "--prop", pid, "--out", "/tmp/loops.rs"]
            for f in files:
                cmd += ["--file", f.lstrip("~")]
            subprocess.run(cmd, check=True, cwd=common.VERIF)
            for m in json.load(open("/tmp/loops.rs.json"))["map"]:
                if m["kind"] == "fn" and m["sigs"]:
                    if seen.setdefault(m["fn"], m["sigs"]) != m["sigs"]:
                        bad.add(m["fn"])
    for b in sorted(bad):
        print("differs between sets:", b)
    with open(os.path.join(common.VERIF, "contracts", "loops.txt"), "w") as o:
        for k in sorted(seen):
            if k not in bad:
                o.write("\t".join([k] + seen[k]) + "\n")

main(sys.argv[1] if len(sys.argv) > 1 else common.REPO)
