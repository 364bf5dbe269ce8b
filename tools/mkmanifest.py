"""Writes MANIFEST.json from the checks that exist. Run with /opt/venv/bin/python from /verif."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("SSSPY_REPO", "/repo"), here]
from sim import main
NOTES = json.load(open(os.path.join(here, "tools", "level_notes.json")))
NA = {
 "C19": "Pure functions of their argument: no schedule, clock, I/O, fault or history for a simulator to decide; checking them would be plain input generation.",
 "C20": "Pure functions of their argument: no schedule, clock, I/O, fault or history for a simulator to decide; checking them would be plain input generation.",
 "C21": "Pure functions of their argument: no schedule, clock, I/O, fault or history for a simulator to decide; checking them would be plain input generation.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "sim", "checks", main.MODULES.get(p, "-") + ".py")
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(f):
        checks.append({"property": p, "quick_cmd": "bash run.sh check %s quick" % p,
                       "thorough_cmd": "bash run.sh check %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": NOTES[p][0], "level": "exploration", "level_note": NOTES[p][1]})
    else:
        na.append({"property": p, "reason": "Not claimed yet: the simulated check is still being built."})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "Replay a violation: bash run.sh replay <file>. Determinism self-test: bash run.sh selftest [ids]. No hooks in /repo are needed."},
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
