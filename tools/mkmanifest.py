#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
note = json.load(open(os.path.join(V, "tools/notes.json")))
common = " Every execution is the real daemon built from /repo's working tree, started through main() and run on a virtual OS; every decision of the driver is enumerated exhaustively within the stated bounds (evidence: parts[].bounds). Trusted: the virtual OS (answers of the kernel and libc), the reference model of the oracle, GLib itself."
M = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[], notes="No hooks in /repo: the sources are compiled unmodified (main renamed) and the environment is replaced by symbol interposition. python3 tools/run_check.py ID --tier quick|thorough runs one check; a violation's replay file contains the command that re-executes it alone.")
for i in sorted(CHECKS):
    t = "stateless model checking of the real daemon: exhaustive depth-first exploration of " + note[i][0]
    M["checks"].append(dict(property=i, quick_cmd="python3 tools/run_check.py %s --tier quick" % i, thorough_cmd="python3 tools/run_check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i, technique=t, level=CHECKS[i]["level"], level_note=note[i][1] + common))
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
