"""Writes MANIFEST.json from the registered checks and properties.jsonl."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib.props import CHECKS  # noqa: E402

NOTES = {
    "C27": "Generated, mutated and hostile inputs against a sanitizer build; absence of crashes is shown only for the inputs tried.",
    "C28": "Metamorphic: runs that differ only in observation options, directory or environment are compared.",
    "C29": "Metamorphic: the same program in several layouts is compared, and with the reference assembler.",
    "C33": "Programs that use the machine files: register tables, a 6502 simulator and twin programs are the oracles.",
    "C13": "Round trip: the Intel HEX records are parsed and compared with the image.",
}
DEFAULT = "Generated programs judged by a reference assembler written from the manual; holds for the programs tried."

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s quick" % i,
            "thorough_cmd": "python3-vt check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing" if i != "C27" else "property-based testing and fuzzing with sanitizers",
            "level": "exploration",
            "level_note": NOTES.get(i, DEFAULT),
        })
missing = [p["id"] for p in props if p["id"] not in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "python3-vt check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check under construction"} for i in missing],
    "notes": "Replay a failure with: python3-vt check.py --replay evidence/replay/<id>.json",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "without check:", missing)
