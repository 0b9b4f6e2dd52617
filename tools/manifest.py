#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vmon/levels.py and properties.jsonl."""
import json
import pathlib
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
from vmon.levels import META, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(line)["id"] for line in (VERIF / "properties.jsonl").read_text().splitlines()]
PY = "/opt/venv/bin/python"
checks, missing = [], []
for i in ids:
    if i in NOT_APPLICABLE:
        missing.append({"property": i, "reason": NOT_APPLICABLE[i]})
    elif i in META:
        d = META[i]
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} check.py {i} --tier quick",
            "thorough_cmd": f"{PY} check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": d["technique"],
            "level": d["level"],
            "level_note": d["note"],
        })
    else:
        missing.append({"property": i, "reason": "the check is not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": f"{PY} check.py --setup",
    "checks": checks,
    "not_applicable": missing,
    "notes": "One technique family: runtime monitoring and sanitizers. No hooks in /repo are needed: every check "
             "copies /repo's working tree into a scratch directory and drives the public interface there as an "
             "unprivileged user. Known and fixed findings are in KNOWN_FINDINGS.txt.",
}
(VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "not claimed")
