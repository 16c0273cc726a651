"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present in mc/."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTES = json.loads((V / "tools/level_notes.json").read_text())
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    mod = V / f"mc/{pid.lower()}.py"
    if not mod.exists():
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    level = None
    for node in ast.parse(mod.read_text()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "LEVEL":
            level = ast.literal_eval(node.value)
    technique, note = NOTES[pid]
    checks.append({"property": pid, "quick_cmd": f"./run {pid} quick", "thorough_cmd": f"./run {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": technique, "level": level, "level_note": note})
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.exit(0)' && gcc --version > /dev/null",
    "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: checks import /repo's working tree directly and control it from outside. "
             "See DESIGN.md; fixed defects are listed in KNOWN_FINDINGS.txt.",
}, indent=1) + "\n")
