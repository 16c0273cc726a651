"""Assembles DESIGN.md from tools/design_head.md, the check modules' own RULE/ASSUMPTIONS, level notes, and the planted bugs."""
import ast
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTES = json.loads((V / "tools/level_notes.json").read_text())
WHY = json.loads((V / "tools/design_notes.json").read_text())


def consts(pid):
    out = {}
    for node in ast.parse((V / f"mc/{pid.lower()}.py").read_text()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("LEVEL", "RULE", "ASSUMPTIONS"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


out = [(V / "tools/design_head.md").read_text().rstrip(), "\n## Properties\n"]
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    pid, c, w = p["id"], consts(p["id"]), WHY[p["id"]]
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Level {c['LEVEL']}; `mc/{pid.lower()}.py`; deciding method: {NOTES[pid][0]}.*\n")
    out.append(f"- **Enumerated**: {c['RULE']}")
    out.append(f"- **Oracle**: {w['oracle']}")
    out.append(f"- **Bounds and cost**: {NOTES[pid][1]} {w['cost']}")
    out.append(f"- **Beyond the tests**: {w['why']}")
    if c["ASSUMPTIONS"]:
        out.append(f"- **Assumed or not judged**: {'; '.join(c['ASSUMPTIONS'])}.")
    fixed = [ln for ln in (V / "KNOWN_FINDINGS.txt").read_text().splitlines() if ln.startswith(f"fixed: property={pid} ")]
    if fixed:
        out.append("- **Defects it found, repaired in /repo**: " + "; ".join(re.sub(r"fixed: property=\w+ (\w+) (.*)", r"\2 (`\1`)", ln) for ln in fixed) + ".")
    out.append("")
out.append("## Planted bugs and what catches them\n")
out.append("Each was written from the property and the code, confirmed to build, to pass the stable tests and to fail its demonstration, and is kept whether caught or not.\n")
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
caught = json.loads((V / "tools/caught.json").read_text())
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | {', '.join(caught.get(d.name, ['not tried']))} |")
out.append("\n" + (V / "tools/design_tail.md").read_text().rstrip())
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
