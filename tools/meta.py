"""
Writes properties.jsonl and MANIFEST.json from tools/props.py, for those
properties which have a check in checks/.
"""
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
from props import PROPS  # noqa

S = "src/disc_solver/"
lines, checks = [], []
for p in PROPS:
    if not (VERIF / "checks" / (p["id"].lower() + ".py")).exists():
        continue
    assert len(p["title"]) <= 80, p["title"]
    over, text = p["over"]
    lines.append(json.dumps(dict(
        id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=over.split(), text=text),
        why_tests_cant=p["why"],
        anchors=dict(
            files=[S + f for f in p["files"]],
            mechanism=[dict(name=n, where=S + w) for n, w in p["mech"]],
            observe_at=p.get("observe", []), hook_needed=None),
    ), ensure_ascii=False))
    checks.append(dict(
        property=p["id"], quick_cmd="bash run.sh " + p["id"],
        thorough_cmd="bash run.sh {} --thorough".format(p["id"]),
        technique=p["technique"], level=p.get("level", "exploration"),
        level_note=p["note"]))
(VERIF / "properties.jsonl").write_text("\n".join(lines) + "\n")
(VERIF / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="true", checks=checks, not_applicable=[],
    notes="No hooks: the monitors observe public functions, return values, "
    "files and process exit codes of the unmodified code in /repo/src. "
    "Regenerate this file and properties.jsonl with tools/meta.py."),
    indent=1, ensure_ascii=False) + "\n")
print(len(checks), "checks")
