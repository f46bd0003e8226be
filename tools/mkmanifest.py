import json, pathlib, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R))
from dv.registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in (R / "properties.jsonl").read_text().splitlines()]
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique=P["technique"], level=P["level"], level_note=P["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import pypsa, linopy'", checks=checks, not_applicable=na,
         notes="Contracts in dv/specs; verifier in dv/core.py, dv/arr.py, dv/world.py; see DESIGN.md")
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not claimed")
