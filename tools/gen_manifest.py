"""Write MANIFEST.json from the registry of rules."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V)); sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from vsa import rules
TECH = {}
exec((V / "tools" / "techniques.py").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in rules.RULES:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"python3 /verif/check.py {i}",
            thorough_cmd=f"python3 /verif/check.py {i} --tier thorough",
            technique=t, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "machinery not built yet")))
(V / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), indent=1) + "\n")
print(len(checks), "checks;", "NA:", [x["property"] for x in na])
