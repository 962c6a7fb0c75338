"""seed_new.py ID PROP FILE 'old' 'new' 'needs' 'breaks' [nth] : make patch.diff + meta.json from a replacement"""
import os, sys, json, pathlib, subprocess
ID, prop, file, old, new, needs, breaks = sys.argv[1:8]
nth = int(sys.argv[8]) if len(sys.argv) > 8 else None
p = pathlib.Path(os.environ.get("SEED_REPO", "/repo")) / "src/fluidimage" / file
s0 = s = p.read_text()
c = s.count(old)
assert c, "not found"
if nth is None:
    assert c == 1, c
    s = s.replace(old, new)
else:
    parts = s.split(old)
    s = old.join(parts[: nth + 1]) + new + old.join(parts[nth + 1 :])
d = pathlib.Path("/verif/seeded") / ID
d.mkdir(parents=True, exist_ok=True)
p.write_text(s)
try:
    diff = subprocess.run(["git", "-C", os.environ.get("SEED_REPO", "/repo"), "diff"], capture_output=True, text=True).stdout
finally:
    p.write_text(s0)
(d / "patch.diff").write_text(diff)
(d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
print(diff)
