"""Writes MANIFEST.json from properties.jsonl and the checks that exist (development aid)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f) and i in TECH:
        level = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough", technique=TECH[i]["technique"], level=level,
                           level_note=TECH[i]["note"]))
    else:
        na.append(dict(property=i, reason=TECH.get(i, {}).get("na", "No check has been built for it yet.")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python lib/build.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
