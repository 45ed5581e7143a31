"""Development aid: (re)writes the "fixed" list of known_findings.json from the fix: commits in /repo (subject -> property map below)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, "tools", "fix_props.json")))
k = json.load(open(os.path.join(V, "known_findings.json")))
out = []
for l in subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%H %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    out.append(f"fixed: property={PROP[s]} {h[:12]} {s}")
k["fixed"] = out
json.dump(k, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out))
