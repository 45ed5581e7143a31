"""hunks.py REPO PATTERN: stages only those hunks of the working tree diff whose changed lines match PATTERN."""
import re, subprocess, sys
repo, pat = sys.argv[1:]
d = subprocess.run(["git", "-C", repo, "diff", "-U1"], capture_output=True, text=True).stdout
out = []
for f in re.split(r"(?m)^(?=diff --git)", d)[1:]:
    head, *hs = re.split(r"(?m)^(?=@@ )", f)
    sel = [h for h in hs if any(re.search(pat, l) for l in h.split("\n") if l[:1] in "+-")]
    if sel:
        out.append(head + "".join(sel))
subprocess.run(["git", "-C", repo, "apply", "--cached", "--recount", "--unidiff-zero", "-"], input="".join(out), text=True, check=True)
print(subprocess.run(["git", "-C", repo, "diff", "--cached", "--stat"], capture_output=True, text=True).stdout)
