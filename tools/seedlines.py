"""List planted bugs whose removed lines include lines this work's own commits added to /repo."""
import pathlib, re, subprocess, sys
BASE = "e22bc9e"
blame = {}
def own(path):
    if path not in blame:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-b", f"{BASE}..HEAD", "--", path], capture_output=True, text=True).stdout.splitlines()
        # boundary lines (original) are blank or start with ^
        blame[path] = [not (l.startswith("^") or l.startswith(" ")) for l in out]
    return blame[path]
for p in sorted(pathlib.Path("/verif/seeded").glob("*/patch.diff")):
    path = None; mine = orig = 0; adds = 0
    for l in p.read_text().splitlines():
        if l.startswith("--- a/"): path = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+++ ") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            if own(path)[n-1]: mine += 1
            else: orig += 1
            n += 1
        elif l.startswith("+"): adds += 1
        else: n += 1
    if mine or not orig: print(p.parent.name, "removed: original", orig, "own", mine, "added", adds)
