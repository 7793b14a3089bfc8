#!/usr/bin/env python3
"""newseed.py ID PROPERTY FILE NEEDS BREAKS < stdin: JSON list of [old, new] pairs or a Python edit; builds patch.diff
against /repo's HEAD and copies the demo stage.  (development aid)"""
import difflib, json, os, shutil, subprocess, sys
ID, prop, needs, breaks = sys.argv[1:5]
edits = json.load(sys.stdin)  # [[file, old, new], ...]
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
files = {}
for f, old, new in edits:
    p = "src/backy/" + f
    t = files.setdefault(p, [open("/repo/" + p).read()] * 2)
    assert t[1].count(old) == 1, (f, old, t[1].count(old))
    files[p] = [t[0], t[1].replace(old, new)]
with open(d + "/patch.diff", "w") as o:
    for p, (a, b) in files.items():
        o.writelines(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
for n in ("mini.py", "demo.sh"):
    shutil.copy("/verif/tools/demolib/" + n, d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
