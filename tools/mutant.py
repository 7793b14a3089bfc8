#!/usr/bin/env python3
"""mutant.py (--revert COMMIT | --patch FILE | --sub FILE:::OLD:::NEW) CHECK...   runs checks against a
scratch copy of /repo with a change applied (development aid)."""
import os, shutil, subprocess, sys, tempfile
kind, what, checks = sys.argv[1], sys.argv[2], sys.argv[3:]
d = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
try:
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    if kind == "--revert":
        subprocess.check_call(["git", "-C", r, "-c", "user.email=a@b", "-c", "user.name=a", "revert", "-n", what])
    elif kind == "--sub":
        f, old, new = what.split(":::")
        f = os.path.join(r, "src/backy", f)
        t = open(f).read()
        assert old in t, "text to replace not found"
        open(f, "w").write(t.replace(old, new, 1))
    else:
        subprocess.check_call(["git", "-C", r, "apply", os.path.abspath(what)])
    for c in checks:
        p = subprocess.run(["./check", c], cwd="/verif", env=dict(os.environ, VF_REPO=r), capture_output=True, text=True)
        print(what, c, "rc=%d" % p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION" in p.stdout else "MISSED")
        L = p.stdout.splitlines()
        print("\n".join(x[:300] for x in L[:2] + L[-1:]))
        if p.returncode not in (0, 1):
            print(p.stderr[-3000:])
finally:
    shutil.rmtree(d)
