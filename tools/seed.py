#!/usr/bin/env python3
"""seed.py ID [--checks]: confirms a planted bug in a scratch copy: demo passes without, fails with it,
stable tests pass with it; with --checks also runs its property's check (development aid)."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def demo(d, repo):
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        for n in os.listdir(d):
            if not n.endswith((".diff", ".patch")) and n != "meta.json":
                shutil.copy(os.path.join(d, n), t)
        p = subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300,
                           env=dict(os.environ, PYTHONPATH=repo + "/src:/opt/vp/meta"))
        return p.returncode, (p.stdout + p.stderr)[-1500:]
    finally:
        shutil.rmtree(t)


def tests(repo):
    t = tempfile.mkdtemp(prefix="seedt-", dir="/tmp")
    try:
        env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONHASHSEED="0", PYTHONPATH=repo + "/src:/opt/vp/meta",
                   PYTHONNODEBUGRANGES="1", PYTHONDONTWRITEBYTECODE="1", PATH="/opt/vp/meta/bin:/opt/venv/bin:" + os.environ["PATH"],
                   BACKY_CLI_CMD="/opt/vp/meta/bin/backy", BACKY_RBD_CMD="/opt/vp/meta/bin/backy-rbd", BACKY_S3_CMD="/opt/vp/meta/bin/backy-s3")
        drop = "setpriv --bounding-set -dac_override,-dac_read_search --inh-caps -dac_override,-dac_read_search".split()
        p = subprocess.run(drop + ["/opt/venv/bin/python", "/opt/venv/bin/pytest", "--no-cov", "-p", "no:cacheprovider", "--basetemp=" + t + "/tmp",
                            "-q", "-x", "--deselect", "none"], cwd=repo, env=env, capture_output=True, text=True, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout[-2500:]
    finally:
        shutil.rmtree(t)


def main():
    ok = True
    for ID in [a for a in sys.argv[1:] if not a.startswith("-")]:
        d = os.path.join(V, "seeded", ID)
        meta = json.load(open(d + "/meta.json"))
        s = tempfile.mkdtemp(prefix="seedr-", dir="/dev/shm")
        try:
            r = s + "/repo"
            subprocess.check_call(["cp", "-a", "/repo", r])
            a, out = demo(d, r)
            if a:
                print(ID, "DEMO FAILS UNCHANGED", out); ok = False; continue
            if "cannot demonstrate" in out:
                print(ID, "DEMO VACUOUS", out); ok = False; continue
            subprocess.check_call(["git", "-C", r, "apply", d + "/patch.diff"])
            b, out = demo(d, r)
            if b == 0:
                print(ID, "DEMO PASSES WITH PATCH", out); ok = False; continue
            msg = out.strip().splitlines()[-1][:200]
            if "--notests" not in sys.argv:
                rc, out2 = tests(r)
                if rc:
                    print(ID, "TESTS FAIL", out2); ok = False; continue
            line = "%s ok (%s)" % (ID, msg)
            if "--checks" in sys.argv:
                p = subprocess.run(["./check", meta["property"]], cwd=V, env=dict(os.environ, VF_REPO=r), capture_output=True, text=True)
                line += " | %s rc=%d %s" % (meta["property"], p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION property=" + meta["property"] in p.stdout else "MISSED")
                line += "\n    " + "\n    ".join(p.stdout.splitlines()[1:2])
                if p.returncode not in (0, 1): line += p.stderr[-1500:]
            print(line, flush=True)
        finally:
            shutil.rmtree(s)
    sys.exit(not ok)


main()
