"""A small stage for demonstrations: a scratch directory with an RBD image
behind a stand-in for the rbd command, and the backy commands of the source
tree in the current directory."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

import yaml

SRC = os.path.join(os.path.realpath(os.getcwd()), "src")
PY = "/opt/venv/bin/python"
MiB = 1 << 20

RBD = r'''
import json, os, struct, sys
S = os.environ["MINI_RBD"]
a = sys.argv[1:]
def state(): return json.load(open(S + "/state.json"))
def save(s):
    open(S + "/state.new", "w").write(json.dumps(s)); os.rename(S + "/state.new", S + "/state.json")
def fail(rc=2): sys.exit(rc)
fault = os.environ.get("MINI_FAIL", "")
words = [x for x in a if not x.startswith("-") or x == "--version"]
cmd = " ".join(words[:2]) if words[:1] == ["snap"] else words[0]
open(S + "/calls", "a").write(" ".join(a) + "\n")
if fault and cmd == fault: fail(int(os.environ.get("MINI_RC", "1")))
if cmd == "--version": print("ceph version 14.2 nautilus")
elif cmd == "help": print("usage")
elif cmd == "info":
    spec = words[1].split("@")
    if len(spec) > 1 and spec[1] not in state()["snaps"]: fail()
    print('{"name": "vm"}')
elif cmd == "snap create":
    s = state(); n = words[2].split("@")[1]
    if n in s["snaps"]: fail(17)
    import shutil; shutil.copyfile(S + "/head", S + "/snap-" + n)
    s["snaps"].append(n); save(s)
elif cmd == "snap ls": print(json.dumps([{"id": i, "name": n, "size": 1} for i, n in enumerate(state()["snaps"])]))
elif cmd == "snap rm":
    s = state(); n = words[2].split("@")[1]
    if n not in s["snaps"]: fail()
    s["snaps"].remove(n); save(s); os.unlink(S + "/snap-" + n)
elif cmd == "map":
    s = state(); n = words[1].split("@")[1]
    s["mapped"].append(n); save(s)
elif cmd == "showmapped":
    print(json.dumps([{"pool": "rbd", "name": "vm", "snap": n, "device": S + "/snap-" + n} for n in state()["mapped"]]))
elif cmd == "unmap":
    s = state(); n = os.path.basename(words[1])[5:]
    s["mapped"].remove(n); save(s)
elif cmd == "export":
    sys.stdout.buffer.write(open(S + "/snap-" + words[1].split("@")[1], "rb").read())
elif cmd == "export-diff":
    new = open(S + "/snap-" + words[1].split("@")[1], "rb").read()
    old = open(S + "/snap-" + words[2], "rb").read()
    o = sys.stdout.buffer
    def b(x): return struct.pack("<i", len(x)) + x
    o.write(b"rbd diff v1\nf" + b(words[2].encode()) + b"t" + b(words[1].split("@")[1].encode()) + b"s" + struct.pack("<Q", len(new)))
    G = 65536
    for i in range(0, len(new), G):
        n, p = new[i:i+G], old[i:i+G]
        if n != p: o.write(b"w" + struct.pack("<QQ", i, len(n)) + n)
    o.write(b"e")
'''


class Stage:
    def __init__(self, size=8 * MiB, schedule=None):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        atexit.register(shutil.rmtree, self.dir, True)
        d = self.dir
        self.bin = d + "/bin"
        os.makedirs(self.bin)
        for n, m in (("backy", "backy.cli"), ("backy-rbd", "backy.rbd"),
                     ("backy-file", "backy.file"), ("backyd", "backy.daemon")):
            self.script(n, "import sys\nsys.path.insert(0, %r)\nfrom %s import main\nsys.exit(main())\n" % (SRC, m))
        self.script("rbd", RBD)
        self.ceph = d + "/ceph"
        os.makedirs(self.ceph)
        with open(self.ceph + "/head", "wb") as f:
            f.truncate(size)
        with open(self.ceph + "/state.json", "w") as f:
            json.dump({"snaps": [], "mapped": []}, f)
        self.schedule = schedule or {"daily": {"interval": "1d", "keep": 5}}
        self.source = {"type": "rbd", "pool": "rbd", "image": "vm"}
        self.repo = d + "/vm"
        os.makedirs(self.repo)
        self.config()
        self.env = dict(os.environ, MINI_RBD=self.ceph, PYTHONDONTWRITEBYTECODE="1",
                        PYTHONPATH=SRC + ":/opt/vp/meta",
                        BACKY_CLI_CMD=self.bin + "/backy", BACKY_RBD_CMD=self.bin + "/backy-rbd",
                        PATH=self.bin + ":/opt/venv/bin:" + os.environ["PATH"])

    def script(self, name, text):
        with open(self.bin + "/" + name, "w") as f:
            f.write("#!%s -B\n%s" % (PY, text))
        os.chmod(self.bin + "/" + name, 0o755)

    def config(self):
        with open(self.repo + "/config", "w") as f:
            yaml.safe_dump({"path": self.repo, "source": self.source, "schedule": self.schedule}, f)

    def write(self, off, data):
        with open(self.ceph + "/head", "r+b") as f:
            f.seek(off)
            f.write(data)

    def run(self, *a, env=None, timeout=120, **kw):
        p = subprocess.run([self.bin + "/" + a[0]] + list(a[1:]), cwd=self.dir,
                           env=dict(self.env, **(env or {})), timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")

    def backy(self, *a, **kw):
        return self.run("backy", "-C", self.repo, *a, **kw)

    def backup(self, tags="manual:t", ok=True, **kw):
        before = set(self.revs())
        rc, out, err = self.backy("backup", "-f", tags, **kw)
        new = set(self.revs()) - before
        if ok:
            need(rc == 0 and len(new) == 1, "backup failed: " + err)
            return new.pop()
        return rc, new

    def revs(self):
        out = {}
        for n in os.listdir(self.repo):
            if n.endswith(".rev") and not os.path.islink(self.repo + "/" + n):
                with open(self.repo + "/" + n) as f:
                    r = yaml.safe_load(f)
                out[r["uuid"]] = r
        return out

    def restore(self, uuid):
        t = self.dir + "/restored"
        rc, out, err = self.run("backy-rbd", "-C", self.repo, "restore", uuid, t)
        if rc:
            return None
        with open(t, "rb") as f:
            return f.read()

    def image(self):
        with open(self.ceph + "/head", "rb") as f:
            return f.read()

    def map(self, uuid):
        with open(self.repo + "/" + uuid) as f:
            return json.load(f)

    def chunk(self, h):
        return "%s/chunks/%s/%s.chunk.lzo" % (self.repo, h[:2], h)

    def damage(self, uuid, block=0):
        """Overwrites the middle of a stored chunk."""
        m = self.map(uuid)["mapping"]
        p = self.chunk(m[str(block)] if isinstance(m, dict) else m[block])
        os.chmod(p, 0o600)
        with open(p, "r+b") as f:
            f.seek(os.path.getsize(p) // 2)
            f.write(b"DAMAGE")


def need(cond, what):
    """The stage itself must work."""
    if not cond:
        print("cannot demonstrate:", what)
        sys.exit(0)


def broken(what):
    print("BROKEN:", what)
    sys.exit(1)
