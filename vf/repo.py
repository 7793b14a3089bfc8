"""A repository with a fake Ceph behind it, driven through the commands."""
import datetime
import hashlib
import json
import os
import random
import shutil

import yaml

from vf import rbdfake
from vf.core import Inconclusive, Violation

MiB = 1 << 20
CHUNK = 4 * MiB
UTC = datetime.timezone.utc

SCHEDULE = {
    "daily": {"interval": "1d", "keep": 9},
    "weekly": {"interval": "7d", "keep": 5},
    "monthly": {"interval": "30d", "keep": 4},
}


def yload(path):
    with open(path, encoding="utf-8") as f:
        return yaml.load(f, Loader=yaml.CSafeLoader if hasattr(yaml, "CSafeLoader") else yaml.SafeLoader)


class World:
    def __init__(self, case, name="vm0", schedule=None, image_size=2 * CHUNK,
                 source=None, base=None, rbd=None, conf=None):
        self.case, self.z, self.rng = case, case.z, case.rng
        self.base = base or os.path.join(case.dir, "backups")
        os.makedirs(self.base, exist_ok=True)
        self.name = name
        self.path = os.path.join(self.base, name)
        self.rbd = rbd
        self.spec = "rbd/" + name
        if self.rbd is None:
            d = os.path.join(case.dir, "ceph")
            os.makedirs(d, exist_ok=True)
            self.rbd = rbdfake.State(d)
        self.conf = dict(conf or {})
        self.set_conf()
        if source is None:
            source = {"type": "rbd", "pool": "rbd", "image": name}
            self.rbd.create(self.spec, image_size)
        self.source = source
        self.schedule = schedule or SCHEDULE
        os.makedirs(self.path, exist_ok=True)
        self.write_config()
        self.env = {"VF_RBD": self.rbd.root}
        self.clock = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC)
        self.ncmd = 0

    def set_conf(self, **kw):
        self.conf.update(kw)
        self.rbd.jwrite("conf.json", self.conf)

    def write_config(self):
        with open(os.path.join(self.path, "config"), "w") as f:
            yaml.safe_dump(
                {"path": self.path, "source": self.source,
                 "schedule": self.schedule}, f)

    # -- faults of rbd
    def faults(self, *rules):
        self.rbd.jwrite("faults.json", list(rules))
        self.rbd.jwrite("faultcount.json", {})

    # -- commands
    def _env(self, env):
        e = dict(self.env)
        e["VF_NOW"] = self.clock.isoformat()
        e.update(env or {})
        return e

    def run(self, prog, *args, env=None, timeout=120, **kw):
        self.ncmd += 1
        self.case.count("commands")
        return self.z.run(
            prog, *args, env=self._env(env), cwd=self.base, timeout=timeout, **kw
        )

    def start(self, prog, *args, env=None, **kw):
        self.case.count("commands")
        return self.z.start(prog, *args, env=self._env(env), cwd=self.base, **kw)

    def backy(self, *args, **kw):
        return self.run("backy", "-C", self.path, *args, **kw)

    def start_backy(self, *args, **kw):
        return self.start("backy", "-C", self.path, *args, **kw)

    def worker(self, *args, **kw):
        return self.run(
            "backy-" + self.source["type"], "-t", "abcd", "-C", self.path,
            *args, **kw)

    def tick(self, **kw):
        self.clock += datetime.timedelta(**(kw or {"hours": 1}))

    def backup(self, tags="manual:t", expect_ok=True, force=True, **kw):
        """-> new revision (dict) or None"""
        before = {r["uuid"] for r in self.revs()}
        self.tick(minutes=1)
        a = ["backup"] + (["-f"] if force else []) + [tags]
        rc, out, err = self.backy(*a, **kw)
        new = [r for r in self.revs() if r["uuid"] not in before]
        if expect_ok:
            if rc != 0 or len(new) != 1 or "duration" not in new[0]["stats"]:
                raise Violation(
                    "an undisturbed backup failed (rc=%s, %d new revisions)"
                    % (rc, len(new)), rc=rc, stderr=err[-3000:], log=self.log_tail())
            self.case.count("backups")
            return new[0]
        return rc, new, err

    def log_tail(self, n=4000):
        try:
            with open(os.path.join(self.path, "backy.log")) as f:
                return f.read()[-n:]
        except OSError:
            return ""

    # -- disk state
    def revs(self, path=None):
        path = path or self.path
        out = []
        for n in os.listdir(path):
            if n.endswith(".rev") and not os.path.islink(os.path.join(path, n)):
                try:
                    r = yload(os.path.join(path, n))
                    r["tags"] = sorted(r.get("tags") or [])
                    r["orig_tags"] = sorted(r.get("orig_tags") or [])
                    r["file"] = n
                    r["stats"]
                except FileNotFoundError:
                    continue
                except Exception as e:
                    raise Violation(
                        "revision metadata is unreadable: %s" % type(e).__name__,
                        file=n,
                        content=open(os.path.join(path, n), "rb").read()[:500])
                out.append(r)
        out.sort(key=lambda r: (r["timestamp"], r["uuid"]))
        return out

    def rev(self, uuid):
        for r in self.revs():
            if r["uuid"] == uuid:
                return r
        return None

    @staticmethod
    def complete(r):
        return "duration" in r["stats"]

    def map_of(self, uuid):
        with open(os.path.join(self.path, uuid)) as f:
            return json.load(f)

    def chunk_file(self, h):
        return os.path.join(self.path, "chunks", h[:2], h + ".chunk.lzo")

    def chunks(self):
        out = set()
        d = os.path.join(self.path, "chunks")
        for a in os.listdir(d):
            p = os.path.join(d, a)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.endswith(".chunk.lzo"):
                        out.add(n[: -len(".chunk.lzo")])
        return out

    # -- truth and restore
    def truth_file(self, uuid):
        return self.rbd.truth(self.spec, "backy-" + uuid)

    def restore(self, uuid, target=None, how="file", env=None):
        """-> (rc, path of restored data)"""
        t = target or os.path.join(self.case.dir, "restored")
        if how == "stdout":
            with open(t, "w+b") as f:
                p = self.start("backy-rbd", "-t", "abcd", "-C", self.path,
                               "restore", uuid, "-", stdout=f, env=env)
                try:
                    rc = p.wait(120)
                    return rc, t
                finally:
                    p.close()
        elif how == "cli":
            rc, _, _ = self.backy("restore", "-r", uuid, "rbd", t, env=env)
        else:
            rc, _, _ = self.worker("restore", uuid, t, env=env)
        return rc, t

    def check_restore(self, uuid, truth=None, how="file", what="", prefill=None,
                      must=True):
        """Restores and compares; the central oracle."""
        t = os.path.join(self.case.dir, "restored")
        if os.path.exists(t):
            os.unlink(t)
        if prefill is not None:
            with open(t, "wb") as f:
                f.write(prefill)
        rc, t = self.restore(uuid, t, how)
        self.case.count("restores")
        if rc != 0:
            if must:
                raise Violation(
                    "restore of a complete revision failed (rc=%s) %s" % (rc, what),
                    uuid=uuid, log=self.log_tail())
            return False
        d = diff_files(t, truth or self.truth_file(uuid))
        if d:
            raise Violation(
                "restore exits 0 but the data differs %s" % what,
                uuid=uuid, diff=d, how=how)
        return True


def diff_files(a, b):
    sa, sb = os.path.getsize(a), os.path.getsize(b)
    if sa != sb:
        return "sizes %d and %d" % (sa, sb)
    with open(a, "rb") as f, open(b, "rb") as g:
        pos = 0
        while True:
            x, y = f.read(MiB), g.read(MiB)
            if x != y:
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        return "first difference at %d" % (pos + i)
            if not x:
                return None
            pos += len(x)


def blob(rng, n, kind=None):
    """Data of n bytes, cheap but distinctive."""
    kind = kind or rng.choice(["rand", "rep", "mix", "zero", "same"])
    if n <= 0:
        return b""
    if kind == "zero":
        return b"\0" * n
    if kind == "same":
        # equal blobs all over the place: chunks get shared
        return (b"backy-same-%d|" % rng.randrange(2)) * (n // 13 + 1)[:n] if False else ((b"backy-same-%d|" % rng.randrange(2)) * (n // 13 + 1))[:n]
    if kind == "rep":
        u = rng.randbytes(rng.choice([1, 3, 16, 509]))
        return (u * (n // len(u) + 1))[:n]
    if kind == "mix":
        b = bytearray(n)
        for _ in range(rng.randrange(1, 6)):
            o = rng.randrange(n)
            x = rng.randbytes(min(n - o, rng.randrange(1, 3000)))
            b[o : o + len(x)] = x
        return bytes(b)
    if n > 65536:
        u = rng.randbytes(65536)
        return b"".join(
            u[i % 251 :] + u[: i % 251] for i in range(n // 65536 + 1)
        )[:n]
    return rng.randbytes(n)


def edge_offset(rng, size, grid=CHUNK):
    """Offsets near the chunk grid, the ends and anywhere."""
    k = rng.random()
    if k < 0.45:
        o = rng.randrange(size // grid + 1) * grid + rng.choice(
            [0, 0, 0, -1, 1, -4096, 4096, 511, -65536, 65536])
    elif k < 0.6:
        o = size - rng.choice([1, 2, 512, 4096, grid, grid + 1])
    else:
        o = rng.randrange(size + 1)
    return max(0, min(size, o))


def mutate_image(w, rng, maxops=4, resize=True, max_size=6 * CHUNK):
    """One period of VM activity on the head image; returns a description."""
    ops = []
    for _ in range(rng.randrange(0, maxops + 1)):
        size = w.rbd.meta(w.spec)["size"]
        k = rng.random()
        if k < 0.55 and size:
            o = edge_offset(rng, size)
            n = rng.choice([1, 511, 512, 4096, 65536, CHUNK - 1, CHUNK,
                            CHUNK + 1, 2 * CHUNK, rng.randrange(1, 3 * CHUNK)])
            n = min(n, size - o)
            if n > 0:
                kind = rng.choice(["rand", "rep", "mix", "same", "rand"])
                w.rbd.write(w.spec, o, blob(rng, n, kind))
                ops.append(("write", o, n, kind))
        elif k < 0.75 and size:
            o = edge_offset(rng, size)
            n = rng.choice([512, 4096, 65536, CHUNK, 2 * CHUNK, size])
            w.rbd.discard(w.spec, o, n)
            ops.append(("discard", o, n))
        elif resize:
            new = rng.choice([
                rng.randrange(0, max_size // 512 + 1) * 512,
                rng.randrange(0, max_size // CHUNK + 1) * CHUNK,
                size + CHUNK, max(0, size - CHUNK), size + 512,
                max(0, size - 512), size // 2 // 512 * 512,
            ])
            new = min(new, max_size)
            if new == 0 and rng.random() < 0.8:
                new = 512
            w.rbd.resize(w.spec, new)
            ops.append(("resize", new))
    return ops


def snapshot_dir(path, dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(path, dst, symlinks=True)


def tree_state(path, skip=("backy.log", ".backup", ".purge")):
    """{relative name: (mode, size, digest)} for 'nothing changed' oracles."""
    out = {}
    for d, ds, fs in os.walk(path):
        for n in fs:
            rel = os.path.relpath(os.path.join(d, n), path)
            if os.path.basename(rel) in skip:
                continue
            p = os.path.join(d, n)
            st = os.lstat(p)
            h = hashlib.sha1()
            if os.path.islink(p):
                h.update(os.readlink(p).encode())
            else:
                try:
                    with open(p, "rb") as f:
                        while b := f.read(MiB):
                            h.update(b)
                except OSError as e:
                    h.update(str(e).encode())
            out[rel] = (oct(st.st_mode & 0o7777), st.st_size, h.hexdigest())
    return out


def save(w, name="saved"):
    """Snapshot of the repository and the fake Ceph."""
    d = os.path.join(w.case.dir, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(w.base, os.path.join(d, "base"), symlinks=True)
    shutil.copytree(w.rbd.root, os.path.join(d, "rbd"), symlinks=True)
    return d, w.clock


def load(w, saved):
    d, w.clock = saved
    for src, dst in (("base", w.base), ("rbd", w.rbd.root)):
        shutil.rmtree(dst)
        shutil.copytree(os.path.join(d, src), dst, symlinks=True)
