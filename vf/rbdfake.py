"""A stand-in for Ceph's rbd command.

State lives in $VF_RBD:
  images/<pool>/<image>/head.img, meta.json {size, snaps, seq}
                        snap-<name>.img
  truth/<pool>__<image>@<snap>.img   contents at snapshot time, kept for ever
  mapped.json, conf.json, faults.json, log.jsonl
"""
import fcntl
import json
import os
import random
import re
import shutil
import struct
import sys
import time

MiB = 1 << 20


class State:
    def __init__(self, root):
        self.root = root

    # -- plain files
    def path(self, *a):
        return os.path.join(self.root, *a)

    def jread(self, name, default):
        try:
            with open(self.path(name)) as f:
                return json.load(f)
        except FileNotFoundError:
            return default

    def jwrite(self, name, v):
        t = self.path(name) + ".tmp%d" % os.getpid()
        with open(t, "w") as f:
            json.dump(v, f)
        os.rename(t, self.path(name))

    def lock(self):
        f = open(self.path("lock"), "a")
        fcntl.flock(f, fcntl.LOCK_EX)
        return f

    def log(self, **kw):
        kw["t"] = time.monotonic()
        b = (json.dumps(kw) + "\n").encode()
        fd = os.open(
            self.path("log.jsonl"), os.O_WRONLY | os.O_APPEND | os.O_CREAT
        )
        os.write(fd, b)
        os.close(fd)

    def read_log(self):
        try:
            with open(self.path("log.jsonl")) as f:
                return [json.loads(x) for x in f]
        except FileNotFoundError:
            return []

    # -- images
    def idir(self, spec):
        pool, img = spec.split("/", 1)
        return self.path("images", pool, img)

    def meta(self, spec):
        try:
            with open(os.path.join(self.idir(spec), "meta.json")) as f:
                return json.load(f)
        except FileNotFoundError:
            return None

    def set_meta(self, spec, m):
        p = os.path.join(self.idir(spec), "meta.json")
        with open(p + ".tmp", "w") as f:
            json.dump(m, f)
        os.rename(p + ".tmp", p)

    def create(self, spec, size):
        d = self.idir(spec)
        os.makedirs(d)
        os.makedirs(self.path("truth"), exist_ok=True)
        with open(os.path.join(d, "head.img"), "wb") as f:
            f.truncate(size)
        self.set_meta(spec, {"size": size, "snaps": [], "seq": 1})

    def head(self, spec):
        return os.path.join(self.idir(spec), "head.img")

    def snap_file(self, spec, name):
        return os.path.join(
            self.idir(spec), "snap-%s.img" % name.replace("/", "%2f")
        )

    def truth(self, spec, name):
        return self.path(
            "truth", "%s@%s.img" % (spec.replace("/", "__"), name.replace("/", "%2f"))
        )

    def write(self, spec, off, data):
        with open(self.head(spec), "r+b") as f:
            f.seek(off)
            f.write(data)

    def resize(self, spec, size):
        with open(self.head(spec), "r+b") as f:
            f.truncate(size)
        m = self.meta(spec)
        m["size"] = size
        self.set_meta(spec, m)

    def discard(self, spec, off, length):
        size = os.path.getsize(self.head(spec))
        length = max(0, min(length, size - off))
        with open(self.head(spec), "r+b") as f:
            f.seek(off)
            f.write(b"\0" * length)

    def snap_create(self, spec, name):
        m = self.meta(spec)
        if m is None:
            return 2
        if any(s["name"] == name for s in m["snaps"]):
            return 17
        dst = self.snap_file(spec, name)
        copy_sparse(self.head(spec), dst)
        t = self.truth(spec, name)
        if os.path.exists(t):
            os.unlink(t)
        os.link(dst, t)
        m["snaps"].append({"id": m["seq"], "name": name, "size": m["size"]})
        m["seq"] += 1
        self.set_meta(spec, m)
        return 0

    def snaps(self, spec):
        m = self.meta(spec)
        return [s["name"] for s in m["snaps"]] if m else []


def copy_sparse(a, b):
    with open(a, "rb") as f, open(b, "wb") as g:
        size = os.fstat(f.fileno()).st_size
        g.truncate(size)
        pos = 0
        while pos < size:
            try:
                pos = os.lseek(f.fileno(), pos, os.SEEK_DATA)
            except OSError:
                break
            end = os.lseek(f.fileno(), pos, os.SEEK_HOLE)
            while pos < end:
                n = min(end - pos, 4 * MiB)
                g.seek(pos)
                g.write(os.pread(f.fileno(), n, pos))
                pos += n


def split_spec(s):
    if "@" in s:
        a, b = s.split("@", 1)
        return a, b
    return s, None


def extents(old, new, gran, rng, conf):
    """[(kind, off, len)] that turn old into new (bytes, len(new) counts)."""
    size = len(new)
    out = []
    block = gran
    mo, mn = memoryview(old), memoryview(new)
    o = 0
    while o < size:
        e = min(o + block, size)
        changed = e > len(old) and any_nonzero(mn[o:e]) or (
            e <= len(old) and mo[o:e] != mn[o:e]
        )
        if e > len(old) and o < len(old) and not changed:
            changed = mo[o:] != mn[o : len(old)]
        if not changed and rng.random() < conf.get("spurious", 0.0):
            changed = True
        if changed:
            s, t = o, e
            if not any_nonzero(mn[s:t]) and conf.get("zero", True):
                kind = "z"
            else:
                kind = "w"
                if conf.get("trim") and e <= len(old):
                    # byte-exact extent
                    while s < t and old[s] == new[s]:
                        s += 1
                    while t > s and old[t - 1] == new[t - 1]:
                        t -= 1
                    if s == t:
                        s, t = o, e
            if (
                out
                and out[-1][0] == kind
                and out[-1][1] + out[-1][2] == s
                and conf.get("merge", True)
            ):
                out[-1] = (kind, out[-1][1], out[-1][2] + t - s)
            else:
                out.append((kind, s, t - s))
        o = e
    return out


def any_nonzero(mv):
    b = bytes(mv)
    return b.count(0) != len(b)


def build_diff(old, new, frm, to, conf, whole):
    rng = random.Random(conf.get("seed", 0))
    gran = 4 * MiB if whole else conf.get("gran", 64 * 1024)
    parts = [b"rbd diff v1\n"]
    if frm is not None:
        parts.append(b"f" + struct.pack("<i", len(frm)) + frm.encode())
    parts.append(b"t" + struct.pack("<i", len(to)) + to.encode())
    parts.append(b"s" + struct.pack("<Q", len(new)))
    for k, o, n in extents(old, new, gran, rng, conf):
        parts.append(k.encode() + struct.pack("<QQ", o, n))
        if k == "w":
            parts.append(new[o : o + n])
    parts.append(b"e")
    return b"".join(parts)


def find_fault(st, cmdline):
    """faults.json: [{match, nth, ...action}]; counts in faultcount.json"""
    rules = st.jread("faults.json", [])
    if not rules:
        return None
    cnt = st.jread("faultcount.json", {})
    hit = None
    for i, r in enumerate(rules):
        if re.search(r["match"], cmdline):
            k = str(i)
            cnt[k] = cnt.get(k, 0) + 1
            if hit is None and (
                r.get("nth") is None or cnt[k] == r["nth"]
            ):
                hit = r
    st.jwrite("faultcount.json", cnt)
    return hit


def main(argv):
    st = State(os.environ["VF_RBD"])
    args = [a for a in argv[1:] if not a.startswith("--format")]
    js = any(a == "--format=json" for a in argv)
    cmdline = " ".join(args)
    lk = st.lock()
    fault = find_fault(st, cmdline)
    st.log(ev="call", cmd=args, pid=os.getpid(), fault=bool(fault))
    rc = 99
    try:
        if fault and fault.get("killparent") == "before":
            os.kill(int(os.environ["VF_PARENT"]), 9)
        rc = dispatch(st, args, js, fault, lk)
        if fault and fault.get("killparent") == "after":
            os.kill(int(os.environ["VF_PARENT"]), 9)
    except BrokenPipeError:
        rc = 32
    finally:
        st.log(ev="ret", cmd=args, pid=os.getpid(), rc=rc)
    return rc


def emit(data):
    sys.stdout.write(json.dumps(data))
    sys.stdout.flush()


def do_stream(st, data_iter, total, fault):
    """Writes to stdout; a fault may cut the stream after some bytes."""
    cut = fault.get("truncate") if fault else None
    if isinstance(cut, float):
        cut = int(total * cut)
    done = 0
    for d in data_iter:
        if cut is not None and done + len(d) >= cut:
            d = d[: cut - done]
            os_write_all(1, d)
            done += len(d)
            break
        os_write_all(1, d)
        done += len(d)
        if fault and fault.get("stall") and done >= fault["stall"]:
            st.jwrite("stalled", int(os.environ["VF_PARENT"]))
            while not os.path.exists(st.path("unstall")):
                time.sleep(0.002)
            fault = dict(fault, stall=None)
    if fault:
        if fault.get("signal"):
            os.kill(os.getpid(), fault["signal"])
        return fault.get("rc", 0)
    return 0


def os_write_all(fd, d):
    mv = memoryview(d)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def dispatch(st, a, js, fault, lk):
    conf = st.jread("conf.json", {})
    release = conf.get("release", "nautilus")
    if fault and fault.get("stop"):
        lk.close()
        st.jwrite("stalled", int(os.environ["VF_PARENT"]))
        while not os.path.exists(st.path("unstall")):
            time.sleep(0.002)
        lk = st.lock()
    if fault and fault.get("before") and "rc" in fault:
        sys.stderr.write(fault.get("stderr", "rbd: error: injected\n"))
        return fault["rc"]
    if fault and fault.get("garbage") is not None:
        sys.stdout.write(fault["garbage"])
        sys.stdout.flush()
        return fault.get("rc", 0)

    def done(rc=0):
        # fault after the effect: command did it but reports failure
        if fault and fault.get("after") and "rc" in fault:
            return fault["rc"]
        return rc

    if a[:1] == ["--version"]:
        v = {
            "nautilus": "ceph version 14.2.22 (deadbeef) nautilus (stable)\n",
            "luminous": "ceph version 12.2.13 (deadbeef) luminous (stable)\n",
            "jewel": "ceph version 10.2.9\n",
        }[release]
        sys.stdout.write(v)
        return done()
    if a[:2] == ["help", "export-diff"]:
        sys.stdout.write(
            "usage: rbd export-diff"
            + (" [--whole-object]" if conf.get("whole_supported", True) else "")
            + "\n"
        )
        return done()
    if a[0] == "info":
        spec, snap = split_spec(a[1])
        m = st.meta(spec)
        if m is None or (snap and snap not in st.snaps(spec)):
            sys.stderr.write("rbd: error opening image: (2) No such file\n")
            return 2
        emit({"name": spec, "size": m["size"], "format": 2})
        return done()
    if a[:2] == ["snap", "create"]:
        spec, snap = split_spec(a[2])
        if fault and fault.get("agent"):
            # somebody else was faster
            st.snap_create(spec, snap)
        rc = st.snap_create(spec, snap)
        if rc == 17:
            sys.stderr.write("rbd: failed to create snapshot: (17) File exists\n")
        return done(rc)
    if a[:2] == ["snap", "ls"]:
        m = st.meta(a[2])
        if m is None:
            return 2
        for s in conf.get("late_snaps", []):
            pass
        emit(
            [
                dict(s, protected="false", timestamp="x")
                for s in m["snaps"]
            ]
        )
        return done()
    if a[:2] == ["snap", "rm"]:
        spec, snap = split_spec(a[2])
        m = st.meta(spec)
        if m is None or snap not in st.snaps(spec):
            return 2
        for mp in st.jread("mapped.json", []):
            if mp["spec"] == a[2]:
                sys.stderr.write("rbd: snapshot is busy (mapped)\n")
                st.log(ev="busy-rm", snap=snap)
                return 16
        if snap in conf.get("protected", []):
            return 16
        m["snaps"] = [s for s in m["snaps"] if s["name"] != snap]
        st.set_meta(spec, m)
        os.unlink(st.snap_file(spec, snap))
        st.log(ev="snap-removed", spec=spec, snap=snap)
        return done()
    if a[0] == "map":
        spec, snap = split_spec(a[1])
        ro = "--read-only" in a
        if not os.path.exists(st.snap_file(spec, snap or "")):
            return 2
        mp = st.jread("mapped.json", [])
        n = st.jread("devseq.json", 0)
        st.jwrite("devseq.json", n + 1)
        pool, name = spec.split("/", 1)
        dev = st.path("dev-rbd%d" % n)
        if conf.get("tamper"):
            # the device shows something else than was exported
            copy_sparse(st.snap_file(spec, snap), dev)
            with open(dev, "r+b") as f:
                for off, hx in conf["tamper"]:
                    f.seek(off)
                    f.write(bytes.fromhex(hx))
        elif conf.get("nodev"):
            pass
        else:
            os.symlink(st.snap_file(spec, snap), dev)
        mp.append(
            dict(id=str(n), pool=pool, namespace="", name=name, snap=snap,
                 device=dev, spec=a[1], ro=ro)
        )
        st.jwrite("mapped.json", mp)
        st.log(ev="mapped", spec=a[1], device=dev)
        sys.stdout.write(dev + "\n")
        return done()
    if a[0] == "showmapped":
        mp = [
            {k: m[k] for k in ("id", "pool", "namespace", "name", "snap", "device")}
            for m in st.jread("mapped.json", [])
        ] + conf.get("foreign_maps", [])
        if release == "nautilus":
            emit(mp)
        else:
            emit({m["id"]: {k: v for k, v in m.items() if k not in ("id", "namespace")} for m in mp})
        return done()
    if a[0] == "unmap":
        mp = st.jread("mapped.json", [])
        keep = [m for m in mp if m["device"] != a[1]]
        if len(keep) == len(mp):
            return 22
        st.jwrite("mapped.json", keep)
        try:
            os.unlink(a[1])
        except FileNotFoundError:
            pass
        st.log(ev="unmapped", device=a[1])
        return done()
    if a[0] == "export":
        spec, snap = split_spec(a[1])
        p = st.snap_file(spec, snap) if snap else st.head(spec)
        if not os.path.exists(p):
            return 2
        f = open(p, "rb")
        lk.close()

        def it():
            while d := f.read(MiB):
                yield d

        return do_stream(st, it(), os.path.getsize(p), fault)
    if a[0] == "export-diff":
        spec, snap = split_spec(a[1])
        frm = a[a.index("--from-snap") + 1] if "--from-snap" in a else None
        p = st.snap_file(spec, snap)
        q = st.snap_file(spec, frm) if frm else None
        if not os.path.exists(p) or (q and not os.path.exists(q)):
            st.log(ev="bad-diff", spec=a[1], frm=frm)
            return 2
        new = open(p, "rb").read()
        old = open(q, "rb").read() if q else b""
        lk.close()
        whole = conf.get("whole")
        if whole is None:
            whole = "--whole-object" in a
        d = build_diff(old, new, frm, snap, conf, whole)
        if conf.get("rawdiff"):
            # a program that makes the stream: old, new, names -> bytes
            import importlib

            mod, fn, arg = conf["rawdiff"]
            d = getattr(importlib.import_module(mod), fn)(old, new, frm, snap, arg)
        piece = conf.get("piece") or MiB

        def it2():
            for i in range(0, len(d), piece):
                yield d[i : i + piece]

        return do_stream(st, it2(), len(d), fault)
    sys.stderr.write("fake rbd: unknown command %r\n" % (a,))
    return 1
