"""Interleaving control: stop one command before its n-th file system event."""
import os
import time

from vf.cmd import Hang


def shim(w, prog=None, trace=None, **kw):
    lines = []
    if prog:
        lines.append("prog=" + prog)
    lines.append("prefix=" + os.path.realpath(w.path))
    if trace:
        lines.append("trace=" + trace)
    lines += ["%s=%s" % i for i in kw.items()]
    return {"VF_SHIM": "\n".join(lines)}


def trace(w, argv, progs=("backy", "backy-rbd"), env=None, timeout=120):
    """Runs a command; -> (rc, {program: [event dicts]})"""
    out = {}
    p = os.path.join(w.case.dir, "trace.%PID%")
    pre = os.path.join(w.case.dir, "trace.")
    for n in os.listdir(w.case.dir):
        if n.startswith("trace."):
            os.unlink(os.path.join(w.case.dir, n))
    e = shim(w, ",".join(progs), trace=p)
    e.update(env or {})
    rc, _, err = w.run(*argv, env=e, timeout=timeout)
    for n in sorted(os.listdir(w.case.dir)):
        if n.startswith("trace."):
            evs = parse(os.path.join(w.case.dir, n))
            out[n] = evs
    return rc, out, err


MUTATING = {"open-w", "write", "fsync", "sync", "truncate", "chmod", "unlink",
            "rmdir", "mkdir", "rename", "link", "symlink", "fallocate",
            "sendfile", "utime"}


def parse(path):
    evs = []
    with open(path, errors="surrogateescape") as f:
        for line in f:
            if line.startswith("#"):
                continue
            t = line.rstrip("\n").split("\t")
            if len(t) < 7:
                continue
            evs.append(dict(t=int(t[0]), pid=int(t[1]), kind=t[2], ret=int(t[3]),
                            path=t[4], path2=t[5], info=t[6]))
    return evs


def gone(pid, timeout=20):
    """Waits until a killed process is no more (and holds no locks)."""
    end = time.monotonic() + timeout
    while time.monotonic() < end:
        try:
            os.kill(pid, 0)
        except ProcessLookupError:
            return
        time.sleep(0.001)
    raise Hang("%d does not go away" % pid)


class Stopped:
    """A command that stops once (where: dict(stop=n) or dict(stopon=..))."""

    def __init__(self, w, argv, prog, env=None, wait=60, **where):
        self.ctl = os.path.join(w.case.dir, "ctl-%d" % w.ncmd)
        w.ncmd += 1
        for s in (".stopped", ".go"):
            if os.path.exists(self.ctl + s):
                os.unlink(self.ctl + s)
        e = shim(w, prog, ctl=self.ctl, **where)
        e.update(env or {})
        self.w = w
        self.p = w.start(*argv, env=e)
        end = time.monotonic() + wait
        self.stopped = False
        while True:
            if os.path.exists(self.ctl + ".stopped"):
                self.stopped = True
                break
            if self.p.poll() is not None:
                break
            if time.monotonic() > end:
                self.p.kill()
                raise Hang("neither stopped nor finished")
            time.sleep(0.001)

    def kill(self):
        """Kills the stopped process and the command that started it."""
        import signal

        for i in range(500):
            with open(self.ctl + ".stopped") as f:
                pid = f.read()
            if pid:
                break
            time.sleep(0.001)
        self.p.kill()
        try:
            os.kill(int(pid), signal.SIGKILL)
        except ProcessLookupError:
            pass
        gone(int(pid))
        self.p.wait(20)
        self.p.close()

    def release(self):
        open(self.ctl + ".go", "w").close()

    def finish(self, timeout=120):
        self.release()
        try:
            self.rc = self.p.wait(timeout)
            self.out, self.err = self.p.output(), self.p.errput()
            return self.rc
        finally:
            self.p.close()


def overlap(a, w, argv, env=None, patience=2.0, timeout=120):
    """Run argv while a is stopped; if it waits for a, release a first.
    -> (rc_a, rc_b, waited)"""
    b = w.start(*argv, env=env)
    try:
        waited = False
        end = time.monotonic() + patience
        while b.poll() is None and time.monotonic() < end:
            time.sleep(0.002)
        if b.poll() is None:
            waited = True
            a.release()
        rcb = b.wait(timeout)
        rca = a.finish(timeout)
        overlap.out, overlap.err = b.output(), b.errput()
        return rca, rcb, waited
    finally:
        b.close()


def category(e):
    b = os.path.basename(e["path"])
    if "/chunks/" in e["path"]:
        b = "chunk" if b.endswith(".lzo") else "tmpchunk" if b.startswith("tmp") else "chunkdir"
    elif b.endswith(".rev"):
        b = "rev"
    elif b.startswith("tmp"):
        b = "tmp"
    elif len(b) == 22:
        b = "map"
    return e["kind"], b, e["path2"].endswith(".rev")


def choose(rng, events, n):
    """n distinct 1-based positions, evenly over the kinds of events."""
    groups = {}
    for i, e in enumerate(events):
        groups.setdefault(category(e), []).append(i + 1)
    # looking at, and creating, the 256 chunk directories is of no interest
    for g in list(groups):
        if g[0] in ("mkdir", "opendir") and len(groups) > 4:
            groups[g] = groups[g][:1]
    out = set()
    keys = list(groups)
    rng.shuffle(keys)
    # what changes something, and locks, first
    keys.sort(key=lambda g: g[0] not in MUTATING and g[0] != "flock")
    while len(out) < n and any(groups.values()):
        for g in keys:
            if groups[g] and len(out) < n:
                k = groups[g].pop(rng.randrange(len(groups[g])))
                out.add(k)
    return sorted(out)


class Stalled:
    """A command stopped within its n-th rbd call matching a pattern."""

    def __init__(self, w, argv, match, nth=1, wait=60, **how):
        for s in ("stalled", "unstall"):
            if os.path.exists(w.rbd.path(s)):
                os.unlink(w.rbd.path(s))
        w.faults(dict(how or {"stop": True}, match=match, nth=nth))
        self.w = w
        self.p = w.start(*argv)
        end = time.monotonic() + wait
        self.stopped = False
        while True:
            if os.path.exists(w.rbd.path("stalled")):
                self.stopped = True
                break
            if self.p.poll() is not None:
                break
            if time.monotonic() > end:
                self.p.kill()
                raise Hang("neither stopped nor finished")
            time.sleep(0.001)
        w.faults()

    def release(self):
        open(self.w.rbd.path("unstall"), "w").close()

    finish = Stopped.finish

    def kill(self):
        import signal

        pid = self.w.rbd.jread("stalled", 0)
        self.p.kill()
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        gone(pid)
        self.release()
        self.p.wait(20)
        self.p.close()
