"""C23: housekeeping of the base directory."""
import asyncio
import datetime
import errno
import os
import random
import shutil
import stat
import sys
import time

import yaml

from vf import inproc
from vf.checks.c15 import FakeProc
from vf.core import Violation

PROPERTY = "C23"
LEVEL = "exploration"
TECHNIQUE = (
    "the real daemon's housekeeping runs over simulated days on generated trees with "
    "links and failing entries; before and after every round the whole tree is recorded "
    "and compared, every started process is compared with the markers"
)
NOTE = (
    "Ages within five seconds of the limit are not generated, nor are changes while a "
    "directory is being looked at. Directories whose scan or removal fails may be left."
)
RULE = (
    "one evaluation = one directory entry judged in one round; distinct = (kind of entry, "
    "what decided, depth, failure, marker, outcome)"
)
MUST_SEE = ["rounds", "removed", "kept_recent_deep", "kept_recent_self", "links", "files",
            "recent_link_inside", "recent_link_target", "unscannable", "unremovable",
            "base_missing", "purges", "purges_retried", "purge_failed", "purge_broken",
            "purge_of_job_left", "marked_link", "nothing_marked", "limit_old",
            "limit_recent", "live", "aged"]
UTC = datetime.timezone.utc
AGE = 93 * 86400
DAY = 86400
sleep = asyncio.sleep


def cases(tier, rng):
    n = 64 if tier == "quick" else 320
    return [{"i": i, "n": 12 if tier == "quick" else 40,
             "kind": "live" if i % 16 == 7 else "sim"} for i in range(n)]


def run(c):
    if c.spec["kind"] == "live":
        return live(c)
    inproc.call(c, __name__, "main",
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


def main(spec, rep):
    from vf.vtime import VLoop

    guard(spec["dir"])
    loop = VLoop()
    asyncio.set_event_loop(loop)
    try:
        loop.run_until_complete(World(spec, rep, loop).main())
    finally:
        armed.clear()


armed = []


def guard(top):
    """Nothing outside of the scratch directory is removed, whatever the code does."""
    top = os.path.realpath(top) + "/"
    if not armed:
        def hook(event, args):
            if not armed or event not in ("os.remove", "os.rmdir", "shutil.rmtree"):
                return
            path, dir_fd = args[0], args[1]
            if event != "shutil.rmtree" and isinstance(dir_fd, int) and dir_fd != -1:
                return
            p = os.fsdecode(path)
            p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))),
                             os.path.basename(p))
            if not p.startswith(armed[0]):
                raise RuntimeError("refused to remove " + p)

        sys.addaudithook(hook)
    armed[:] = [top]


def newest(path):
    """-> greatest modification time of everything there, never following links"""
    st = os.lstat(path)
    m = st.st_mtime
    if stat.S_ISDIR(st.st_mode):
        for n in os.listdir(path):
            m = max(m, newest(os.path.join(path, n)))
    return m


def record(path, skip=()):
    """-> {relative name: everything about it}"""
    out = {}

    def go(p, rel):
        st = os.lstat(p)
        v = [stat.S_IFMT(st.st_mode), st.st_mtime_ns, st.st_ino]
        if stat.S_ISREG(st.st_mode):
            with open(p, "rb") as f:
                v.append(f.read())
        elif stat.S_ISLNK(st.st_mode):
            v.append(os.readlink(p))
        out[rel] = v
        if stat.S_ISDIR(st.st_mode) and rel not in skip:
            for n in sorted(os.listdir(p)):
                go(os.path.join(p, n), os.path.join(rel, n))

    for n in sorted(os.listdir(path)):
        go(os.path.join(path, n), n)
    return out


class World:
    npid = 0

    def __init__(self, spec, rep, loop):
        self.spec, self.rep, self.loop = spec, rep, loop
        self.rng = random.Random(spec["seed"])
        self.dir = spec["dir"]
        self.base = os.path.join(self.dir, "backups")
        self.outside = os.path.join(self.dir, "outside")
        os.mkdir(self.base)
        os.mkdir(self.outside)
        self.t0 = 1700000000.0 + self.rng.randrange(10**7)
        time.time = self.time
        self.procs, self.fail_names, self.serial = [], set(), 0
        self.pending_failed = set()
        self.trace = []

    def time(self):
        return self.t0 + self.loop.time()

    def bad(self, what, **kw):
        raise Violation(what, day=self.loop.time() / DAY, trace=self.trace[-20:],
                        **{k: repr(v)[:1500] for k, v in kw.items()})

    # -- trees

    def age(self, old, ref):
        """A modification time relative to the limit of the next round."""
        rng = self.rng
        if old:
            t = rng.choice([6, 20, 3600, DAY, 100 * DAY])
            self.rep.count("limit_old", t < 60)
            return ref - t
        t = rng.choice([6, 20, 3600, DAY, 20 * DAY, AGE, AGE + 1000 * DAY])
        self.rep.count("limit_recent", t < 60)
        return ref + t

    def tree(self, path, depth, made):
        rng = self.rng
        os.mkdir(path)
        made.append(path)
        for i in range(rng.randrange(0, 4)):
            p = os.path.join(path, rng.choice(["a", "b.rev", "chunks", "é", ".x"]) + str(i))
            k = rng.random()
            if k < 0.45 and depth:
                self.tree(p, depth - 1, made)
                continue
            if k < 0.8:
                with open(p, "wb") as f:
                    f.write(b"x" * rng.randrange(20))
            elif k < 0.95:
                os.symlink(rng.choice([
                    "nowhere", self.outside, os.path.join(self.outside, "f"), ".", "..",
                    self.base, os.path.join(self.outside, "new")]), p)
            else:
                os.mkfifo(p)
            made.append(p)

    def stamp(self, made, fn):
        for p in sorted(made, key=lambda p: -p.count("/")):
            t = fn(p)
            os.utime(p, (t, t), follow_symlinks=False)

    def directory(self, ref):
        """A new directory, old but for a few things."""
        rng = self.rng
        self.serial += 1
        path = os.path.join(self.base, rng.choice(["vm", "d.", "x y", "-r", "é"])
                            + str(self.serial))
        made = []
        self.tree(path, rng.randrange(0, 5), made)
        fresh = set()
        if rng.random() < 0.55:
            fresh.add(rng.choice(made))
            if rng.random() < 0.4:
                # preferably deep down
                fresh = {max(made, key=lambda p: (p.count("/"), p))}
        self.stamp(made, lambda p: self.age(p not in fresh, ref))
        return path

    def too_long(self, ref):
        """A directory nobody can look through."""
        path = self.directory(ref)
        self.long.add(os.path.basename(path))
        fds = [os.open(path, os.O_RDONLY)]
        n = "n" * 200
        for _ in range(25):
            os.mkdir(n, dir_fd=fds[-1])
            fds.append(os.open(n, os.O_RDONLY, dir_fd=fds[-1]))
        t = ref - 100 * DAY
        for f in fds:
            os.utime(f, (t, t))
            os.close(f)
        return path

    # -- processes

    async def spawn(self, *args, **kw):
        args = [str(a) for a in args]
        self.procs.append(args)
        d = args[args.index("-C") + 1] if "-C" in args else ""
        self.trace.append("process %s" % args)
        r = self.outcome.get(os.path.basename(d))
        if r == "spawn":
            raise OSError(errno.ENOENT, "injected")

        def effect():
            m = os.path.join(d, ".purge_pending")
            if r is None and os.path.exists(m):
                os.unlink(m)

        return FakeProc(self, "gc", os.path.basename(d), effect,
                        self.rng.choice([0.1, 60, 900]), 0 if r is None else 1)

    def ended(self, p):
        pass

    # -- a day

    def prepare(self, ref):
        """Before the round that compares with ref."""
        rng, rep = self.rng, self.rep
        for _ in range(rng.randrange(1, 5)):
            self.directory(ref)
        if rng.random() < 0.15:
            self.too_long(ref)
        for n in os.listdir(self.base):
            p = os.path.join(self.base, n)
            if os.path.islink(p) or not os.path.isdir(p) or rng.random() < 0.6 \
                    or n in self.long:
                continue
            # the others grow old, some are used again
            if rng.random() < 0.5:
                made = [os.path.join(a, x) for a, b, c in os.walk(p) for x in b + c] + [p]
                k = rng.choice(made)
                t = self.age(False, ref)
                os.utime(k, (t, t), follow_symlinks=False)
        for _ in range(rng.randrange(0, 2)):
            self.serial += 1
            p = os.path.join(self.base, "e%d" % self.serial)
            k = rng.choice(["file", "link", "link", "fifo", "broken"])
            if k == "file":
                open(p, "w").close()
            elif k == "fifo":
                os.mkfifo(p)
            else:
                dirs = [n for n in os.listdir(self.base) if not os.path.islink(
                    os.path.join(self.base, n)) and os.path.isdir(
                    os.path.join(self.base, n))]
                os.symlink("nowhere" if k == "broken" else rng.choice(
                    [self.outside, os.path.join(self.outside, "old")] + dirs[:1]), p)
            t = self.age(rng.random() < 0.8, ref)
            os.utime(p, (t, t), follow_symlinks=False)
        # markers
        self.outcome = {}
        for n in sorted(os.listdir(self.base)):
            p = os.path.join(self.base, n)
            if not os.path.isdir(p) or n in self.long:
                continue
            link = os.path.islink(p)
            if rng.random() < 0.3 and not (link and not os.path.realpath(p).startswith(
                    self.outside)):
                self.mark(p, n)
            r = rng.random()
            if r < 0.3:
                self.outcome[n] = rng.choice(["spawn", "rc", "rc"])
        rep.count("aged")

    def mark(self, p, n):
        st = os.stat(p)
        m = os.path.join(p, ".purge_pending")
        if not os.path.lexists(m):
            open(m, "w").close()
            os.utime(m, (st.st_mtime, st.st_mtime))
        cf = os.path.join(p, "config")
        if n not in self.d.jobs and not os.path.lexists(cf):
            r = self.rng.random()
            if r < 0.75:
                with open(cf, "w") as f:
                    yaml.safe_dump({
                        "path": p, "schedule": {"daily": {"interval": "1d", "keep": 1}},
                        "source": {"type": self.rng.choice(["rbd", "file"]), "pool": "p",
                                   "image": "i", "filename": "/nowhere"}}, f)
            elif r < 0.85:
                with open(cf, "w") as f:
                    f.write(self.rng.choice(["{[", "", "[]", "source: 5"]))
            if os.path.lexists(cf):
                os.utime(cf, (st.st_mtime, st.st_mtime))
        # what the config's reader would create
        q = os.path.join(p, "quarantine")
        if not os.path.lexists(q):
            os.mkdir(q)
            os.utime(q, (st.st_mtime, st.st_mtime))
        os.utime(p, (st.st_mtime, st.st_mtime))

    def usable(self, p):
        """Whether a purge can be carried out there."""
        try:
            with open(os.path.join(p, "config")) as f:
                d = yaml.safe_load(f)
            return d["source"]["type"] if d["path"] == p else None
        except Exception:
            return None

    async def main(self):
        import structlog
        from pathlib import Path

        from backy.daemon import BackyDaemon

        rng, rep = self.rng, self.rep
        asyncio.create_subprocess_exec = self.spawn
        jobs = {"job%d" % i: {"schedule": "s", "source": {"type": "file",
                                                          "filename": "/nowhere"}}
                for i in range(rng.randrange(0, 3))}
        cf = Path(self.dir) / "conf"
        cf.write_text(yaml.safe_dump({
            "global": {"base-dir": self.base}, "api": {"addrs": ""},
            "schedules": {"s": {"daily": {"interval": "9000d", "keep": 1}}},
            "jobs": jobs}))
        d = self.d = BackyDaemon(cf, structlog.stdlib.get_logger())
        self.long = set()
        o = self.outside
        for n in ("old", "new"):
            os.mkdir(os.path.join(o, n))
            with open(os.path.join(o, n, "data"), "w") as f:
                f.write(n)
        with open(os.path.join(o, "f"), "w") as f:
            f.write("f")
        for a, b, c in os.walk(o, topdown=False):
            for x in c:
                os.utime(os.path.join(a, x), (0, 0))
            os.utime(a, (0, 0))
        t = self.time()
        os.utime(os.path.join(o, "new"), (t, t))
        unlink, rmdir = os.unlink, os.rmdir

        def failing(fn):
            def f(path, *a, **kw):
                n = os.path.basename(os.fsdecode(path))
                if n in self.stubborn:
                    raise OSError(errno.EIO, "injected")
                return fn(path, *a, **kw)
            return f

        self.stubborn = set()
        os.unlink, os.rmdir = failing(unlink), failing(rmdir)
        await self.look_before(0)
        # the daemon's polling for its end would cost most of the time
        asyncio.sleep = lambda s, *a: sleep(86400 if 0 < s < 1 else s, *a)
        d.start(self.loop)
        for k in range(self.spec["n"]):
            if k:
                await self.look_before(k)
            await sleep(k * DAY + 3600 * 12 - self.loop.time())
            self.judge(k)
            if k + 1 < self.spec["n"]:
                await sleep((k + 1) * DAY - 600 - self.loop.time())
        os.unlink, os.rmdir = unlink, rmdir

    gone = None

    async def look_before(self, k):
        rng, rep = self.rng, self.rep
        ref = self.t0 + k * DAY - AGE
        if k and rng.random() < 0.1:
            self.gone = self.base + ".gone"
            os.rename(self.base, self.gone)
            rep.count("base_missing")
            self.before = record(self.gone, self.long)
            self.procs.clear()
            return
        self.prepare(ref)
        self.stubborn = set()
        if rng.random() < 0.3:
            names = sorted({x for n in os.listdir(self.base) if n not in self.long and
                            not os.path.islink(os.path.join(self.base, n))
                            for a, b, c in os.walk(os.path.join(self.base, n))
                            for x in b + c})
            names = [n for n in names if n not in (".purge_pending", "config", "quarantine")]
            if names:
                self.stubborn = {rng.choice(names)}
        self.before = record(self.base, self.long)
        self.out = record(self.outside)
        self.ages = {n: newest(os.path.join(self.base, n)) for n in os.listdir(self.base)
                     if n not in self.long}
        self.ref = ref
        self.marked = {}
        for n in os.listdir(self.base):
            p = os.path.join(self.base, n)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, ".purge_pending")):
                self.marked[n] = self.usable(p)
        self.procs.clear()
        self.trace.append("day %d: %s stubborn %s marked %s" % (
            k, sorted(os.listdir(self.base)), self.stubborn, self.marked))

    def judge(self, k):
        rng, rep = self.rng, self.rep
        rep.count("rounds")
        if self.gone:
            os.rename(self.gone, self.base)
            self.gone = None
            if record(self.base, self.long) != self.before or self.procs:
                self.bad("something happened although the base directory was missing")
            return
        after = record(self.base, self.long)
        if record(self.outside) != self.out:
            self.bad("something outside of the base directory was changed")
        top = sorted({x for x in self.before if "/" not in x})
        for n in top:
            kind = stat.S_IFMT(self.before[n][0])
            inside = [x for x in self.before if x == n or x.startswith(n + "/")]
            gone = [x for x in inside if x not in after]
            info = dict(name=n, ages={x: (self.before[x][1] / 1e9 - self.ref)
                                      for x in inside[:40]}, gone=gone[:20])
            rep.count("evaluations")
            if rep.sample is None and kind == stat.S_IFDIR:
                rep.sample = dict(days=round((self.ref - self.ages[n]) / 86400, 3)
                                  if n in self.ages else None,
                                  marked=n in self.marked, entries=len(inside),
                                  gone=len(gone))
            if kind != stat.S_IFDIR:
                rep.count("links" if kind == stat.S_IFLNK else "files")
                if gone:
                    self.bad("something was removed that is not a directory", **info)
                rep.distinct(kind, self.ages[n] < self.ref)
                continue
            if n in self.long:
                rep.count("unscannable")
                if set(gone) - {os.path.join(n, ".purge_pending")}:
                    self.bad("removed what could not be looked through", **info)
                continue
            old = self.ages[n] < self.ref
            jobs = n in self.d.jobs
            if jobs and k == 0:
                continue
            if not old:
                if gone and not set(gone) <= {os.path.join(n, ".purge_pending")}:
                    self.bad("a directory with recent changes was removed", **info)
                deepest = max((x for x in inside if self.before[x][1] / 1e9 >= self.ref),
                              key=lambda x: x.count("/"))
                depth = deepest.count("/")
                rep.count("kept_recent_deep", depth >= 2)
                rep.count("kept_recent_self", depth == 0)
                rep.count("recent_link_inside", stat.S_IFMT(
                    self.before[deepest][0]) == stat.S_IFLNK)
                changed = [x for x in inside if x in after and x != n and
                           after[x] != self.before[x]]
                if changed:
                    self.bad("something in a kept directory was changed", changed=changed,
                             **info)
                rep.distinct("kept", depth, n in self.marked)
                continue
            rep.count("recent_link_target", any(
                self.before[x][3].endswith("new") for x in inside
                if stat.S_IFMT(self.before[x][0]) == stat.S_IFLNK))
            if any(os.path.basename(x) in self.stubborn for x in inside):
                rep.count("unremovable")
                # what is left counts as modified now
                continue
            if len(gone) != len(inside):
                self.bad("an old directory was not removed", left=sorted(
                    set(inside) - set(gone)), **info)
            rep.count("removed")
            rep.distinct("removed", max(x.count("/") for x in inside), n in self.marked)
        new = set(after) - set(self.before)
        if any(x.split("/")[0] not in self.d.jobs for x in new):
            self.bad("something new appeared", new=sorted(new)[:10])
        self.judge_purges(after)

    def judge_purges(self, after):
        rep = self.rep
        got = {}
        for a in self.procs:
            p = a[a.index("-C") + 1] if "-C" in a else ""
            n = os.path.basename(p)
            if os.path.dirname(p) != self.base or "gc" not in a or n in got:
                self.bad("an unexpected process", args=a)
            got[n] = a
        rep.count("nothing_marked", not self.marked)
        for n in set(got) - set(self.marked):
            self.bad("a purge that was not requested", name=n)
        for n, type_ in self.marked.items():
            link = os.path.islink(os.path.join(self.base, n))
            if link or n in self.d.jobs:
                rep.count("marked_link" if link else "purge_of_job_left")
                if n in got:
                    self.bad("a purge of something that is no backup without a job", name=n)
                continue
            if not type_:
                rep.count("purge_broken")
                if n in got:
                    self.bad("a process without a configuration", name=n)
                continue
            if self.ages.get(n, self.ref) < self.ref:
                # both at once: it may have been removed before
                continue
            if n not in got:
                self.bad("a requested purge was not carried out", name=n, marked=self.marked)
            if got[n][0] != "backy-" + type_:
                self.bad("the wrong command purges", args=got[n])
            f = self.outcome.get(n)
            rep.count("purges")
            rep.count("purge_failed", f is not None)
            rep.count("purges_retried", n in self.pending_failed)
            self.pending_failed.discard(n)
            if f:
                self.pending_failed.add(n)
            rep.distinct("purge", type_, f, len(self.marked))
            there = os.path.lexists(os.path.join(self.base, n, ".purge_pending"))
            if there != (f is not None):
                self.bad("the request is %s" % ("still there" if there else "lost"), name=n)


# -- a real daemon


def live(c):
    from vf.live import Live

    rng = c.rng
    s = Live(c, "srv", schedules={"default": {"daily": {"interval": "9000d", "keep": 1}}},
             env={"VF_NOW": ""})
    s.env.pop("VF_NOW")
    real = time.time()

    def backup(n, days):
        p = os.path.join(s.base, n)
        os.makedirs(os.path.join(p, "chunks", "ab"))
        made = [os.path.join(p, "chunks", "ab", "ab%030x.chunk.lzo" % i) for i in range(3)]
        for x in made:
            with open(x, "wb") as f:
                f.write(b"data")
        with open(os.path.join(p, "chunks", "store"), "wb") as f:
            f.write(b"v2")
        with open(os.path.join(p, "config"), "w") as f:
            yaml.safe_dump({"path": p, "schedule": s.conf["schedules"]["default"],
                            "source": {"type": "rbd", "pool": "p", "image": "i"}}, f)
        t = real - days * DAY
        for a, b, d in os.walk(p, topdown=False):
            for x in d:
                os.utime(os.path.join(a, x), (t, t))
            os.utime(a, (t, t))
        return p, made

    try:
        asked, asked_chunks = backup("asked", rng.choice([10, 1]))
        other, other_chunks = backup("other", 92)
        old, _ = backup("old", 94)
        keep, keep_chunks = backup("keep", 94)
        os.utime(keep_chunks[1], (real, real))
        os.symlink("old", os.path.join(s.base, "alink"))
        bad = os.path.join(s.base, "broken")
        os.mkdir(bad)
        s.start()
        st, _ = s.http("POST", "/v1/backups/asked/purge")
        st2, _ = s.http("POST", "/v1/backups/broken/purge")
        if (st, st2) != (202, 202):
            raise Violation("a request for a purge is refused", status=(st, st2))
        end = time.monotonic() + 60
        while os.path.exists(old):
            if time.monotonic() > end:
                raise Violation("an old directory is not removed", log=s.tail())
            time.sleep(0.02)
        s.stop()
        s.start()
        while any(map(os.path.exists, asked_chunks)) or os.path.exists(
                os.path.join(asked, ".purge_pending")):
            if time.monotonic() > end + 60:
                raise Violation("a requested purge is not carried out", log=s.tail(),
                                left=[x for x in asked_chunks if os.path.exists(x)])
            time.sleep(0.02)
        for x in other_chunks + keep_chunks + [os.path.join(s.base, "alink"), bad]:
            if not os.path.lexists(x):
                raise Violation("something else was removed", name=x, log=s.tail())
        c.count("live")
        c.count("evaluations", 4)
        c.distinct("live")
        c.sample("live daemon: an old directory removed, a requested purge done "
                 "after a restart, links and other repositories untouched")
    finally:
        s.kill()
