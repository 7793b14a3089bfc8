"""C15: the daemon's job loop, under virtual time and for real."""
import asyncio
import datetime
import errno
import os
import random
import shutil

import yaml

from vf import inproc, metas
from vf.checks.c13 import EPOCH, US, SEC, schedule, us, want
from vf.core import Inconclusive, Violation

PROPERTY = "C15"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitor of every process the real daemon starts, over weeks of virtual "
    "time with injected failures, and of a running daemon with real processes"
)
RULE = (
    "one evaluation = one run of a job judged (start time, tags, exclusiveness, "
    "limits); distinct = (failures in a row, kind of failure, speed class, slots in "
    "use, requested, contended, peers)"
)
MUST_SEE = ["rounds", "failed_rounds", "retries", "retries_6h", "requested",
            "slots_full_fast", "slots_full_slow", "spawn_errors", "unreadable",
            "recovered", "restarted_series", "live_requests", "callback_errors",
            "hanging_peers", "cancelled_running", "cancelled_waiting",
            "limit_changes"]
UTC = datetime.timezone.utc


def cases(tier, rng):
    n = 56 if tier == "quick" else 400
    return [{"i": i, "days": 16 if tier == "quick" else 90,
             "rounds": 4 if tier == "quick" else 12,
             "kind": {5: "live", 2: "cancel", 9: "cancel"}.get(i % 14, "simulate")}
            for i in range(n)]


def run(c):
    if c.spec["kind"] == "live":
        return live(c)
    if c.spec["kind"] == "cancel":
        return cancel(c)
    inproc.call(c, __name__, c.spec["kind"],
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


class FakeProc:
    def __init__(self, mon, what, job, effect, seconds, rc):
        self.pid, self.returncode = 4000000 + mon.npid, None
        mon.npid += 1
        self.what, self.job, self.mon, self.rc = what, job, mon, rc
        self.effect = effect
        self.done = mon.loop.create_future()
        self.timer = mon.loop.call_later(seconds, self.end)

    def end(self):
        if self.returncode is None:
            if self.effect:
                self.effect()
            self.finish(self.rc)

    def finish(self, rc):
        self.returncode = rc
        self.mon.ended(self)
        if not self.done.done():
            self.done.set_result(None)

    async def wait(self):
        await asyncio.shield(self.done)
        return self.returncode

    async def communicate(self, input=None):
        await asyncio.shield(self.done)
        return b"", b""

    def terminate(self):
        if self.returncode is None:
            self.timer.cancel()
            self.finish(-15)

    kill = terminate


class Monitor:
    """Knows what should be going on from the processes alone."""

    def __init__(self, spec, rep, rng, loop, daemon, base, now, models, limit, plan,
                 callback):
        self.rep, self.rng, self.loop, self.d = rep, rng, loop, daemon
        self.base, self.start, self.models = base, now, models
        self.limit, self.plan, self.callback = limit, plan, callback
        self.npid = 0
        self.recent = {}
        self.active = {}  # job -> (class, what)
        self.failures = {n: 0 for n in models}  # in a row; None: unknown
        self.end_time = {n: self.start for n in models}
        self.asked = {}
        self.ok = {n: 0 for n in models}
        self.last_start = {n: self.start for n in models}
        self.trace = []

    free_since = None

    def note_free(self):
        """Since when a class has certainly had a free slot."""
        if self.free_since is None:
            self.free_since = {"fast": self.start, "slow": self.start}
        classes = [c for c, _ in self.active.values()]
        for c in self.free_since:
            if classes.count(c) + classes.count("unknown") >= self.limit:
                self.free_since[c] = None
            elif self.free_since[c] is None:
                self.free_since[c] = self.now()

    def now(self):
        return self.start + datetime.timedelta(seconds=self.loop.time())

    def bad(self, what, job, **kw):
        self.violation = Violation(
            what, job=job, now=str(self.now()), model=self.models[job], limit=self.limit,
            trace=self.trace[-25:], **{k: str(v) for k, v in kw.items()})
        self.main.cancel()
        raise self.violation

    violation = None
    main = None

    def log(self, *a):
        self.trace.append((str(self.now()),) + a)

    async def spawn(self, *args, **kw):
        args = [str(a) for a in args]
        if args[0] == self.callback:
            return self.spawn_callback(args)
        path = args[args.index("-C") + 1] if "-C" in args else None
        job = os.path.basename(path) if path else None
        if job not in self.models:
            raise Violation("unexpected process", args=args)
        what = "backup" if "backup" in args else "gc"
        if what == "gc":
            if job not in self.active:
                self.bad("gc outside of a run", job)
            self.active[job] = self.active[job][0], "gc"
            f = self.plan(self, job, "gc")
            if f == "spawn":
                self.log(job, "gc cannot be started")
                self.fail(job, "gc-spawn")
                raise OSError(errno.EAGAIN, "injected")
            return FakeProc(self, "gc", job, None, self.rng.uniform(1, 30),
                            0 if f is None else 1)
        return self.spawn_backup(job, args, path)

    def spawn_backup(self, job, args, path):
        uuid = args[args.index("backup") + 1]
        revs = metas.read(path)
        if uuid not in revs:
            self.bad("backup of a revision that does not exist", job, uuid=uuid)
        new = revs.pop(uuid)
        good = sorted((r for r in revs.values() if "duration" in r["stats"]),
                      key=lambda r: r["timestamp"])
        cls = "fast" if good and good[-1]["stats"]["duration"] < 600 else "slow"
        if job in self.active:
            self.bad("two runs of one job at once", job, active=self.active)
        if self.failures[job] is None:
            cls = "unknown"  # of what was read before it became unreadable
        used = sum(1 for c, _ in self.active.values() if c == cls)
        if used >= self.limit * (2 if cls == "unknown" else 1) \
                or len(self.active) >= 2 * self.limit:
            self.bad("more than %d %s jobs at once" % (self.limit, cls), job,
                     active=self.active)
        self.note_free()
        self.active[job] = cls, "backup"
        self.log(job, "backup", cls, sorted(new["tags"]))
        if used + 1 == self.limit and cls != "unknown":
            self.rep.count("slots_full_" + cls)
        since = self.free_since.get(cls)
        k = self.failures[job]
        asked = self.asked.pop(job, None)
        e = self.end_time[job]
        now = self.now()
        if k is not None:
            last = {}
            for r in good:
                for t in r["tags"]:
                    last[t] = max(last.get(t, 0), us(r["timestamp"] - EPOCH))
            t, tags, _, _ = want(us(e - EPOCH), self.models[job],
                                 self.d.jobs[job].spread, last, len(revs))
            t = EPOCH + t * US
            if k:
                t = e + datetime.timedelta(minutes=min(2 ** k, 360))
                self.rep.count("retries")
                if 2 ** k >= 360:
                    self.rep.count("retries_6h")
            if new["tags"] != tags:
                self.bad("backup with the wrong tags", job, got=sorted(new["tags"]),
                         want=sorted(tags), failures=k, since=e)
            if asked is not None and asked < t:
                t = asked
                self.rep.count("requested")
            early, late = t - now, now - t
            if early > datetime.timedelta(milliseconds=2):
                self.bad("a run started too early", job, want=t, failures=k, since=e)
            contended = self.contended
            if since is not None:
                late = min(late, now - since)
            if since is not None and late > self.slack:
                self.bad("a run started too late", job, want=t, failures=k, since=e,
                         asked=asked)
            self.rep.count("evaluations")
            self.rep.distinct(min(k, 10), self.kind.get(job), cls, used, asked is not None,
                              contended, self.slack.total_seconds() > 1)
        self.note_free()
        self.rep.count("rounds")
        self.recent.setdefault(job, []).append(now)
        del self.recent[job][:-100]
        if len(self.recent[job]) == 100 and \
                now - self.recent[job][0] < datetime.timedelta(hours=1):
            self.bad("a hundred runs within an hour", job)
        self.last_start[job] = now
        f = self.plan(self, job, "backup")
        if f == "spawn":
            self.rep.count("spawn_errors")
            self.log(job, "cannot be started")
            self.fail(job, "spawn")
            raise OSError(errno.ENOENT, "injected")
        secs = self.rng.choice([self.rng.uniform(1, 60), self.rng.uniform(100, 599),
                                self.rng.uniform(601, 2000)])

        def effect():
            if f in (None, "complete-but-failed"):
                new["stats"] = {"bytes_written": 5, "duration": secs}
                metas.write(path, new)

        rc = 0 if f is None else self.rng.choice([1, 2, -9, -15])
        return FakeProc(self, "backup", job, effect, secs, rc)

    def spawn_callback(self, args):
        job = args[1]
        if job not in self.active:
            self.bad("callback outside of a run", job)
        f = self.plan(self, job, "callback")
        if f == "spawn":
            self.rep.count("callback_errors")
            self.fail(job, "callback")
            raise FileNotFoundError(errno.ENOENT, "injected")
        self.active[job] = self.active[job][0], "callback"
        return FakeProc(self, "callback", job, None, self.rng.uniform(0, 5),
                        0 if f is None else 3)

    kind = {}
    contended = False
    slack = datetime.timedelta(milliseconds=2)

    def ended(self, p):
        self.log(p.job, p.what, "exits", p.returncode)
        if p.what == "backup" and p.returncode:
            self.fail(p.job, "rc")
        elif p.what == ("callback" if self.callback else "gc"):
            self.success(p.job)

    def fail(self, job, kind):
        self.active.pop(job, None)
        self.note_free()
        self.end_time[job] = self.now()
        self.kind[job] = kind
        if self.failures[job] is not None:
            self.failures[job] += 1
        self.rep.count("failed_rounds")

    def success(self, job):
        self.active.pop(job, None)
        self.note_free()
        self.end_time[job] = self.now()
        if self.failures[job] is None:
            self.rep.count("recovered")
        elif self.failures[job]:
            self.rep.count("restarted_series")
        self.failures[job] = 0
        self.kind[job] = None
        self.ok[job] += 1


def simulate(spec, rep):
    from pathlib import Path

    import structlog

    import backy.utils
    from backy.daemon import BackyDaemon
    from vf.vtime import Deadlock, VLoop

    rng = random.Random(spec["seed"])
    # the same thing written in C
    yaml.SafeLoader, yaml.SafeDumper = metas.LOADER, metas.DUMPER
    base = os.path.join(spec["dir"], "backups")
    os.makedirs(base)
    scheds, models_ = {}, {}
    for s in ("a", "b"):
        while True:
            conf, model = schedule(rng, small=True)
            if min(model.values()) >= 3600 * 2:
                break
        scheds[s], models_[s] = conf, model
    njobs = rng.choice([1, 1, 2, 4, 6])
    names = {"vm%d-%d" % (i, rng.randrange(1000)): rng.choice("ab") for i in range(njobs)}
    models = {n: models_[s] for n, s in names.items()}
    limit = rng.choice([1, 2, 3, 8])
    callback = "/no/such/callback" if rng.random() < 0.6 else None
    peers = {}
    hanging = rng.random() < 0.3
    import socket

    loop = VLoop(patience=0.0005 if rng.random() < 0.3 else 0)
    patience = loop._selector.patience
    socks = []
    if patience:
        spec["days"] /= 3
        # one that refuses, perhaps one that never answers
        from vf.live import address

        peers["refusing"] = {"url": "http://%s:9" % address(), "token": "x"}
        if hanging:
            s = socket.socket()
            s.bind((address(), 0))
            s.listen(200)
            socks.append(s)
            rep.count("hanging_peers")
            peers["hanging"] = {"url": "http://%s:%d" % s.getsockname(), "token": "x"}
    conf = {"global": {"base-dir": base, "worker-limit": limit},
            "api": {"addrs": "", "tokens": {}}, "schedules": scheds, "peers": peers,
            "jobs": {n: {"source": {"type": "rbd", "pool": "p", "image": n},
                         "schedule": s} for n, s in names.items()}}
    if callback:
        conf["global"]["backup-completed-callback"] = callback
    cf = os.path.join(spec["dir"], "backy.conf")
    with open(cf, "w") as f:
        yaml.safe_dump(conf, f)
    now = datetime.datetime(2024, 1, 1, tzinfo=UTC) + datetime.timedelta(
        seconds=rng.randrange(10**7))
    backy.utils.now = lambda: now + datetime.timedelta(seconds=loop.time())
    asyncio.set_event_loop(loop)
    d = BackyDaemon(Path(cf), structlog.stdlib.get_logger())

    async def nothing():
        pass

    d.purge_old_files = nothing
    d.purge_pending_backups = nothing
    p_fail = rng.choice([0, 0.05, 0.3])
    bad_until = {n: -1.0 for n in names}

    def plan(mon, job, what):
        if loop.time() < bad_until[job]:
            # an outage
            if what == "backup":
                return rng.choice(["rc", "rc", "spawn", "complete-but-failed"])
        if rng.random() >= p_fail:
            return None
        if what == "gc":
            return rng.choice(["rc", "rc", "spawn"])
        if what == "callback":
            return rng.choice(["rc", "spawn"])
        return rng.choice(["rc", "spawn", "complete-but-failed"])

    mon = Monitor(spec, rep, rng, loop, d, base, now, models, limit, plan, callback)
    mon.kind = {}
    mon.contended = limit < njobs
    if hanging and patience:
        mon.slack = datetime.timedelta(seconds=200)
    asyncio.create_subprocess_exec = mon.spawn
    sleep = asyncio.sleep
    # the daemon's polling for its end would cost most of the time
    asyncio.sleep = lambda s, *a: sleep(86400 if 0 < s < 1 else s, *a)

    async def trouble():
        """Outages, unreadable repositories and requests."""
        end = spec["days"] * 86400
        while True:
            await asyncio.sleep(rng.expovariate(1 / 20000.0))
            if loop.time() > end:
                return
            job = rng.choice(list(names))
            path = os.path.join(base, job)
            r = rng.random()
            if r < 0.3:
                bad_until[job] = loop.time() + rng.choice([600, 7200, 86400, 3 * 86400])
                mon.log(job, "outage until", bad_until[job])
            elif r < 0.4:
                await unreadable(job, path)
            else:
                j = d.jobs[job]
                if job not in mon.active and mon.failures[job] is not None \
                        and j.status == "waiting for deadline":
                    mon.log(job, "request")
                    mon.asked[job] = mon.now()
                    j.run_immediately.set()
                    if mon.contended or patience:
                        continue
                    await asyncio.sleep(1)
                    if mon.last_start[job] < mon.now() - datetime.timedelta(seconds=2):
                        mon.bad("a requested run did not start", job, status=j.status)

    async def unreadable(job, path):
        if job in mon.active:
            return
        kind = rng.choice(["garbage", "dir", "empty"])
        p = os.path.join(path, metas.new_uuid(rng) + ".rev")
        if kind == "dir":
            os.mkdir(p)
        else:
            with open(p, "w") as f:
                f.write("{[" if kind == "garbage" else "")
        mon.log(job, "unreadable", kind)
        mon.failures[job] = None  # any number of attempts we do not see
        rep.count("unreadable")
        d.jobs[job].run_immediately.set() if rng.random() < 0.3 else None
        await asyncio.sleep(rng.choice([3600, 40000, 2 * 86400]))
        if kind == "dir":
            os.rmdir(p)
        else:
            os.unlink(p)
        mon.log(job, "readable again")
        mon.asked.pop(job, None)
        n = mon.ok[job]
        # six hours, a full interval, and failures that are our own
        grace = 6 * 3600 + min(models[job].values()) + 10 * 3600 * njobs
        t0 = loop.time()
        while loop.time() - t0 < grace or loop.time() < bad_until[job] + grace:
            await asyncio.sleep(600)
            if mon.ok[job] > n:
                return
        if not p_fail:
            mon.bad("no backup although the repository is readable again", job,
                    status=d.jobs[job].status)
        mon.failures[job] = None

    async def main():
        d.start(loop)
        mon.main = asyncio.current_task()
        t = asyncio.create_task(trouble())
        end = spec["days"] * 86400
        try:
            while loop.time() < end:
                await asyncio.sleep(3600)
                if t.done() and t.exception():
                    raise t.exception()
                for n in names:
                    quiet_for = (mon.now() - max(mon.last_start[n], mon.end_time[n]))
                    bound = max(6 * 3600, min(models[n].values())) + 3600 * 10 * njobs
                    if mon.failures[n] is not None and n not in mon.active and \
                            quiet_for > datetime.timedelta(seconds=bound):
                        mon.bad("a job is not run any longer", n,
                                status=d.jobs[n].status, quiet_for=quiet_for)
        except asyncio.CancelledError:
            pass
        t.cancel()
        for j in d.jobs.values():
            j.stop()

    try:
        loop.run_until_complete(main())
    except Deadlock as e:
        raise Violation("the daemon does not get on: %s" % e, trace=mon.trace[-25:])
    finally:
        if mon.violation:
            raise mon.violation
    for s in socks:
        s.close()
    rep.sample = dict(schedules=scheds, jobs=names, limit=limit, peers=list(peers),
                      trace=mon.trace[:12])
    shutil.rmtree(base, ignore_errors=True)


def live(c):
    """Requests through the API to real daemons with real workers."""
    from vf import rbdfake
    from vf.live import Live

    rng = c.rng
    d = os.path.join(c.dir, "ceph")
    os.makedirs(d)
    rbd = rbdfake.State(d)
    rbd.jwrite("conf.json", {})
    names = ["vm%d" % i for i in range(4)]
    for n in names:
        rbd.create("rbd/" + n, 1 << 20)
    limit = rng.choice([1, 2])
    L = Live(c, worker_limit=limit, env={"VF_RBD": d},
             schedules={"default": {"weekly": {"interval": "100d", "keep": 3}}},
             jobs={n: {"source": {"type": "rbd", "pool": "rbd", "image": n},
                       "schedule": "default"} for n in names})
    L.start()
    try:
        L.wait_for(lambda s: all(j["status"] == "waiting for deadline"
                                 for j in s.values()), what="all waiting")
        for rnd in range(3):
            before = {n: j["local_revs"] for n, j in L.status().items()}
            for n in names:
                st, _ = L.http("POST", "/v1/jobs/%s/run" % n)
                if st != 202:
                    raise Violation("run request answered with %d" % st)
                c.count("live_requests")
            # all of them run, and only once each
            s = L.wait_for(
                lambda s: all(j["local_revs"] > before[n] and
                              j["status"] == "waiting for deadline"
                              for n, j in s.items()), what="all jobs run")
            for n, j in s.items():
                if j["local_revs"] != before[n] + 1:
                    raise Violation("one request led to %d backups" % (
                        j["local_revs"] - before[n]))
                c.count("evaluations")
                c.count("rounds")
                c.distinct("live", rnd, limit)
        st, _ = L.http("POST", "/v1/jobs/nonexistent/run")
        if st != 404:
            raise Violation("run of an unknown job answered with %d" % st)
    finally:
        L.kill()


STUB = """#!/bin/sh
# stands for backy-file and the callback: waits while it is told to
D=%(dir)s
path=; what=callback; uuid=
while [ $# -gt 0 ]; do
    case "$1" in
        -C) path=$2; shift;;
        backup) what=backup; uuid=$2;;
        gc) what=gc;;
    esac
    shift
done
while [ -e $D/block-$what ]; do sleep 0.05; done
if [ $what = backup ]; then
    [ -e "$D/fail-${path##*/}" ] && exit 1
    d=1.5
    [ -e "$D/slow-${path##*/}" ] && d=900.5
    sed "s/^stats: {}/stats: {bytes_written: 5, duration: $d}/" \\
        "$path/$uuid.rev" > "$path/.new-$uuid" && mv "$path/.new-$uuid" "$path/$uuid.rev"
fi
exit 0
"""


def cancel(c):
    """Reloads that stop jobs in the middle of a run: nothing gets lost."""
    import signal

    from vf.cmd import Hang
    from vf.live import Live

    rng = c.rng
    d = os.path.join(c.dir, "stub")
    os.makedirs(d)
    for n in ("backy-file", "callback"):
        with open(os.path.join(d, n), "w") as f:
            f.write(STUB % {"dir": d})
        os.chmod(os.path.join(d, n), 0o755)

    def flag(name, on):
        p = os.path.join(d, name)
        if on:
            open(p, "w").close()
        elif os.path.exists(p):
            os.unlink(p)

    n = rng.choice([1, 2, 3, 5])
    limit = rng.choice([1, 1, 2, 3])
    serial = [0]

    def job(name):
        serial[0] += 1
        return {"source": {"type": "file", "filename": "/none/%d" % serial[0]},
                "schedule": "default"}

    L = Live(c, worker_limit=limit, callback=os.path.join(d, "callback"),
             env={"PATH": d + ":" + c.z.bin + ":/opt/venv/bin:/usr/bin:/bin"},
             schedules={"default": {"weekly": {"interval": "100d", "keep": 3}}},
             jobs={"vm%d" % i: job("vm%d" % i) for i in range(n)})
    for name in L.conf["jobs"]:
        flag("slow-" + name, rng.random() < 0.3)
    trace = []

    def wait(cond, what):
        try:
            s = L.wait_for(cond, timeout=60, what=what)
        except Hang as e:
            raise Violation("%s" % e, limit=limit, trace=trace[-25:], log=L.tail())
        return s

    def classes(s):
        out = {}
        for j in s.values():
            for state in ("running", "waiting for worker slot"):
                if j["status"].startswith(state + " ("):
                    k = j["status"][len(state) + 2:-1]
                    out.setdefault(k, {"running": 0, "waiting for worker slot": 0})
                    out[k][state] += 1
        return out

    def busy(s):
        cl = classes(s)
        return set(s) == set(L.conf["jobs"]) and all(
            v["running"] == min(limit, sum(v.values())) for v in cl.values()
        ) and sum(sum(v.values()) for v in cl.values()) == len(s)

    def idle(s):
        return set(s) == set(L.conf["jobs"]) and all(
            j["status"] == "waiting for deadline" for j in s.values())

    def reload():
        L.write_conf()
        if rng.random() < 0.5:
            L.p.kill(signal.SIGHUP)
        else:
            st, _ = L.http("POST", "/v1/reload")
            if st != 204 and st != 200 and st != 202:
                raise Violation("reload answered with %d" % st)
        trace.append("reload")
        seen = lambda: L.tail(10**7).count("reloading-finished")
        want = reload.n = reload.n + 1
        import time
        end = time.monotonic() + 60
        while seen() < want:
            if time.monotonic() > end:
                raise Violation("a reload does not get on", log=L.tail())
            time.sleep(0.02)

    reload.n = 0

    def request(name):
        st, _ = L.http("POST", "/v1/jobs/%s/run" % name)
        if st != 202:
            raise Violation("run request answered with %d" % st, job=name)
        c.count("live_requests")
        trace.append("request " + name)

    L.start()
    try:
        for rnd in range(c.spec.get("rounds", 4)):
            stage = rng.choice(["backup", "backup", "backup", "gc", "callback"])
            wait(idle, "all jobs waiting")
            flag("block-" + stage, True)
            trace.append("block " + stage)
            for name in L.conf["jobs"]:
                flag("fail-" + name, stage == "backup" and rng.random() < 0.15)
                request(name)
            wait(busy, "as many jobs running as there are slots")
            for _ in range(rng.choice([1, 1, 2])):
                s = L.status()
                hit = [x for x in L.conf["jobs"] if rng.random() < 0.5] or [
                    rng.choice(list(L.conf["jobs"]))]
                was = {s[x]["status"] for x in hit}
                gone = {}
                for x in hit:
                    trace.append("change %s (%s)" % (x, s[x]["status"]))
                    c.count("cancelled_" + s[x]["status"].split()[0])
                    c.distinct("cancel", stage, limit, n, s[x]["status"], rnd > 0)
                    if rng.random() < 0.3:
                        gone[x] = L.conf["jobs"].pop(x)
                    else:
                        L.conf["jobs"][x] = job(x)
                reload()
                if gone:
                    L.conf["jobs"].update(gone)
                    reload()
                # (the stopped ones have been started afresh; some find
                # themselves due at once)
                asked = set()

                def on(s):
                    for x in hit:
                        if x not in asked and s.get(x, {}).get("status") == \
                                "waiting for deadline":
                            asked.add(x)
                            request(x)
                    return busy(s)

                wait(on, "as many jobs running as there are slots")
                c.count("evaluations")
            flag("block-" + stage, False)
            trace.append("unblock")
            s = wait(idle, "all requested jobs finished")
            c.count("rounds", len(s))
            if rng.random() < 0.4:
                limit = rng.choice([1, 2, 3])
                L.conf["global"]["worker-limit"] = limit
                trace.append("limit %d" % limit)
                reload()
                c.count("limit_changes")
        c.sample(dict(kind="cancel", trace=trace[:15]))
    finally:
        for x in ("backup", "gc", "callback"):
            flag("block-" + x, False)
        L.kill()
