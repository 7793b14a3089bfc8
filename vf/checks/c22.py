"""C22: reloading the configuration; one daemon per base directory."""
import asyncio
import copy
import datetime
import hashlib
import json
import os
import random
import signal
import time

import yaml

from vf import inproc, metas
from vf.checks.c13 import EPOCH, US, want
from vf.checks.c15 import FakeProc
from vf.core import Inconclusive, Violation

PROPERTY = "C22"
LEVEL = "exploration"
TECHNIQUE = (
    "the real daemon with its API in virtual time is reloaded over and over while its jobs "
    "run; monitors compare listeners, tokens, jobs, processes, peers and files with the "
    "last configuration; real daemons compete for one base directory"
)
NOTE = (
    "Configurations that cannot be loaded are not generated; replacing the worker limit "
    "lets runs that already wait or work use the old one, as documented."
)
RULE = (
    "one evaluation = one reload judged (or one start of a daemon); distinct = (kinds of "
    "changes, how it was reloaded, what the jobs were doing)"
)
MUST_SEE = ["reloads", "reload_api", "reload_twice", "jobs_added", "jobs_removed",
            "source_changed", "schedule_changed", "schedule_switched", "limit_changed",
            "addrs_changed", "tokens_changed", "peers_changed", "callback_changed",
            "undisturbed_running", "undisturbed_waiting", "undisturbed_failed",
            "stopped_running", "blocked_address", "unblocked_address", "stampedes",
            "dead_backups", "refused_old_tokens", "next_times", "peers_asked",
            "second_refused", "second_after_end", "simultaneous", "sighup", "other_base"]
UTC = datetime.timezone.utc
SEC = datetime.timedelta(seconds=1)
sleep = asyncio.sleep


def cases(tier, rng):
    n = 56 if tier == "quick" else 320
    return [{"i": i, "n": 14 if tier == "quick" else 40,
             "kind": "second" if i % 7 == 3 else "reload"} for i in range(n)]


def run(c):
    if c.spec["kind"] == "second":
        return second(c)

    def go(patience):
        d = os.path.join(c.dir, str(patience))
        os.mkdir(d)
        inproc.call(c, __name__, "main",
                    dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=d,
                         patience=patience, **c.spec))

    try:
        go(0.002)
    except Violation as v:
        # virtual time must not have outrun the sockets of a machine under load
        c.count("judged_twice")
        try:
            go(0.03)
        except Violation:
            raise v


def main(spec, rep):
    from vf.vtime import VLoop

    loop = VLoop(patience=spec["patience"])
    asyncio.set_event_loop(loop)
    loop.run_until_complete(World(spec, rep, loop).main())


class Peer:
    """A peer that knows nothing but remembers who asked."""

    def __init__(self, w, name, addr):
        self.w, self.name, self.addr = w, name, addr

    async def start(self):
        self.server = await asyncio.start_server(self.handle, self.addr, 7000)

    async def handle(self, rd, wr):
        try:
            head = (await rd.readuntil(b"\r\n\r\n")).decode()
            path = head.split("\r\n")[0].split(" ")[1]
            token = [x.split(" ")[-1] for x in head.split("\r\n")
                     if x.lower().startswith("authorization:")]
            if path.endswith("/touch"):
                self.w.touched(self.name, path.split("/")[-2], token)
            wr.write(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n"
                     b"Connection: close\r\nContent-Length: 2\r\n\r\n[]")
            await wr.drain()
        except (ConnectionError, asyncio.IncompleteReadError):
            pass
        finally:
            wr.close()


def spread(name, model):
    g = random.Random()
    g.seed(int(hashlib.md5(name.encode("utf-8")).hexdigest(), 16))
    return g.randint(0, max(model.values()))


def seconds(s):
    return int(s[:-1]) * {"d": 86400, "h": 3600, "w": 7 * 86400, "m": 60, "s": 1}[s[-1]]


class World:
    npid = 0

    def __init__(self, spec, rep, loop):
        import backy.utils
        from vf.live import address

        self.spec, self.rep, self.loop = spec, rep, loop
        rng = self.rng = random.Random(spec["seed"])
        self.start = datetime.datetime(2024, 1, 1, tzinfo=UTC) + datetime.timedelta(
            seconds=rng.randrange(10**7))
        backy.utils.now = self.now
        self.base = os.path.join(spec["dir"], "backups")
        os.mkdir(self.base)
        self.addrs = [address() for _ in range(4)]
        self.ports = [6023, 6024]
        self.peers = [Peer(self, "p%d" % i, address()) for i in range(3)]
        self.names = ["vm%d" % i for i in range(6)] + ["a.b", "x y"]
        self.active, self.trace, self.touches = {}, [], {}
        self.expect_end, self.since, self.failed, self.loose = {}, {}, {}, set()
        self.peers_at = self.limit_at = self.callback_at = self.start
        self.blocked = {}
        self.listening = set()
        self.kinds = []

    def now(self):
        return self.start + datetime.timedelta(seconds=self.loop.time())

    def log(self, *a):
        self.trace.append((str(self.now()),) + a)
        del self.trace[:-60]

    def bad(self, what, **kw):
        raise self.fail(what, **kw)

    violation = None

    def fail(self, what, **kw):
        """May be called from where exceptions would be caught."""
        self.violation = self.violation or Violation(
            what, now=str(self.now()), conf=repr(self.conf)[:3000],
            trace=[repr(t)[:400] for t in self.trace[-30:]],
            **{k: repr(v)[:1500] for k, v in kw.items()})
        return self.violation

    def stop_if_violated(self):
        if self.violation:
            raise self.violation

    # -- configurations

    def source(self):
        return {"type": self.rng.choice(["file", "file", "rbd"]), "filename":
                "/nowhere/%d" % self.rng.randrange(10**6), "pool": "p", "image": "i"}

    def schedule(self):
        rng = self.rng
        return {t: {"interval": rng.choice(["1d", "12h", "2d", "7d", "30h", "5h"]),
                    "keep": rng.randrange(1, 5)}
                for t in rng.sample(["daily", "weekly", "x", "y"], rng.randrange(1, 4))}

    def first(self):
        rng = self.rng
        conf = {"global": {"base-dir": self.base, "worker-limit": rng.randrange(1, 5)},
                "api": {"addrs": self.addrs[0], "port": 6023,
                        "tokens": {"t0": "me"}, "cli-default": {"token": "t0"}},
                "schedules": {s: self.schedule() for s in ("s1", "s2", "s3")}, "jobs": {}}
        for n in rng.sample(self.names, rng.randrange(0, 6)):
            conf["jobs"][n] = {"schedule": rng.choice(["s1", "s2"]),
                               "source": self.source()}
        return conf

    def mutate(self, conf):
        rng = self.rng
        old, conf = conf, copy.deepcopy(conf)
        jobs, what = conf["jobs"], []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6])):
            k = rng.choice(["add", "add", "remove", "source", "schedule", "switch", "limit",
                            "addrs", "tokens", "peers", "callback", "order", "spare",
                            "rename"])
            n = rng.choice(sorted(jobs)) if jobs else None
            if k == "add":
                free = [x for x in self.names if x not in jobs]
                if not free:
                    continue
                jobs[rng.choice(free)] = {
                    "schedule": rng.choice(sorted(conf["schedules"])),
                    "source": self.source()}
            elif k in ("remove", "source", "switch") and not jobs:
                continue
            elif k == "remove":
                del jobs[n]
            elif k == "source":
                jobs[n]["source"] = self.source()
            elif k == "switch":
                jobs[n]["schedule"] = rng.choice(sorted(conf["schedules"]))
            elif k == "schedule":
                s = rng.choice(sorted(conf["schedules"]))
                if rng.random() < 0.5:
                    conf["schedules"][s] = self.schedule()
                else:
                    # a single value
                    t = rng.choice(sorted(conf["schedules"][s]))
                    conf["schedules"][s][t] = self.schedule().popitem()[1]
            elif k == "limit":
                conf["global"]["worker-limit"] = rng.randrange(1, 6)
            elif k == "addrs":
                a = rng.sample(self.addrs, rng.randrange(1, 4))
                conf["api"]["addrs"] = rng.choice([", ", ",", " , "]).join(a) + (
                    "," if rng.random() < 0.2 else "")
                if rng.random() < 0.3:
                    conf["api"]["port"] = rng.choice(self.ports)
            elif k == "tokens":
                conf["api"]["tokens"] = {
                    "t%d" % x: rng.choice(["me", "you"])
                    for x in rng.sample(range(6), rng.randrange(1, 4))}
            elif k == "peers":
                conf["peers"] = {
                    p.name: {"url": "http://%s:7000" % p.addr,
                             "token": "tok%d" % rng.randrange(5)}
                    for p in rng.sample(self.peers, rng.randrange(0, 3))}
                if not conf["peers"] and rng.random() < 0.5:
                    del conf["peers"]
            elif k == "callback":
                c = rng.choice([None, "/callback1", "/callback2"])
                conf["global"].pop("backup-completed-callback", None)
                if c:
                    conf["global"]["backup-completed-callback"] = c
            elif k == "order":
                i = list(jobs.items())
                rng.shuffle(i)
                conf["jobs"] = jobs = dict(i)
            elif k == "spare":
                conf["schedules"].pop("spare", None)
                if rng.random() < 0.6 or any(
                        j["schedule"] == "spare" for j in jobs.values()):
                    conf["schedules"]["spare"] = self.schedule()
            elif k == "rename":
                s = rng.choice(["s1", "s2", "s3"])
                new = {x: (v if x != s else None) for x, v in conf["schedules"].items()}
                if s in old["schedules"] and new.get(s, 1) is None:
                    conf["schedules"][s + "n"] = conf["schedules"][s]
                    for j in jobs.values():
                        if j["schedule"] == s:
                            j["schedule"] = s + "n"
            what.append(k)
        return conf, what

    def write(self, conf):
        with open(self.cf + ".new", "w") as f:
            yaml.safe_dump(conf, f, sort_keys=False)
        os.rename(self.cf + ".new", self.cf)

    # -- processes

    def job_key(self, conf, n):
        j = conf["jobs"].get(n)
        return j and (j, conf["schedules"][j["schedule"]])

    async def spawn(self, *args, **kw):
        args = [str(a) for a in args]
        conf = self.conf
        if args[0].startswith("/callback"):
            n = args[1]
            self.log("callback", n, args[0])
            if args[0] != conf["global"].get("backup-completed-callback") and \
                    self.now() > self.callback_at:
                self.fail("the wrong callback is called", args=args)
            return FakeProc(self, "callback", n, None, 1, 0)
        path = args[args.index("-C") + 1]
        n = os.path.basename(path)
        what = "backup" if "backup" in args else "gc"
        self.log(what, n)
        if n not in conf["jobs"] or os.path.realpath(path) != os.path.realpath(
                os.path.join(self.base, n)):
            raise self.fail("a process for a job that is not configured", args=args)
        if n in self.active:
            raise self.fail("two processes of one job", args=args)
        self.stored(n)
        if args[0] != "backy-" + conf["jobs"][n]["source"]["type"]:
            raise self.fail("the wrong command is started", args=args)
        effect = None
        if what == "backup":
            self.touches[n] = []
            rc = int(self.rng.random() < 0.15)
            uuid = args[args.index("backup") + 1]
            if uuid not in metas.read(path):
                raise self.fail("a backup of an unknown revision", args=args)

            def effect():
                m = metas.read(path)[uuid]
                m["stats"] = {"bytes_written": 5, "duration": 5.0}
                metas.write(path, m)

            if rc:
                effect = None
            p = FakeProc(self, what, n, effect, self.rng.choice([1, 30, 500, 4000]), rc)
            p.began = self.now()
        else:
            self.asked_peers(n)
            p = FakeProc(self, what, n, None, self.rng.choice([1, 60]), 0)
        self.active[n] = p
        return p

    def asked_peers(self, n):
        """When the garbage collection starts all peers have been asked."""
        if self.peers_at > self.now() - 2 * SEC or n not in self.backup_end or \
                self.peers_at > self.backup_end[n] - 2 * SEC:
            return
        got = {p for p, _ in self.touches.get(n, [])}
        conf = self.conf.get("peers", {})
        if got != set(conf):
            self.fail("not exactly the configured peers are asked", job=n, got=got)
        for p, t in self.touches[n]:
            if t != [conf[p]["token"]]:
                self.fail("a peer is asked with the wrong token", job=n, got=t)
        self.rep.count("peers_asked", bool(conf))

    def touched(self, peer, job, token):
        from urllib.parse import unquote

        self.touches.setdefault(unquote(job), []).append((peer, token))

    def ended(self, p):
        n = p.job
        self.log("end of", p.what, n, p.returncode)
        if p.what != "callback":
            if self.active.get(n) is p:
                del self.active[n]
        if p.returncode == -15:
            if self.expect_end.get(n) is None:
                self.fail("a job was disturbed that did not change", job=n, what=p.what)
            return
        self.since[n] = self.now()
        if p.what == "backup":
            self.backup_end[n] = self.now()
            self.failed[n] = self.failed.get(n, 0) + 1 if p.returncode else 0

    # -- the API

    async def http(self, site, method, path, token):
        """-> (status, body) or None if there is no connection"""
        try:
            rd, wr = await asyncio.wait_for(asyncio.open_connection(*site), 30)
        except OSError:
            return None
        try:
            wr.write(("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n"
                      "Authorization: Bearer %s\r\nContent-Length: 0\r\n\r\n" % (
                          method, path, token)).encode())
            data = await asyncio.wait_for(rd.read(), 30)
        except OSError:
            return None
        finally:
            wr.close()
        if not data:
            return None
        head, _, body = data.partition(b"\r\n\r\n")
        if b"chunked" in head.lower():
            out = b""
            while body:
                size, _, body = body.partition(b"\r\n")
                out += body[:int(size, 16)]
                body = body[int(size, 16) + 2:]
            body = out
        st = int(head.split(b" ")[1])
        try:
            return st, json.loads(body)
        except ValueError:
            return st, body

    def sites(self, conf):
        return {(a.strip(), conf["api"]["port"]) for a in conf["api"]["addrs"].split(",")
                if a.strip()}

    def some_site(self):
        s = sorted(x for x in self.listening if x not in self.blocked)
        return self.rng.choice(s) if s else None

    async def block(self):
        """Somebody else listens there."""
        free = [(a, p) for a in self.addrs for p in self.ports
                if (a, p) not in self.listening | self.sites(self.conf)
                and (a, p) not in self.blocked]
        if free:
            s = self.rng.choice(free)

            async def handle(rd, wr):
                wr.close()

            self.blocked[s] = await asyncio.start_server(handle, *s)
            self.log("blocked", s)

    # -- judging

    def stored(self, n):
        conf = self.conf
        with open(os.path.join(self.base, n, "config")) as f:
            got = yaml.safe_load(f)
        j = conf["jobs"][n]
        if got["source"] != j["source"] or os.path.realpath(
                got["path"]) != os.path.realpath(os.path.join(self.base, n)):
            self.fail("the stored settings are not those of the configuration", job=n,
                      got=got)
        if got["schedule"] != conf["schedules"][j["schedule"]]:
            self.fail("the stored schedule is not that of the configuration", job=n, got=got)

    async def judge_api(self):
        conf, rep, rng = self.conf, self.rep, self.rng
        sites = self.sites(conf)
        good = sorted(conf["api"]["tokens"])
        wrong = ["t%d" % i for i in range(6) if "t%d" % i not in good]
        blocked = {s for s in sites if s in self.blocked}
        rep.count("blocked_address", bool(blocked))
        rep.count("unblocked_address", bool(sites & self.was_blocked - blocked))
        usable = sites - blocked
        for s in sorted(usable):
            r = None
            for _ in range(20):
                r = await self.http(s, "GET", "/v1/jobs", rng.choice(good))
                if r is not None:
                    break
                await sleep(0.1)
            if r is None:
                self.bad("a configured address is not served", site=s)
            if r[0] != 200:
                self.bad("a configured token is refused", site=s, answer=r)
            w = rng.choice(wrong)
            x = await self.http(s, "GET", "/v1/jobs", w)
            if x is None or x[0] != 401:
                self.bad("a token that is not configured is accepted", token=w, answer=x)
            rep.count("refused_old_tokens", w in self.old_tokens)
            got = {j["name"]: j["schedule"] for j in r[1]}
            if got != {n: conf["schedules"][j["schedule"]]
                       for n, j in conf["jobs"].items()}:
                self.bad("not exactly the configured jobs are scheduled", got=got)
        for a in self.addrs:
            for p in self.ports:
                if (a, p) in sites or (a, p) in self.blocked:
                    continue
                for _ in range(20):
                    r = await self.http((a, p), "GET", "/v1/jobs", good[0])
                    if r is None:
                        break
                    await sleep(0.1)
                if r is not None:
                    self.bad("an address is served that is not configured", site=(a, p))
        self.listening = usable
        if not usable:
            return
        s, t = sorted(usable)[0], good[0]
        st, got = await self.http(s, "GET", "/v1/backups", t)
        dead = sorted(n for n in os.listdir(self.base)
                      if n not in conf["jobs"] and os.path.isdir(os.path.join(self.base, n))
                      and not os.path.islink(os.path.join(self.base, n)))
        if sorted(got) != dead:
            self.bad("the backups without a job are wrong", got=sorted(got), want=dead)
        rep.count("dead_backups", bool(dead))
        st, got = await self.http(s, "GET", "/v1/status", t)
        if st != 200 or sorted(j["job"] for j in got) != sorted(conf["jobs"]):
            self.bad("the status is not that of the configured jobs", got=got)
        for n in self.names:
            if rng.random() < 0.3:
                q = n.replace(" ", "%20")
                r = (await self.http(s, "POST", "/v1/backups/%s/purge" % q, t))[0]
                w = 403 if n in conf["jobs"] else 202 if n in dead else 404
                if r != w:
                    self.bad("wrong answer to a purge", name=n, got=r, want=w)
                m = os.path.join(self.base, n, ".purge_pending")
                if os.path.exists(m):
                    os.unlink(m)
                r = (await self.http(s, "POST", "/v1/backups/%s/touch" % q, t))[0]
                w = 204 if n in conf["jobs"] or n in dead else 404
                if r != w:
                    self.bad("wrong answer to a touch", name=n, got=r, want=w)
        rep.count("evaluations")

    def states(self):
        return {n: (self.active.get(n), j.status, j.next_time)
                for n, j in self.d.jobs.items()}

    async def reload(self, how):
        rep, rng = self.rep, self.rng
        rounds = rng.choice([1, 1, 1, 2, 3])
        before, conf0 = self.states(), self.conf
        working = dict(self.active)
        site, token = self.some_site(), sorted(conf0["api"]["tokens"])[0]
        touched, kinds = set(), []
        self.was_blocked = set(self.blocked) | self.was_blocked
        for r in range(rounds):
            new, what = self.mutate(self.conf)
            if set(self.blocked) & self.listening:
                raise RuntimeError("blocked what is served")
            kinds += what
            self.write(new)
            old = self.conf
            for n in set(old["jobs"]) | set(new["jobs"]):
                if self.job_key(old, n) != self.job_key(new, n):
                    touched.add(n)
                    self.expect_end[n] = self.now()
                    self.since[n] = self.now()
                    self.failed[n] = 0
            if old.get("peers") != new.get("peers"):
                self.peers_at = self.now() + SEC
            self.callback_at = self.now() + SEC if old["global"].get(
                "backup-completed-callback") != new["global"].get(
                "backup-completed-callback") else self.callback_at
            self.old_tokens |= set(old["api"]["tokens"])
            self.diff(old, new)
            self.conf = new
            self.log("reload", how, what)
            if how == "api" and site and r == 0:
                a = await self.http(site, "POST", "/v1/reload", token)
                if a is not None and a[0] != 204:
                    self.bad("the reload was not accepted", answer=a)
                if a is None:
                    await sleep(0.2)
                rep.count("reload_api")
            else:
                self.d.reload()
                for _ in range(rng.choice([0, 0, 1, 2, 5, 20])):
                    await sleep(0)
        rep.count("reloads")
        rep.count("reload_twice", rounds > 1)
        await sleep(0.3)
        self.stop_if_violated()
        after = self.states()
        if set(after) != set(self.conf["jobs"]):
            self.bad("not exactly the configured jobs are there", got=sorted(after))
        for n, p in working.items():
            if n in touched and p.what == "backup" and p.returncode is None:
                self.bad("the run of a changed or removed job goes on", job=n)
            rep.count("stopped_running", n in touched)
        doing = set()
        for n in self.conf["jobs"]:
            self.stored(n)
            if n in touched or n not in before:
                continue
            b, a = before[n], after[n]
            idle = b[1] == "waiting for deadline"
            if idle and b[2] and b[2] > self.now() + SEC and a != b:
                self.bad("a job was disturbed that did not change", job=n, before=b, after=a)
            if b[1].startswith("running") and a[1] in ("", "waiting for deadline") and \
                    self.since.get(n, self.start) < self.now() - 10 * SEC:
                self.bad("a job was disturbed that did not change", job=n, before=b, after=a)
            rep.count("undisturbed_running", b[0] is not None)
            rep.count("undisturbed_waiting", idle)
            rep.count("undisturbed_failed", bool(self.failed.get(n)))
            doing.add(b[1].split(" ")[0])
        self.expect_end.clear()
        rep.distinct(sorted(set(kinds)), how, rounds, sorted(doing))
        rep.sample = rep.sample or dict(kinds=kinds, how=how, jobs=sorted(self.conf["jobs"]))

    def diff(self, old, new):
        c = self.rep.count
        a, b = old["jobs"], new["jobs"]
        c("jobs_added", bool(set(b) - set(a)))
        c("jobs_removed", bool(set(a) - set(b)))
        for n in set(a) & set(b):
            c("source_changed", a[n]["source"] != b[n]["source"])
            c("schedule_switched", a[n]["schedule"] != b[n]["schedule"])
            c("schedule_changed", a[n] == b[n] and self.job_key(old, n)
              != self.job_key(new, n))
        for k, x, y in (("limit", "global", "worker-limit"), ("addrs", "api", "addrs"),
                        ("tokens", "api", "tokens"),
                        ("callback", "global", "backup-completed-callback")):
            c(k + "_changed", old[x].get(y) != new[x].get(y))
        c("peers_changed", old.get("peers") != new.get("peers"))

    def times(self):
        """Idle jobs wait for the time the current schedule gives."""
        for n, j in self.d.jobs.items():
            if j.status != "waiting for deadline" or self.failed.get(n) or \
                    j.next_time is None or n not in self.since:
                continue
            if self.since[n] > self.now() - SEC:
                continue
            model = {t: seconds(s["interval"]) for t, s in
                     self.conf["schedules"][self.conf["jobs"][n]["schedule"]].items()}
            revs = metas.read(os.path.join(self.base, n))
            last = {}
            for r in revs.values():
                if "duration" in r["stats"]:
                    for t in r["tags"]:
                        last[t] = max(last.get(t, 0), (r["timestamp"] - EPOCH) // US)
            s = (self.since[n] - EPOCH) // US
            t, tags, _, _ = want(s, model, spread(n, model), last, len(revs))
            got = (j.next_time - EPOCH) // US
            # a backup at once is not waited for
            if abs(got - t) > 2 * 10**6 and got > s + 2 * 10**6:
                self.bad("a job waits for the wrong time", job=n, got=j.next_time,
                         want=EPOCH + t * US, since=self.since[n], schedule=model)
            if abs(got - t) > 2 * 10**6:
                continue
            if set(j.next_tags) != tags:
                self.bad("a job waits with the wrong tags", job=n, got=j.next_tags,
                         want=tags)
            self.rep.count("next_times")

    async def stampede(self):
        """All at once: as many as there may be."""
        site = self.some_site()
        jobs = self.d.jobs
        for _ in range(60):
            if all(j.status == "waiting for deadline" and j.next_time and
                   j.next_time > self.now() + 3600 * SEC for j in jobs.values()):
                break
            await sleep(1800)
        else:
            return
        if not site or not jobs:
            return
        fast = {}
        for n in jobs:
            good = sorted((r for r in metas.read(os.path.join(self.base, n)).values()
                           if "duration" in r["stats"]), key=lambda r: r["timestamp"])
            fast[n] = bool(good) and good[-1]["stats"]["duration"] < 600
        self.log("stampede")
        self.expect_end.clear()
        for n in jobs:
            st, _ = await self.http(site, "POST", "/v1/jobs/%s/run" % n.replace(
                " ", "%20"), sorted(self.conf["api"]["tokens"])[0])
            if st != 202:
                self.bad("a requested run is not accepted", job=n, status=st)
        await sleep(0.6)
        self.stop_if_violated()
        limit = self.conf["global"]["worker-limit"]
        for cls in (True, False):
            a = sum(1 for n in fast if fast[n] == cls and n in self.active)
            w = min(limit, sum(1 for n in fast if fast[n] == cls))
            if a != w:
                self.bad("not as many runs as the worker limit allows", limit=limit, got=a,
                         want=w, fast=cls, classes=fast)
        self.rep.count("stampedes")

    # -- the run

    async def main(self):
        import structlog
        from pathlib import Path

        from backy.daemon import BackyDaemon

        rng = self.rng
        asyncio.create_subprocess_exec = self.spawn
        for p in self.peers:
            await p.start()
        self.cf = os.path.join(self.spec["dir"], "conf")
        self.conf = self.first()
        self.backup_end, self.was_blocked, self.old_tokens = {}, set(), set()
        os.mkdir(os.path.join(self.base, "vm0"))
        os.mkdir(os.path.join(self.base, "forgotten"))
        os.symlink("forgotten", os.path.join(self.base, "link"))
        open(os.path.join(self.base, "file"), "w").close()
        self.write(self.conf)
        d = self.d = BackyDaemon(Path(self.cf), structlog.stdlib.get_logger())

        async def nothing():
            pass

        d.purge_old_files = d.purge_pending_backups = nothing
        # the daemon's polling for its end would cost most of the time
        asyncio.sleep = lambda s, *a: sleep(86400 if 0 < s < 1 else s, *a)
        d.start(self.loop)
        d.api_server()
        for n in self.conf["jobs"]:
            self.since[n] = self.now()
        await sleep(0.1)
        await self.judge_api()
        for _ in range(self.spec["n"]):
            for n in list(self.d.jobs):
                if rng.random() < 0.2 and self.some_site():
                    await self.http(self.some_site(), "POST", "/v1/jobs/%s/run" % n.replace(
                        " ", "%20"), sorted(self.conf["api"]["tokens"])[0])
            await sleep(rng.choice([0.2, 0.2, 5, 40, 600, 3600, 20000, 90000]))
            self.stop_if_violated()
            self.times()
            if rng.random() < 0.2:
                await self.block()
            if self.blocked and rng.random() < 0.3:
                s = rng.choice(sorted(self.blocked))
                srv = self.blocked.pop(s)
                srv.close()
                self.was_blocked.add(s)
                if s in self.sites(self.conf):
                    # not retried before the next reload
                    pass
            await self.reload(rng.choice(["direct", "direct", "api"]))
            await self.judge_api()
            self.stop_if_violated()
            if rng.random() < 0.3:
                await self.stampede()
            self.stop_if_violated()


# -- real daemons


def second(c):
    from vf.live import Live

    rng = c.rng
    conf = {"schedules": {"default": {"daily": {"interval": "9000d", "keep": 1}}},
            "jobs": {"j1": {"schedule": "default",
                            "source": {"type": "file", "filename": "/dev/null"}}}}
    a = Live(c, "a", **conf)
    b = Live(c, "b", **conf)
    o = Live(c, "o", **conf)
    v = rng.choice([a.base, a.base + "/", os.path.join(a.dir, ".", "backups"),
                    os.path.join(a.dir, "..", "a", "backups")])
    b.conf["global"]["base-dir"] = v
    b.write_conf()
    # next to it
    o.base = a.base + rng.choice(["2", ".d", ".lock2", "-x"])
    os.mkdir(o.base)
    o.conf["global"]["base-dir"] = o.base
    o.write_conf()
    kind = rng.choice(["order", "order", "together"])

    def refused(s, other):
        s.start(wait=False)
        end = time.monotonic() + 60
        while s.p.poll() is None:
            if time.monotonic() > end:
                s.kill()
                raise Violation("a second daemon keeps running", base=v)
            time.sleep(0.01)
        if s.p.rc != 69:
            raise Violation("a second daemon ends with another status", rc=s.p.rc,
                            err=s.p.errput()[-1500:])
        s.kill()
        other.status()
        c.count("second_refused")
        c.count("evaluations")

    try:
        if kind == "together":
            servers = [a, b]
            for s in servers:
                s.start(wait=False)
            end = time.monotonic() + 60
            while True:
                done = [s for s in servers if s.p.poll() is not None]
                if len(done) == 1:
                    break
                if len(done) > 1:
                    raise Violation("no daemon is left", rcs=[s.p.rc for s in done],
                                    logs=[s.tail() for s in servers])
                if time.monotonic() > end:
                    raise Violation("two daemons keep running", base=v)
                time.sleep(0.01)
            if done[0].p.rc != 69:
                raise Violation("a second daemon ends with another status",
                                rc=done[0].p.rc, err=done[0].p.errput()[-1500:])
            first = [s for s in servers if s is not done[0]][0]
            second_ = done[0]
            second_.kill()
            c.count("simultaneous")
            c.count("evaluations")
            end = time.monotonic() + 60
            while True:
                try:
                    first.status()
                    break
                except OSError:
                    if time.monotonic() > end:
                        raise Violation("the daemon that is left does not work",
                                        log=first.tail())
                    time.sleep(0.02)
        else:
            first, second_ = (a, b) if rng.random() < 0.5 else (b, a)
            first.start()
        for _ in range(rng.randrange(1, 3)):
            refused(second_, first)
            if rng.random() < 0.5:
                continue
            first.conf["jobs"]["j%d" % rng.randrange(5)] = dict(conf["jobs"]["j1"])
            first.write_conf()
            first.p.kill(signal.SIGHUP)
            first.wait_for(lambda s: set(s) == set(first.conf["jobs"]), what="the new jobs")
            c.count("sighup")
        refused(second_, first)
        o.start()
        o.status()
        c.count("other_base")
        if rng.random() < 0.5:
            rc = first.stop()
        else:
            first.kill()
            rc = None
        second_.start()
        second_.status()
        c.count("second_after_end")
        refused(first, second_)
        c.res.distinct("second", kind, v != a.base, rc)
    finally:
        for s in (a, b, o):
            s.kill()
