"""C21: leaving a duplicated job to the server that has most backups."""
import asyncio
import datetime
import json
import os
import random
import re
from urllib.parse import parse_qs, urlsplit

import yaml

from vf import inproc, metas
from vf.checks.c13 import jobs as make_jobs
from vf.core import Inconclusive, Violation

PROPERTY = "C21"
LEVEL = "exploration"
TECHNIQUE = (
    "the real job asks stub peers over real sockets in virtual time; an online monitor "
    "decides from every answer the peers gave whether and when a backup has to start"
)
NOTE = (
    "Peers with equally many backups are not generated; times within a second of the "
    "limits of five minutes are not generated. A decision may take a minute for peers "
    "that do not answer, and the leader is asked again at least every five minutes."
)
RULE = (
    "one evaluation = one due time judged; distinct = (how each peer answered, who has "
    "more, sequence of the leader's answers, request, outcome)"
)
MUST_SEE = ["skipped", "run_no_leader", "run_idle", "run_not_scheduled", "run_leader_lost",
            "run_requested", "waited", "unknown_jobs", "failing_peers", "hanging_peers",
            "odd_names", "decoys", "no_peers", "loop_skipped", "loop_run", "loop_requested",
            "hidden_leader", "remote_not_counted"]
UTC = datetime.timezone.utc
NAMES = ["vm", "vm.1", "a+b", "x(1)", "test-07", "q[0]", "é", "vm.fcio.net", "a|b"]
SEC = datetime.timedelta(seconds=1)


def cases(tier, rng):
    n = 64 if tier == "quick" else 400
    return [{"i": i, "n": 60 if tier == "quick" else 250,
             "kind": "loop" if i % 3 == 2 else "wait"} for i in range(n)]


def run(c):
    def go(patience):
        d = os.path.join(c.dir, str(patience))
        os.mkdir(d)
        inproc.call(c, __name__, "main",
                    dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=d,
                         patience=patience, **c.spec))

    try:
        go(0.002)
    except Violation as v:
        # virtual time must not have outrun the sockets of a machine under load
        c.count("judged_twice")
        try:
            go(0.04)
        except Violation:
            raise v


def main(spec, rep):
    from vf.vtime import VLoop

    loop = VLoop(patience=spec["patience"])
    asyncio.set_event_loop(loop)
    w = World(spec, rep, loop)
    loop.run_until_complete(w.rounds() if spec["kind"] == "loop" else w.wait())


def decide(st, due):
    """What an answer of the leader means."""
    lt, nt = st["last_time"], st["next_time"]
    if lt is not None and (due - lt).total_seconds() < 300:
        return "skip"
    if not st["status"]:
        return "idle"
    if nt is not None and (nt - due).total_seconds() > 300:
        return "not_scheduled"
    return "wait"


sleep = asyncio.sleep


class Stub:
    """A peer."""

    def __init__(self, w, name):
        from vf.live import address

        self.w, self.name, self.addr = w, name, address()
        self.conf = {"url": "http://%s:7000" % self.addr, "token": "t-" + name}
        self.mode, self.status, self.decoys = "up", None, []
        self.script = []

    async def start(self):
        self.server = await asyncio.start_server(self.handle, self.addr, 7000)

    async def handle(self, rd, wr):
        try:
            await self.talk(rd, wr)
        except (ConnectionError, asyncio.IncompleteReadError, asyncio.CancelledError):
            pass
        finally:
            wr.close()

    async def talk(self, rd, wr):
        w = self.w
        while self.script and self.script[0][0] <= w.now():
            self.script.pop(0)[1]()
        mode = self.mode
        if mode == "refuse":
            w.event("query", self, mode, None)
            wr.transport.abort()
            return
        head = (await rd.readuntil(b"\r\n\r\n")).decode()
        method, path, _ = head.split("\r\n")[0].split(" ")
        u = urlsplit(path)
        if "bearer t-" + self.name.lower() not in head.lower():
            w.event("badtoken", self, mode, None)
        if u.path != "/v1/status":
            out = b"[]"
            if u.path.endswith("/touch"):
                w.event("touch", self, mode, None)
            if mode != "up":
                wr.transport.abort()
                return
            self.answer(wr, out)
            await wr.drain()
            return
        flt = parse_qs(u.query).get("filter", [""])[0]
        try:
            ok = re.compile(flt).search
        except re.error:
            w.event("query", self, "badfilter", None)
            wr.transport.abort()
            return
        known = list(self.decoys)
        if self.status is not None:
            known.append(self.status)
        mine = None
        found = [s for s in known if ok(s["job"])]
        for s in found:
            if s["job"] == w.name:
                mine = dict(s)
        if mode == "slow":
            await sleep(w.rng.choice([0.5, 4, 20]))
        if mode in ("up", "slow"):
            w.event("query", self, mode, mine)
            self.answer(wr, json.dumps(
                [dict(s, last_time=iso(s["last_time"]), next_time=iso(s["next_time"]))
                 for s in found]).encode())
            await wr.drain()
            return
        w.event("query", self, mode, None)
        if mode == "hang":
            await sleep(10**6)
        elif mode in ("500", "401", "404"):
            wr.write(b"HTTP/1.1 %s X\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"
                     % mode.encode())
        elif mode == "garbage":
            self.answer(wr, b"{]")
        elif mode == "cut":
            wr.write(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n"
                     b"Content-Type: application/json\r\n\r\n[{")
        await wr.drain()

    def answer(self, wr, body):
        wr.write(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nConnection: close"
                 b"\r\nContent-Length: %d\r\n\r\n" % len(body) + body)


def iso(t):
    return t.isoformat() if t else None


FAILING = ["refuse", "hang", "500", "401", "404", "garbage", "cut"]


class World:
    def __init__(self, spec, rep, loop):
        import backy.utils

        self.spec, self.rep, self.loop = spec, rep, loop
        rng = self.rng = random.Random(spec["seed"])
        self.start = datetime.datetime(2024, 1, 1, tzinfo=UTC) + datetime.timedelta(
            seconds=rng.randrange(10**7))
        backy.utils.now = self.now
        self.name = rng.choice(NAMES)
        self.events = []
        self.stubs = [Stub(self, n) for n in
                      rng.sample(["p1", "p2", "p3", "p4"], rng.choice([0, 1, 2, 2, 3, 4]))]
        rep.count("odd_names", not self.name.isalnum())
        rep.count("no_peers", not self.stubs)

    def now(self):
        return self.start + datetime.timedelta(seconds=self.loop.time())

    def event(self, kind, stub=None, mode=None, status=None, **kw):
        self.events.append(dict(t=self.now(), kind=kind, peer=stub and stub.name,
                                mode=mode, status=status, **kw))

    def bad(self, what, **kw):
        raise Violation(what, job=self.name, now=str(self.now()),
                        events=[repr(e)[:500] for e in self.events[-14:]],
                        **{k: repr(v)[:1500] for k, v in kw.items()})

    async def setup(self):
        import structlog
        from pathlib import Path

        from backy.daemon import BackyDaemon

        base = os.path.join(self.spec["dir"], "backups")
        self.path = os.path.join(base, self.name)
        os.makedirs(self.path)
        for s in self.stubs:
            await s.start()
        conf = {"global": {"base-dir": base}, "api": {"addrs": "", "tokens": {}},
                "peers": {s.name: s.conf for s in self.stubs},
                "schedules": {"s": {"daily": {"interval": "1d", "keep": 4}}},
                "jobs": {self.name: {"schedule": "s", "source": {
                    "type": "file", "filename": "/nowhere"}}}}
        if self.spec["kind"] == "loop":
            conf["global"]["backup-completed-callback"] = "/callback"
        cf = os.path.join(self.spec["dir"], "conf")
        with open(cf, "w") as f:
            yaml.safe_dump(conf, f)
        self.d = BackyDaemon(Path(cf), structlog.stdlib.get_logger())
        self.d._read_config()

    def count(self):
        return sum(1 for m in metas.read(self.path).values()
                   if "duration" in m["stats"] and not m["server"])

    # -- scenarios

    def status(self, revs, due):
        rng = self.rng
        s = datetime.timedelta(seconds=1)
        st = dict(job=self.name, sla="OK", sla_overdue=0, last_tags="daily",
                  last_duration=5.0, next_tags="daily", manual_tags="",
                  problem_reports=0, unsynced_revs=0, local_revs=revs,
                  status=rng.choice(["", "waiting for deadline", "waiting for deadline",
                                     "running (slow)", "waiting for worker slot (fast)",
                                     "checking neighbours", "finished", "failed"]),
                  last_time=rng.choice([
                      None, due - 86400 * s, due - 86400 * s, due - 302 * s, due - 298 * s,
                      due - 310 * s, due, due + 100 * s, due - 3600 * s]),
                  next_time=rng.choice([
                      None, None, due - 1000 * s, due, due + 290 * s, due + 310 * s,
                      due + 86400 * s, due + 12 * s]))
        if st["last_time"] and rng.random() < 0.5:
            st["last_time"] -= datetime.timedelta(microseconds=rng.randrange(10**6))
        return st

    def waiting(self, revs, due):
        """Makes the others wait."""
        st = self.status(revs, due)
        st.update(status="running (slow)", last_time=due - 86400 * SEC, next_time=None)
        return st

    def scenario(self, due, local):
        rng = self.rng
        counts = [max(0, local + d) for d in (-2, -1, 0, 1, 2, 3, 4, 9)]
        counts = sorted(set(counts))
        more = [c for c in counts if c > local]
        rng.shuffle(more)
        for s in self.stubs:
            r = rng.random()
            s.mode = ("up" if r < 0.6 else "slow" if r < 0.65 else "empty" if r < 0.75
                      else rng.choice(FAILING))
            n = more.pop() if more and rng.random() < 0.5 else rng.choice(
                [c for c in counts if c <= local])
            s.status = self.status(n, due)
            if n > local and rng.random() < 0.4:
                s.status = self.waiting(n, due)
            if s.mode == "empty":
                s.mode, s.status = "up", None
            s.decoys = []
            if rng.random() < 0.5:
                for name in ("x" + self.name, self.name + "x", self.name.replace(".", "X"),
                             self.name.upper(), self.name.split("(")[0]):
                    if name != self.name:
                        s.decoys.append(dict(
                            self.status(local + 50, due), job=name, last_time=due))
                self.rep.count("decoys")
            s.script = []
            # what happens while others wait for it
            t = due
            for _ in range(rng.randrange(0, 5)):
                t += rng.choice([10, 299, 301, 700, 2000]) * SEC
                s.script.append((t, self.change(s, n, due)))
            s.script.append((t + 4000 * SEC, self.final(s, n, due)))

    def change(self, s, n, due):
        rng = self.rng
        r = rng.random()
        mode = rng.choice(FAILING) if r < 0.15 else "up"
        st = None if 0.15 < r < 0.22 else (
            self.waiting if r < 0.7 else self.status)(n, due)

        def f():
            s.mode, s.status = mode, st
        return f

    def final(self, s, n, due):
        st = dict(self.status(n, due), status="")

        def f():
            s.mode, s.status = "up", st
        return f

    # -- judging

    def judge(self, due, local, outcome, ended, requested, ev):
        """outcome "run" or "skip", known at `ended`."""
        rep = self.rep
        q = [e for e in ev if e["kind"] == "query"]
        info = dict(due=due, local=local, outcome=outcome, ended=ended,
                    requested=requested, queries=q)
        if any(e["kind"] == "badtoken" for e in ev):
            self.bad("a peer is asked with the wrong token", **info)
        first, later = [], []
        for e in q:
            (later if any(x["peer"] == e["peer"] for x in first) else first).append(e)
        if {e["peer"] for e in first} != {s.name for s in self.stubs}:
            self.bad("not all peers are asked", **info)
        for e in first:
            if abs(e["t"] - due) > 65 * SEC:
                self.bad("a peer is not asked when the job is due", query=e, **info)
            if e["mode"] in ("up", "slow"):
                rep.count("unknown_jobs", e["status"] is None)
            else:
                rep.count("failing_peers")
                rep.count("hanging_peers", e["mode"] == "hang")
        known = [e for e in first if e["status"]]
        more = [e for e in known if e["status"]["local_revs"] > local]
        leader = max(more, key=lambda e: e["status"]["local_revs"]) if more else None
        why, seq = None, []
        known_at = max([e["t"] for e in first], default=due)
        limit = known_at + 65 * SEC if any(
            e["mode"] == "hang" for e in first) else known_at + 5 * SEC
        if leader is None:
            want, why = "run", "no_leader"
            rest = []
        else:
            rep.count("hidden_leader", len(known) < len(first))
            want = decide(leader["status"], due)
            rest = [e for e in later if e["peer"] == leader["peer"]]
        seq.append(want)
        while want == "wait":
            rep.count("waited")
            if requested is not None and not rest and requested <= ended:
                # (at once, or as soon as the question under way is answered)
                want, why = "run", "requested"
                limit = max(requested, min(known_at, requested + 65 * SEC)) + 5 * SEC
                break
            if not rest:
                self.bad("the job does not wait for the leader", leader=leader, **info)
            e = rest.pop(0)
            if e["t"] > limit + 335 * SEC:
                self.bad("the leader is not asked again in time", query=e, **info)
            limit = e["t"] + (65 if e["mode"] == "hang" else 5) * SEC
            known_at = e["t"]
            want = decide(e["status"], due) if e["status"] else "lost"
            seq.append(want)
        if rest:
            self.bad("the leader is asked after the decision", leader=leader, seq=seq, **info)
        if want in ("idle", "not_scheduled", "lost", "run"):
            why = why or {"lost": "leader_lost"}.get(want, want)
            want = "run"
        if outcome != want:
            self.bad("the job %s although it should %s" % (
                {"run": "was run", "skip": "was skipped"}[outcome], want),
                leader=leader, seq=seq, why=why, **info)
        if ended > limit:
            self.bad("the decision takes too long", leader=leader, seq=seq, limit=limit,
                     **info)
        if outcome == "skip":
            rep.count("skipped")
        else:
            rep.count("run_" + why)
        rep.count("evaluations")
        rep.distinct(sorted((e["mode"], e["status"] is not None) for e in first),
                     len(more), seq[:6], requested is not None, outcome, why)
        rep.sample = rep.sample or dict(due=due, local=local, outcome=outcome, why=why,
                                        answers=[repr(e)[:300] for e in q[:3]])

    # -- the question alone

    async def wait(self):
        await self.setup()
        rng = self.rng
        job = make_jobs(self.d)[self.name]
        job.taskid = "abcd"
        for _ in range(self.spec["n"]):
            for n in os.listdir(self.path):
                if n.endswith(".rev"):
                    os.unlink(os.path.join(self.path, n))
            for k in range(rng.randrange(0, 6)):
                r = dict(uuid=metas.new_uuid(rng), tags={"daily"},
                         timestamp=self.now() - 86400 * (k + 1) * SEC,
                         server=rng.choice(["", "", "p1"]))
                if rng.random() < 0.2:
                    r["stats"] = {"bytes_written": 0}
                self.rep.count("remote_not_counted", bool(r["server"]))
                metas.write(self.path, r)
            job.repository.scan()
            local = self.count()
            due = self.now() - rng.choice([0, 0, 0.001, 0.4]) * SEC
            self.scenario(due, local)
            n0 = len(self.events)
            requested = None
            task = self.loop.create_task(job._wait_for_leader(due))
            if rng.random() < 0.3:
                at = rng.choice([70, 200, 400, 1000, 2500]) * SEC
                while not task.done() and self.now() < due + at:
                    await asyncio.wait([task], timeout=(
                        due + at - self.now()).total_seconds() + 0.001)
                if not task.done() and job.status.startswith("monitoring"):
                    await asyncio.sleep(rng.random())
                    if not task.done():
                        requested = self.now()
                        job.run_immediately.set()
            r = await task
            job.run_immediately.clear()
            self.judge(due, local, "skip" if r else "run", self.now(), requested,
                       self.events[n0:])
            del self.events[:-14]

    # -- within the loop of the job

    def prepare(self):
        """The revisions of the next round; a fresh one avoids catching up at once."""
        rng = self.rng
        for n in os.listdir(self.path):
            if n.endswith(".rev"):
                os.unlink(os.path.join(self.path, n))
        for k in range(rng.randrange(0, 6)):
            r = dict(uuid=metas.new_uuid(rng), tags={"daily"},
                     timestamp=self.now() - 7200 * k * SEC - SEC,
                     server=rng.choice(["", "", "p1"]))
            if k and rng.random() < 0.2:
                r["stats"] = {"bytes_written": 0}
            self.rep.count("remote_not_counted", bool(r["server"]))
            metas.write(self.path, r)

    async def until(self, cond, what, limit=10**6, step=1.0):
        end = self.loop.time() + limit
        while not cond():
            if self.loop.time() > end:
                self.bad("nothing happens", waiting_for=what)
            await sleep(step)

    async def rounds(self):
        await self.setup()
        rng, d = self.rng, self.d
        asyncio.create_subprocess_exec = self.spawn
        self.prepare()

        async def nothing():
            pass

        d.purge_old_files = d.purge_pending_backups = nothing
        # the daemon's polling for its end would cost most of the time
        asyncio.sleep = lambda s, *a: sleep(86400 if 0 < s < 1 else s, *a)
        d.start(self.loop)
        job = d.jobs[self.name]
        for _ in range(self.spec["n"] // 3):
            await self.until(lambda: job.status == "waiting for deadline"
                             and job.next_time, "the next round")
            due, local = job.next_time, self.count()
            if due - self.now() < 20 * SEC:
                raise Inconclusive("due at once")
            self.scenario(due, local)
            n0 = len(self.events)
            self.n0 = n0
            self.future = self.loop.create_future()
            early = rng.random() < 0.15
            requested = None
            if early:
                await sleep(rng.choice([1, 100, 1000]))
                requested = self.now()
                job.run_immediately.set()
            else:
                await sleep((due - self.now()).total_seconds() - 2)
                if len(self.events) > n0:
                    self.bad("something happens before the job is due", due=due)
            at = due + rng.choice([70, 200, 400, 1000, 2500, 10**6]) * SEC

            def kinds():
                return [e["kind"] for e in self.events[n0:]]

            if requested is None and at < due + 10**5 * SEC:
                await self.called((at - self.now()).total_seconds())
                await sleep(0.001)
                if not self.future.done() and job.status.startswith("monitoring"):
                    requested = self.now()
                    job.run_immediately.set()
            if not await self.called(30000):
                self.bad("nothing happens", due=due)
            ev = self.events[n0:]
            ks = kinds()
            run = [e for e in ev if e["kind"] == "backup"]
            outcome = "run" if run else "skip"
            ended = (run or [e for e in ev if e["kind"] == "callback"])[0]["t"]
            if [ks.count(k) for k in ("backup", "gc", "callback")] != (
                    [1, 1, 1] if run else [0, 0, 1]):
                self.bad("unexpected processes", kinds=ks)
            if not run and "touch" not in ks and all(
                    s.mode != "refuse" for s in self.stubs):
                self.bad("skipped without looking for the leader's revisions")
            if early:
                if not run or ended > requested + 5 * SEC:
                    self.bad("a requested run does not start at once", outcome=outcome,
                             ended=ended, requested=requested)
                self.rep.count("evaluations")
                self.rep.distinct("early", len(self.stubs))
                self.rep.count("loop_requested")
            else:
                before = [e for e in ev if e["t"] <= ended]
                self.judge(due, local, outcome, ended, requested, before)
                self.rep.count("loop_run" if run else "loop_skipped")
            # the end of the round
            await self.until(lambda: job.next_time, "the end of the round", 2000)
            del self.events[:-14]

    async def called(self, seconds):
        await asyncio.wait([self.future], timeout=max(0, seconds))
        return self.future.done()

    async def spawn(self, *args, **kw):
        args = [str(a) for a in args]
        from vf.checks.c15 import FakeProc

        if args[0] == "/callback":
            self.event("callback")
            if not self.future.done():
                # a request that came just too late
                if not any(e["kind"] == "backup" for e in self.events[self.n0:]):
                    self.d.jobs[self.name].run_immediately.clear()
                self.future.set_result(None)
            return FakeProc(self, "callback", self.name, self.prepare, 1, 0)
        what = "backup" if "backup" in args else "gc"
        self.event(what)

        def effect():
            u = args[args.index("backup") + 1]
            m = metas.read(self.path)[u]
            m["stats"] = {"bytes_written": 5, "duration": 5.0}
            metas.write(self.path, m)

        return FakeProc(self, what, self.name, effect if what == "backup" else None,
                        self.rng.choice([2, 60, 1000]), 0)

    npid = 0

    def ended(self, p):
        pass
