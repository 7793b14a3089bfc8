"""C20: metadata exchange between servers."""
import asyncio
import datetime
import os
import random
import shutil

import yaml

from vf import inproc, metas
from vf.core import Inconclusive, Violation

PROPERTY = "C20"
LEVEL = "exploration"
TECHNIQUE = (
    "several real daemons with their APIs in one process talk through proxies that log "
    "every request and inject faults; offline rules over log and disks judge each pull "
    "and push"
)
NOTE = (
    "A peer that answers with an unexpected status or breaks off within an answer "
    "may count as reachable without the job or as unreachable."
)
RULE = (
    "one evaluation = the view of one peer judged after a pull or push; distinct = "
    "(operation, outcome of the requests, local changes, states of the job, number of "
    "revisions)"
)
MUST_SEE = ["pulls", "pushes", "unreachable", "hanging", "lost_answer", "refused_412",
            "refused_403", "refused_503", "applied", "removed", "purges", "dead_peer",
            "peer_without_job", "views_updated", "converged", "edits_meanwhile",
            "local_kept", "incomplete_hidden", "still_pending", "restored_peer",
            "purge_failed", "switched"]
UTC = datetime.timezone.utc
FAULTS = ["refuse", "down", "hang", "lost", "500", "401", "truncate"]
T0 = datetime.datetime(2024, 1, 1, tzinfo=UTC)


def cases(tier, rng):
    n = 140 if tier == "quick" else 600
    return [{"i": i, "steps": 150 if tier == "quick" else 500} for i in range(n)]


def run(c):
    inproc.call(c, __name__, "main",
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


def main(spec, rep):
    from vf.vtime import VLoop

    loop = VLoop(patience=0.003)
    asyncio.set_event_loop(loop)
    w = World(spec, rep, loop)
    loop.run_until_complete(w.main())
    rep.sample = dict(servers=len(w.servers), requests=len(w.log), trace=[repr(t)[:300] for t in w.trace[-8:]])


class World:
    def __init__(self, spec, rep, loop):
        self.spec, self.rep, self.loop = spec, rep, loop
        self.rng = random.Random(spec["seed"])
        self.log, self.trace = [], []
        self.faults = {}
        self.edit = None
        self.nrev = 0
        n = self.rng.choice([2, 2, 3, 3, 4])
        self.servers = {}
        for name in ["srvA", "srvB", "srv-c", "D"][:n]:
            self.servers[name] = Server(self, name)

    def note(self, *a):
        self.trace.append(a)

    def bad(self, what, **kw):
        raise Violation(what, trace=[repr(t)[:600] for t in self.trace[-12:]],
                        requests=[repr(e)[:400] for e in self.log[-12:]], **kw)

    def tags(self, n=(0, 1, 1, 2)):
        return set(self.rng.sample(["daily", "weekly", "manual:x", "é", "a b"],
                                   self.rng.choice(n)))

    def revision(self, complete=None):
        rng = self.rng
        self.nrev += 1
        s = {"bytes_written": rng.randrange(10**6)}
        if rng.random() < 0.8 if complete is None else complete:
            s["duration"] = rng.choice([1.0, 12.5, 0.1 + 0.2])
        return dict(
            uuid=metas.new_uuid(rng), timestamp=T0 + datetime.timedelta(
                seconds=self.nrev, microseconds=rng.randrange(10**6)),
            tags=self.tags() or {"daily"}, stats=s,
            trust=rng.choice(["trusted", "trusted", "verified", "distrusted"]))

    async def main(self):
        for s in self.servers.values():
            await s.start()
        rng = self.rng
        for _ in range(self.spec["steps"]):
            await self.step()
        # without faults, all agree in the end
        self.faults = {}
        for s in self.servers.values():
            for p in s.proxies.values():
                await p.open()
        active = [s for s in self.servers.values() if s.role == "job"]
        for s in active:
            await self.pull(s)
        for s in active:
            await self.push(s)
        for s in active:
            await self.pull(s)
            for peer in s.peers:
                want = self.servers[peer].offers()
                got = s.view(peer)
                if got != expected(want, peer):
                    self.bad("servers do not agree in the end", of=peer, server=s.name)
                self.rep.count("converged")
                self.rep.count("evaluations")
        for s in self.servers.values():
            await s.stop()

    async def step(self):
        rng = self.rng
        s = rng.choice(list(self.servers.values()))
        r = rng.random()
        # faults of the network come and go
        if rng.random() < 0.25:
            a = rng.choice(list(self.servers.values()))
            b = rng.choice([x for x in self.servers if x != a.name])
            f = rng.choice(FAULTS)
            where = rng.choice(["any", "touch", "revs", "tags", "purge", "tags", "purge"])
            if (a.name, b) in self.faults:
                del self.faults[a.name, b]
            else:
                self.faults[a.name, b] = (f, where)
        if r < 0.12:
            # a new backup
            if s.role != "none":
                metas.write(s.path, self.revision())
        elif r < 0.16:
            loc = s.local()
            if loc:
                u = rng.choice(sorted(loc))
                os.unlink(os.path.join(s.path, u + ".rev"))
                self.note("owner removes", s.name, u)
        elif r < 0.24:
            # the owner or an expiry changes its own tags
            loc = s.local()
            if loc:
                m = loc[rng.choice(sorted(loc))]
                m["tags"] = self.tags()
                if rng.random() < 0.3:
                    m["trust"] = rng.choice(["verified", "distrusted"])
                metas.write(s.path, m)
                self.note("owner edits", s.name, m["uuid"], sorted(m["tags"]))
        elif r < 0.5:
            if s.role == "job":
                self.edit_remote(s)
        elif r < 0.53:
            s.switch(rng.choice(["job", "dead", "dead", "none"]))
            self.note("role", s.name, s.role)
        elif r < 0.56:
            # a server is forgotten or comes back
            peer = rng.choice([x for x in self.servers if x != s.name])
            if peer in s.peers:
                del s.peers[peer]
            else:
                s.peers[peer] = s.peer_conf(peer)
                self.rep.count("restored_peer")
            s.reload()
            self.note("peers", s.name, sorted(s.peers))
        else:
            active = [x for x in self.servers.values() if x.role == "job"]
            if not active:
                return
            s = rng.choice(active)
            if r < 0.8:
                await self.pull(s)
            else:
                if rng.random() < 0.5:
                    self.edit_remote(s)
                await self.push(s)

    def edit_remote(self, s):
        """The user or an expiry changes revisions that belong to others."""
        rem = {u: m for u, m in s.all().items() if m["server"]}
        if not rem:
            return
        for u in self.rng.sample(sorted(rem), min(len(rem), self.rng.choice([1, 1, 2, 4]))):
            m = rem[u]
            m["tags"] = self.tags((0, 0, 1, 2))
            metas.write(s.path, m)
            self.note("local change", s.name, u, sorted(m["tags"]))

    # -- pulling

    async def pull(self, s):
        rep = self.rep
        before, raw = s.all(), s.raw()
        n0 = len(self.log)
        self.meanwhile(s)
        self.note("pull", s.name, "faults", self.faults)
        await s.job.pull_metadata()
        self.edit = None
        rep.count("pulls")
        after, raw2 = s.all(), s.raw()
        log = self.log[n0:]
        for e in log:
            if e["src"] != s.name:
                continue
            if e["method"] not in ("GET", "POST") or e["kind"] not in ("touch", "revs"):
                self.bad("a pull changes something on a peer", request=e)
        for u, b in raw.items():
            if not before[u]["server"] and raw2.get(u) != b:
                self.bad("a pull changes a local revision", revision=before[u],
                         now=after.get(u))
        if any(not after[u]["server"] for u in set(after) - set(before)):
            self.bad("a pull creates local revisions")
        rep.count("local_kept")
        for name in {m["server"] for m in list(before.values()) + list(after.values())} | \
                set(s.peers):
            if not name:
                continue
            old = {u: m for u, m in before.items() if m["server"] == name}
            new = {u: m for u, m in after.items() if m["server"] == name}
            ev = [e for e in log if e["src"] == s.name and e["dst"] == name]
            self.judge_pull(s, name, old, new, ev, raw, raw2)

    def judge_pull(self, s, name, old, new, ev, raw, raw2):
        rep = self.rep
        info = dict(server=s.name, peer=name, old=show(old), new=show(new))
        unchanged = old == new and all(raw[u] == raw2[u] for u in old)
        if name not in s.peers:
            if new:
                self.bad("revisions of a forgotten peer remain", **info)
            if ev:
                self.bad("a forgotten peer is asked", **info)
            rep.count("dead_peer", bool(old))
            out = "forgotten"
        else:
            out = outcome(ev, s.proxies[name])
            if out == "ok":
                revs = [e for e in ev if e["kind"] == "revs"][-1]
                wants = [expected(x, name) for x in revs["offers"]]
                if new not in wants:
                    self.bad("the view of a peer differs from what it has",
                             want=show(wants[0]), **info)
                rep.count("views_updated", new != old)
                rep.count("incomplete_hidden", revs["hidden"])
            elif out == "absent":
                if new:
                    self.bad("revisions of a peer that does not have the job remain",
                             **info)
                rep.count("peer_without_job")
            elif out == "unreachable":
                if not unchanged:
                    self.bad("the view of an unreachable peer changed", **info)
                rep.count("unreachable")
                rep.count("hanging", any(e["fault"] == "hang" for e in ev))
            elif not unchanged and new:
                # odd answers: as if it had none, or left alone
                self.bad("the view of a peer became something else", **info)
        rep.count("evaluations")
        rep.distinct("pull", out, [(e["kind"], e["fault"], e["status"]) for e in ev],
                     min(len(old), 2), min(len(new), 2),
                     any(m["tags"] != m["orig_tags"] for m in old.values()))

    # -- pushing

    async def push(self, s):
        rep = self.rep
        before, raw = s.all(), s.raw()
        n0 = len(self.log)
        edited = self.meanwhile(s)
        self.note("push", s.name, "faults", self.faults)
        for x in self.servers.values():
            f = os.path.join(x.path, ".purge_pending")
            if os.path.exists(f):
                os.unlink(f)
        await s.job.push_metadata()
        self.edit = None
        rep.count("pushes")
        after, raw2 = s.all(), s.raw()
        log = [e for e in self.log[n0:] if e["src"] == s.name]
        want = {u: dict(m) for u, m in before.items()}
        removed = {}
        for peer in s.peers:
            due = {u: m for u, m in before.items()
                   if m["server"] == peer and m["tags"] != m["orig_tags"]
                   and "duration" in m["stats"]}
            puts = [e for e in log if e["dst"] == peer and e["kind"] == "tags"]
            purges = [e for e in log if e["dst"] == peer and e["kind"] == "purge"]
            down = s.proxies[peer].closed
            if down:
                if puts or purges:
                    raise Inconclusive("requests reach a closed port")
            elif sorted(e["uuid"] for e in puts) != sorted(due):
                self.bad("a push sends something else than the pending changes",
                         sent=[e["uuid"] for e in puts], pending=sorted(due), peer=peer)
            for e in puts:
                m = due[e["uuid"]]
                if e["body"] is None or set(e["body"]["new_tags"]) != m["tags"] or \
                        set(e["body"]["old_tags"]) != m["orig_tags"]:
                    self.bad("a push sends the wrong tags", sent=e["body"],
                             revision=metas.show(m))
                if e["status"] == 204 and e["delivered"]:
                    rep.count("applied")
                    if m["tags"]:
                        want[e["uuid"]]["orig_tags"] = set(m["tags"])
                    else:
                        del want[e["uuid"]]
                        removed.setdefault(peer, []).append(e["uuid"])
                        rep.count("removed")
                else:
                    rep.count("still_pending")
                    rep.count("lost_answer", e["fault"] == "lost")
                    rep.count("refused_%s" % e["status"], e["delivered"])
                self.judge_put(e)
                rep.count("evaluations")
                rep.distinct("push", e["fault"], e["status"], bool(m["tags"]),
                             self.servers[peer].role, e["why"])
            if len(due) > len(puts):
                rep.count("unreachable")
            if removed.get(peer):
                if len(purges) != 1:
                    self.bad("removed revisions are not purged", peer=peer,
                             removed=removed[peer], purges=len(purges))
                e = purges[0]
                if e["forwarded"] and e["status"] == 202:
                    if not os.path.exists(os.path.join(
                            self.servers[peer].path, ".purge_pending")):
                        self.bad("a purge is not scheduled", peer=peer)
                    rep.count("purges")
                else:
                    rep.count("purge_failed")
            elif purges:
                self.bad("a purge without removed revisions", peer=peer)
        for e in log:
            if e["kind"] not in ("tags", "purge") or e["dst"] not in s.peers:
                self.bad("an unexpected request of a push", request=e)
        # what was changed meanwhile, if it was accepted at all
        for u, t in (edited["done"] if edited else {}).items():
            if u not in after or after[u]["tags"] != t:
                self.bad("a change accepted during a push is lost", revision=u,
                         change=sorted(t), now=show(after).get(u))
            want.pop(u, None)
        for u in set(want) | set(after):
            if edited and u in edited["done"]:
                continue
            if after.get(u) != want.get(u):
                self.bad("wrong local state after a push", revision=u,
                         was=metas.show(before[u]) if u in before else None,
                         want=metas.show(want[u]) if u in want else None,
                         now=metas.show(after[u]) if u in after else None)
            if u in before and want[u] == before[u] and raw[u] != raw2[u] and \
                    not before[u]["server"]:
                self.bad("a push rewrites a local revision", revision=u)

    def judge_put(self, e):
        """What the owner did with it."""
        if not e["forwarded"]:
            return
        o = self.servers[e["dst"]]
        old, new = e["before"], e["after"]
        u = e["uuid"]
        may = (o.role == "dead" and not e["locked"] and u in old
               and set(e["body"]["old_tags"]) == old[u]["tags"])
        e["why"] = (o.role, e["locked"], u in old, may)
        want = dict(old)
        if may:
            t = set(e["body"]["new_tags"])
            want[u] = dict(old[u], tags=t)
            if not t:
                del want[u]
        if (e["status"] == 204) != may:
            self.bad("an owner decides wrongly about a change", status=e["status"],
                     allowed=may, why=e["why"], body=e["body"], had=show(old).get(u))
        if new != want:
            self.bad("an owner applies a change wrongly", want=show(want), got=show(new))

    def meanwhile(self, s):
        """Plans an edit on the same server while the requests are under way."""
        if self.rng.random() > 0.35:
            return None
        rem = [u for u, m in s.all().items() if m["server"]]
        if not rem:
            return None
        u = self.rng.choice(rem)
        t = self.tags((1, 2)) | {"manual:late"}
        st = {"done": {}}

        def edit():
            import structlog
            from pathlib import Path

            from backy.repository import Repository
            from backy.schedule import Schedule

            r = Repository(Path(s.path), Schedule(), structlog.stdlib.get_logger())
            r.connect()
            try:
                if r.tags("set", u, set(t), force=True):
                    st["done"][u] = t
                r_out = "accepted"
            except (BlockingIOError, KeyError) as e:
                r_out = type(e).__name__
            self.note("meanwhile", s.name, u, r_out)
            self.rep.count("edits_meanwhile")

        self.edit = (s.name, edit)
        return st


def show(d):
    return {u: metas.show(m) for u, m in d.items()}


def expected(offers, peer):
    return {u: dict(m, server=peer, orig_tags=set(m["tags"])) for u, m in offers.items()}


def outcome(ev, proxy):
    """What a pull has seen of a peer."""
    if proxy.closed:
        return "unreachable"
    if not ev:
        raise Inconclusive("no requests")
    for kind in ("touch", "revs"):
        e = [e for e in ev if e["kind"] == kind]
        if not e:
            return "odd"
        e = e[-1]
        if e["fault"] in ("refuse", "hang", "lost"):
            return "unreachable"
        if e["fault"]:
            return "odd"
        if e["status"] in (403, 404):
            return "absent"
        if e["status"] not in (200, 204):
            return "odd"
    return "ok"


class Server:
    def __init__(self, w, name):
        self.w, self.name = w, name
        self.dir = os.path.join(w.spec["dir"], name)
        self.base = os.path.join(self.dir, "backups")
        self.path = os.path.join(self.base, "vm.1")
        os.makedirs(self.base)
        self.role = "none"
        self.proxies = {}
        self.peers = {}
        from vf.live import address

        self.addr = address()

    def conf(self):
        jobs = {"other": {"schedule": "s", "source": {"type": "file", "filename": "/x"}}}
        if self.role == "job":
            jobs["vm.1"] = {"schedule": "s", "source": {"type": "file", "filename": "/x"}}
        return {
            "global": {"base-dir": self.base}, "jobs": jobs, "peers": dict(self.peers),
            "schedules": {"s": {"daily": {"interval": "4000d", "keep": 1}}},
            "api": {"addrs": self.addr, "port": 6023,
                    "tokens": {"t-%s-%s" % (p, self.name): p for p in self.w.servers}}}

    def write_conf(self):
        with open(self.cf, "w") as f:
            yaml.safe_dump(self.conf(), f)

    async def start(self):
        import structlog
        from pathlib import Path

        from backy.daemon import BackyDaemon

        w, rng = self.w, self.w.rng
        self.cf = os.path.join(self.dir, "backy.conf")
        for p in w.servers:
            if p != self.name:
                self.proxies[p] = Proxy(w, self, p)
                await self.proxies[p].open()
                if rng.random() < 0.9:
                    self.peers[p] = self.peer_conf(p)
        self.role = "job" if self.name == "srvA" else rng.choice(["job", "dead", "dead"])
        os.makedirs(self.path)
        for _ in range(rng.randrange(0, 5)):
            metas.write(self.path, w.revision())
        self.write_conf()
        d = self.d = BackyDaemon(Path(self.cf), structlog.stdlib.get_logger())
        d.loop = w.loop
        self.reload(first=True)
        self.api = w.loop.create_task(d.api_server_loop())
        for _ in range(1000):
            try:
                r, x = await asyncio.open_connection(self.addr, 6023)
                x.close()
                break
            except OSError:
                await asyncio.sleep(0.01)
        else:
            raise Inconclusive("no API")

    def peer_conf(self, p):
        return {"url": self.proxies[p].url, "token": "t-%s-%s" % (self.name, p)}

    def reload(self, first=False):
        self.write_conf()
        if first:
            self.d._read_config()
            self.d._apply_config()
        else:
            self.d.reload()
        for j in self.d.jobs.values():
            # only what we ask for happens
            j.stop()
            j.taskid = "abcd"
        self.job = self.d.jobs.get("vm.1")

    def switch(self, role):
        if role == self.role:
            return
        self.w.rep.count("switched")
        self.role = role
        if role == "none":
            shutil.rmtree(self.path)
        else:
            os.makedirs(self.path, exist_ok=True)
        self.reload()

    async def stop(self):
        self.api.cancel()
        for p in self.proxies.values():
            p.close()

    def raw(self):
        out = {}
        if os.path.isdir(self.path):
            for n in os.listdir(self.path):
                if n.endswith(".rev"):
                    with open(os.path.join(self.path, n), "rb") as f:
                        out[n[:-4]] = f.read()
        return out

    def all(self):
        return metas.read(self.path) if os.path.isdir(self.path) else {}

    def local(self):
        return {u: m for u, m in self.all().items() if not m["server"]}

    def offers(self):
        """What it has to share."""
        return {u: m for u, m in self.local().items() if "duration" in m["stats"]}

    def view(self, peer):
        return {u: m for u, m in self.all().items() if m["server"] == peer}


class Proxy:
    """The way from one server to another."""

    def __init__(self, w, src, dst):
        from vf.live import address

        self.w, self.src, self.dst = w, src, dst
        self.addr, self.server = address(), None
        self.url = "http://%s:7000" % self.addr

    @property
    def closed(self):
        return self.server is None or self.fault()[0] == "down"

    def fault(self):
        return self.w.faults.get((self.src.name, self.dst), (None, None))

    async def open(self):
        if self.server is None:
            self.server = await asyncio.start_server(self.handle, self.addr, 7000)

    def close(self):
        if self.server:
            self.server.close()
            self.server = None

    async def handle(self, rd, wr):
        try:
            await self.talk(rd, wr)
        except (ConnectionError, asyncio.IncompleteReadError, asyncio.CancelledError):
            pass
        finally:
            wr.close()

    async def talk(self, rd, wr):
        w = self.w
        f, where = self.fault()
        if f == "down":
            # as good as no listener at all
            wr.transport.abort()
            return
        head = await rd.readuntil(b"\r\n\r\n")
        lines = head.decode().split("\r\n")
        method, path, _ = lines[0].split(" ")
        h = {x.split(":", 1)[0].lower(): x.split(":", 1)[1].strip()
             for x in lines[1:] if ":" in x}
        body = await rd.readexactly(int(h.get("content-length", 0)))
        kind = ("touch" if path.endswith("/touch") else "purge" if path.endswith("/purge")
                else "tags" if "/tags" in path else "revs" if "/revs" in path else path)
        import json

        e = dict(src=self.src.name, dst=self.dst, method=method, path=path, kind=kind,
                 fault=None, status=None, delivered=False, forwarded=False, why=None,
                 body=json.loads(body) if body else None,
                 uuid=path.split("/")[5] if kind == "tags" else None)
        if f and where in ("any", kind):
            e["fault"] = f
        w.log.append(e)
        if w.edit and w.edit[0] == self.src.name:
            edit, w.edit = w.edit[1], None
            edit()
        f = e["fault"]
        if f == "refuse":
            wr.transport.abort()
            return
        if f == "hang":
            await asyncio.sleep(10**5)
            return
        if f in ("500", "401"):
            e["status"] = int(f)
            wr.write(b"HTTP/1.1 %s X\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"
                     % f.encode())
            await wr.drain()
            e["delivered"] = True
            return
        o = w.servers[self.dst]
        locked = None
        if kind == "tags" and o.role == "dead" and w.rng.random() < 0.15:
            import fcntl

            locked = open(os.path.join(o.path, ".backup"), "a+b")
            fcntl.flock(locked, fcntl.LOCK_EX | fcntl.LOCK_NB)
        e["locked"] = locked is not None
        e["before"] = o.all()
        e["offers"] = [o.offers()]
        e["hidden"] = len(o.local()) > len(e["offers"][0])
        out = await self.forward(head, body)
        e["forwarded"] = True
        e["after"] = o.all()
        e["offers"].append(o.offers())
        if locked:
            locked.close()
        e["status"] = int(out.split(b" ", 2)[1])
        if f == "lost":
            wr.transport.abort()
            return
        if f == "truncate":
            cut = out[:max(len(out) - 3, out.find(b"\r\n\r\n") + 2)]
            if cut == out:
                raise Inconclusive("nothing to truncate")
            wr.write(cut)
            await wr.drain()
            return
        wr.write(out)
        await wr.drain()
        e["delivered"] = True

    async def forward(self, head, body):
        rd, wr = await asyncio.open_connection(self.w.servers[self.dst].addr, 6023)
        head = head[:-2] + b"Connection: close\r\n\r\n"
        wr.write(head + body)
        out = await rd.read()
        wr.close()
        i = out.index(b"\r\n\r\n")
        if b"connection: close" not in out[:i].lower():
            out = out[:i] + b"\r\nConnection: close" + out[i:]
        return out
