"""C28: snapshots requested through Consul."""
import base64
import http.client
import http.server
import json
import os
import random
import sys
import threading
import urllib.parse

from vf.core import Violation
from vf.repo import CHUNK, World, blob, mutate_image

PROPERTY = "C28"
LEVEL = "exploration"
TECHNIQUE = (
    "real backups against a fake Consul (HTTP, the real client library) with a "
    "virtual clock and a snapshot agent of random delay; monitor on the contents "
    "of the key/value store, the calls of rbd and byte-exact restores"
)
NOTE = (
    "Contents of the request area are generated (own, foreign and garbage "
    "entries of many shapes). Keys with characters special in URLs are left out, "
    "and so is valid JSON that is no object. Consul itself is always reachable."
)
RULE = (
    "one evaluation = one backup with the store judged after it; distinct = "
    "(outcome of the agent, shapes of the entries present, exit status)"
)
MUST_SEE = ["agent", "timeout", "own", "foreign", "garbage", "outside", "vanished",
            "empty_area", "direct", "rbd_fault", "agent_wins", "null_value", "binary",
            "slow_agent", "served_by_agent", "agent_deletes", "added_meanwhile"]


def cases(tier, rng):
    q = tier == "quick"
    return [{"i": i, "n": 7 if q else 30} for i in range(24 if q else 100)]


def hook(env):
    """In the worker: the fake Consul, and time that passes there."""
    if os.path.basename(sys.argv[0]) != "backy-rbd":
        return
    import time

    import consulate

    port = int(env["VF_CONSUL"])
    d = list(consulate.Consul.__init__.__defaults__)
    d[0:3] = [None, "127.0.0.1", port]
    consulate.Consul.__init__.__defaults__ = tuple(d)
    off = [0.0]
    real = time.time, time.monotonic

    def sleep(s):
        h = http.client.HTTPConnection("127.0.0.1", port, timeout=60)
        h.request("GET", "/vf/sleep/%r" % float(s))
        h.getresponse().read()
        h.close()
        off[0] += s

    time.sleep = sleep
    time.time = lambda: real[0]() + off[0]
    time.monotonic = lambda: real[1]() + off[0]


class Consul:
    def __init__(self, w, rng, vm, token):
        self.w, self.rng, self.vm, self.token = w, rng, vm, token
        self.kv, self.index, self.ops = {}, 10, []
        self.now, self.since = 0.0, {}
        self.delay = None
        self.served, self.requested, self.after_find = [], [], None
        self.agent_deletes = False
        self.found = 0
        self.lock = threading.RLock()
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do(self):
                n = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(n) if n else b""
                with outer.lock:
                    code, data = outer.handle(self.command, self.path, body)
                data = data if isinstance(data, bytes) else json.dumps(data).encode()
                self.send_response(code)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                self.wfile.write(data)

            do_GET = do_PUT = do_DELETE = do

        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_port
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()

    def set(self, key, value, flags=0):
        self.index += 1
        self.kv[key] = (value, flags, self.index)

    def row(self, key):
        v, f, i = self.kv[key]
        return {"LockIndex": 0, "Key": key, "Flags": f, "CreateIndex": i,
                "ModifyIndex": i, "Value": base64.b64encode(v).decode() if v else None}

    def handle(self, cmd, path, body):
        if path.startswith("/vf/sleep/"):
            self.now += float(path.rsplit("/", 1)[1])
            self.agent()
            return 200, {}
        u = urllib.parse.urlsplit(path)
        q = urllib.parse.parse_qs(u.query, keep_blank_values=True)
        if not u.path.startswith("/v1/kv/"):
            return 404, b""
        key = urllib.parse.unquote(u.path[len("/v1/kv/"):])
        self.ops.append((cmd, key, round(self.now, 3)))
        if q.get("token") != [self.token]:
            return 403, b"Permission denied"
        if cmd == "GET":
            if "recurse" in q:
                rows = [self.row(k) for k in sorted(self.kv) if k.startswith(key)]
                self.found += 1
                if self.after_find:
                    self.after_find()
                return (200, rows) if rows else (404, b"")
            if key not in self.kv:
                return 404, b""
            return 200, [self.row(key)]
        if cmd == "PUT":
            cas = q.get("cas")
            cur = self.kv[key][2] if key in self.kv else 0
            if cas and int(cas[0]) != cur:
                return 200, False
            self.set(key, body)
            self.since[key] = self.now
            self.requested.append((key, body))
            return 200, True
        if cmd == "DELETE":
            if "recurse" in q:
                for k in [k for k in self.kv if k.startswith(key)]:
                    del self.kv[k]
            self.kv.pop(key, None)
            return 200, True
        return 405, b""

    def agent(self):
        """The agent on the virtual machine's host."""
        if self.delay is None:
            return
        for key, at in list(self.since.items()):
            if key not in self.kv or self.now < at + self.delay:
                continue
            try:
                s = json.loads(self.kv[key][0])
            except ValueError:
                continue
            if s.get("vm") != self.vm:
                continue
            lk = self.w.rbd.lock()
            try:
                # the machine went on working meanwhile
                self.w.rbd.write(self.w.spec, self.rng.randrange(CHUNK),
                                 self.rng.randbytes(100))
                self.w.rbd.snap_create(self.w.spec, s["snapshot"])
            finally:
                lk.close()
            self.served.append(s["snapshot"])
            del self.since[key]
            if self.agent_deletes:
                self.kv.pop(key, None)


def entries(rng, vm):
    """-> [(key, value, kind)]"""
    out = []

    def key():
        k = "snapshot/" + rng.choice([
            "%08x-%04x" % (rng.getrandbits(32), rng.getrandbits(16)),
            "sub/dir/%d" % rng.randrange(10**6), "a b %d" % rng.randrange(10**6),
            "\u00fcml\u00e4ut%d" % rng.randrange(10**6), str(rng.randrange(10**6))])
        return k

    def own():
        s = {"vm": vm, "snapshot": "backy-" + rng.choice(
            ["", "x", "%x" % rng.getrandbits(80), "backy-", "\u00fc", "a b"])}
        if rng.random() < 0.3:
            s["extra"] = rng.choice([None, [1, 2], {"a": "b"}, "x" * 5000])
        if rng.random() < 0.3:
            s = dict(reversed(list(s.items())))
        return json.dumps(s, ensure_ascii=rng.random() < 0.5).encode()

    def foreign():
        other = rng.choice(["vm", vm + "1", vm.upper(), " " + vm, vm + " ", "", "other",
                            "backy-", "\u00fc"])
        s = rng.choice([
            {"vm": other, "snapshot": "backy-abc"},
            {"vm": other, "snapshot": "backy-abc"},
            {"vm": other, "snapshot": "manual"},
            {"vm": vm, "snapshot": rng.choice(
                ["manual", "xbacky-1", "Backy-1", "", "back", "backy", " backy-x", "-backy-"])},
            {"vm": vm, "snapshot": rng.choice([None, 5, ["backy-x"], {"backy-": 1}])},
            {"vm": vm}, {"snapshot": "backy-x"}, {},
            {"vm": rng.choice([None, 0, [vm], {vm: 1}]), "snapshot": "backy-x"},
            {"VM": vm, "snapshot": "backy-x"},
        ])
        return json.dumps(s).encode()

    def garbage():
        return rng.choice([
            b"", b"", b"\xff\xfe\x00x", b"\x80", b"{", b"garbage", b"[1,", b"'x'",
            b"{'vm': 'x'}", own()[:-1], own() + b"}", b" ", b"\n", b"\0",
            b"[" * 150000, b"{\"a\":" * 100000, b"nul",
        ])

    for make, kind in ((own, "own"), (foreign, "foreign"), (garbage, "garbage")):
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            out.append((key(), make(), kind))
    if rng.random() < 0.2:
        out.append(("snapshot/", b"", "folder"))
    for _ in range(rng.choice([0, 1, 2])):
        out.append((rng.choice(["snapshots/%d", "snap%d", "other/snapshot/%d",
                                "Snapshot/%d"]) % rng.randrange(10**6),
                    rng.choice([own, foreign, garbage])(), "outside"))
    if rng.random() < 0.12:
        return []
    return out


def run(c):
    rng = c.rng
    vm = rng.choice(["vm0", "test04", "backy", "m\u00e4h"])
    w = World(c, image_size=2 * CHUNK)
    w.source.update(vm=vm, consul_acl_token="t0ken")
    w.rbd.write(w.spec, 0, blob(rng, CHUNK + 500, "rand"))
    k = Consul(w, rng, vm, "t0ken")
    w.env.update(VF_CONSUL=str(k.port), VF_HOOK="vf.checks.c28:hook")
    try:
        for i in range(c.spec["n"]):
            one(c, w, k, vm, i)
    finally:
        k.close()


def one(c, w, k, vm, i):
    rng = c.rng
    w.source["full-always"] = rng.random() < 0.3
    direct = None
    w.source.update(vm=vm, consul_acl_token="t0ken")
    if rng.random() < 0.12:
        direct = rng.choice(["vm", "consul_acl_token"])
        if rng.random() < 0.5:
            del w.source[direct]
        else:
            w.source[direct] = None
        c.count("direct")
    w.write_config()
    k.kv.clear()
    k.ops.clear()
    k.since.clear()
    k.served.clear()
    k.requested.clear()
    k.after_find = None
    k.now = 0.0
    ents = {e[0]: e for e in entries(rng, vm)}
    for key, value, kind in ents.values():
        k.set(key, value, rng.choice([0, 0, 42]))
        c.count(kind)
        if not value:
            c.count("null_value")
        if b"\xff" in value or b"\x80" in value:
            c.count("binary")
    if not ents:
        c.count("empty_area")
    orig = dict(k.kv)
    k.delay = rng.choice([0, 0.5, 3, 3.1, 10, rng.uniform(0, 85), rng.uniform(0, 85), 85,
                          None, None, rng.uniform(86, 100)])
    k.agent_deletes = rng.random() < 0.3
    if k.agent_deletes:
        c.count("agent_deletes")
    gone, added = set(), {}

    def after_find():
        x = rng.random()
        if x < 0.25 and k.kv:
            key = rng.choice(sorted(k.kv))
            if key in ents:
                gone.add(key)
                del k.kv[key]
                c.count("vanished")
        elif x < 0.4:
            key = "snapshot/new-%d" % rng.randrange(10**6)
            k.set(key, json.dumps({"vm": "other", "snapshot": "backy-n"}).encode())
            added[key] = k.kv[key]
            c.count("added_meanwhile")

    k.after_find = after_find
    faults = []
    wins = False
    if k.delay is None and not direct and rng.random() < 0.5:
        wins = True
        faults = [{"match": "^snap create", "nth": 1, "agent": True}]
        c.count("agent_wins")
    elif rng.random() < 0.12:
        faults = [{"match": rng.choice(["^snap ls", "^snap create", "^snap ls"]),
                   "nth": rng.choice([1, 2]), "rc": rng.choice([1, 2, 22]),
                   "before": True}]
        c.count("rbd_fault")
    w.faults(*faults)
    mutate_image(w, rng, 2, resize=False)
    n0 = len(w.rbd.read_log())
    rc, fresh, err = w.backup("daily", expect_ok=False, timeout=240)
    w.faults()
    calls = [e["cmd"] for e in w.rbd.read_log()[n0:] if e["ev"] == "call"]
    creates = [x for x in calls if x[:2] == ["snap", "create"]]
    hit = any(e.get("fault") for e in w.rbd.read_log()[n0:])
    how = ("direct" if direct else "agent" if k.served else "wins" if wins else "timeout")
    c.count("agent" if how == "agent" else how)
    if k.served:
        c.count("served_by_agent")
        if k.delay > 20:
            c.count("slow_agent")
    c.count("evaluations")
    c.distinct(how, str(sorted({e[2] for e in ents.values()})), bool(gone), bool(added),
               bool(faults), rc)
    what = "(%s, delay %s, %d entries, exit %s)" % (how, k.delay, len(ents), rc)
    c.sample(what)
    detail = dict(log=w.log_tail(2500), ops=str(k.ops[-20:]), calls=str(calls[-12:]))
    if rc != 0 and not (faults and hit and not wins):
        raise Violation("the backup failed " + what, rc=rc, **detail)
    complete = [r for r in fresh if w.complete(r)]
    if rc == 0:
        if len(complete) != 1:
            raise Violation("no complete revision " + what, **detail)
        u = complete[0]["uuid"]
        w.check_restore(u, what=what)
        if not w.source["full-always"] and "backy-" + u not in w.rbd.snaps(w.spec):
            raise Violation("the snapshot of the new revision is not there " + what,
                            **detail)
    if direct:
        if k.ops:
            raise Violation("Consul was used although not configured", **detail)
        now = k.kv
        if now != orig:
            raise Violation("requests changed", **detail)
        return
    # the request
    reqs = []
    for key, body in k.requested:
        try:
            s = json.loads(body)
        except ValueError:
            s = None
        if not key.startswith("snapshot/") or not isinstance(s, dict) or (
                s.get("vm") != vm or not str(s.get("snapshot")).startswith("backy-")):
            raise Violation("an odd request was made " + what, key=key,
                            value=repr(body), **detail)
        reqs.append(s["snapshot"])
    if not reqs and not hit:
        raise Violation("no snapshot was requested " + what, **detail)
    if any(key in orig for key, _ in k.requested):
        raise Violation("the request replaced another one " + what, **detail)
    if rc == 0 and reqs != ["backy-" + u]:
        raise Violation("the wrong snapshot was requested " + what, requests=str(reqs),
                        **detail)
    if how == "agent" and k.delay <= 85 and creates:
        raise Violation("created a snapshot itself although it was going to be made "
                        + what, **detail)
    if how == "timeout" and rc == 0 and len(creates) != 1:
        raise Violation("did not create the snapshot after the timeout " + what, **detail)
    # the store
    for key, v in k.kv.items():
        if key in added:
            if v != added[key]:
                raise Violation("a request made meanwhile changed " + what, key=key, **detail)
            continue
        if key not in orig:
            raise Violation("a request is left behind " + what, key=key,
                            value=repr(v)[:200], **detail)
        kind = ents[key][2]
        if kind in ("own", "garbage"):
            raise Violation("an %s request remains %s" % (
                "unparsable" if kind == "garbage" else "own", what), key=key,
                value=repr(v)[:200], **detail)
        if v != orig[key]:
            raise Violation("a foreign request changed " + what, key=key,
                            before=repr(orig[key])[:200], now=repr(v)[:200], **detail)
    for key, v in orig.items():
        if ents[key][2] in ("foreign", "outside") and key not in k.kv and key not in gone:
            raise Violation("a request of another machine or name was removed " + what,
                            key=key, value=repr(v)[:200], **detail)
    for key in added:
        if key not in k.kv:
            raise Violation("a request made meanwhile was removed " + what, key=key, **detail)
