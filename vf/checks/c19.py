"""C19: authentication of the API."""
import base64
import datetime
import http.client
import os
import random
import signal
import threading
import time

from vf import metas
from vf.core import Inconclusive, Violation
from vf.live import Live, address

PROPERTY = "C19"
LEVEL = "exploration"
TECHNIQUE = (
    "a running daemon is reconfigured again and again and asked over its real sockets "
    "with all forms of credentials; status and effects are compared with the tokens "
    "of the last configuration"
)
NOTE = (
    "A reload is given 20 seconds to take effect; while it does, either configuration "
    "may decide. Only requests that are valid HTTP; scheme name spelled Bearer."
)
RULE = (
    "one evaluation = one request judged; distinct = (form of the credentials, route, "
    "method, connection reused or not, status)"
)
MUST_SEE = ["unauthorized", "authorized", "reloads", "bursts", "stale_token",
            "kept_connections", "listener_changes", "unavailable_address",
            "during_reload", "effects_seen", "no_effects", "unknown_routes"]
LONG = {"daily": {"interval": "4000d", "keep": 3}}
ROUTES = [
    ("GET", "/v1/status", 200), ("GET", "/v1/status?filter=act", 200),
    ("POST", "/v1/reload", 204), ("GET", "/v1/jobs", 200),
    ("POST", "/v1/jobs/act0/run", 202), ("POST", "/v1/jobs/none/run", 404),
    ("GET", "/v1/backups", 200), ("POST", "/v1/backups/dead0/purge", 202),
    ("POST", "/v1/backups/act0/purge", 403), ("POST", "/v1/backups/none/purge", 404),
    ("POST", "/v1/backups/dead0/touch", 204), ("POST", "/v1/backups/act0/touch", 204),
    ("GET", "/v1/backups/dead0/revs", 200), ("GET", "/v1/backups/act0/revs", 200),
    ("PUT", "/v1/backups/dead0/revs/%(rev)s/tags", 204),
]
ODD = [
    ("GET", "/", 404), ("GET", "/v1", 404), ("GET", "/v2/status", 404),
    ("GET", "/v1/status/", 404), ("GET", "//v1/status", 404), ("GET", "/V1/STATUS", 404),
    ("POST", "/v1/status", 405), ("DELETE", "/v1/backups/dead0/purge", 405),
    ("OPTIONS", "/v1/status", 405), ("HEAD", "/v1/status", 200), ("PATCH", "/v1/jobs", 405),
    ("GET", "/v1/reload", 405), ("PUT", "/v1/jobs/act0/run", 405), ("LOCK", "/v1/jobs", 405),
    ("GET", "/favicon.ico", 404), ("GET", "/v1/jobs/../status", None),
    ("GET", "/v1/backups/%2e%2e/revs", 404), ("GET", "/%76%31/status", None),
]


def cases(tier, rng):
    n = 40 if tier == "quick" else 200
    return [{"i": i, "rounds": 4 if tier == "quick" else 10} for i in range(n)]


class Server:
    def __init__(self, c):
        rng = self.rng = c.rng
        self.c = c
        self.always = "always-%08x" % rng.randrange(2**32)
        self.tokens = {}
        self.past = []
        self.L = Live(c, schedules={"default": LONG}, jobs={
            "act0": {"schedule": "default",
                     "source": {"type": "file", "filename": "/dev/null"}}})
        self.home = self.L.addr
        self.addrs = [self.home]
        self.port = self.L.port
        self.ghosts = 0
        self.rev = metas.new_uuid(rng)
        self.dead = os.path.join(self.L.base, "dead0")
        self.act = os.path.join(self.L.base, "act0")
        for p in (self.dead, self.act):
            os.mkdir(p)
            metas.write(p, dict(uuid=self.rev, tags={"daily"},
                                timestamp=self.L.now - datetime.timedelta(minutes=1)))

    def write(self, tokens, addrs, port):
        self.L.conf["api"].update(tokens=tokens, addrs=", ".join(addrs), port=port)
        self.L.write_conf()

    def new_tokens(self):
        rng = self.rng
        t = {k: v for k, v in self.tokens.items() if rng.random() < 0.5}
        for _ in range(rng.randrange(0, 3)):
            t["tok-%08x%s" % (rng.randrange(2**32), rng.choice(["", ".a", "=", "/+", "~"]))
              ] = rng.choice(["me", "peer", "x y"])
        if self.past and rng.random() < 0.2:
            t[rng.choice(self.past)] = "again"
        t[self.always] = "keeper"
        return t

    def ghost(self):
        """A job no one has loaded so far."""
        self.ghosts += 1
        self.L.conf["jobs"]["ghost%d" % self.ghosts] = {
            "schedule": "default", "source": {"type": "file", "filename": "/dev/null"}}

    def jobs(self):
        st, v = self.L.http("GET", "/v1/jobs", token=self.always)
        if st != 200:
            raise Violation("a valid token is rejected", status=st, token=self.always,
                            tokens=self.tokens, log=self.L.tail(), past=self.past)
        return {j["name"] for j in v}


def request(addr, port, method, path, headers, body=None, conn=None, timeout=60):
    """-> status or the error of the connection"""
    c = conn or http.client.HTTPConnection(addr, port, timeout=timeout)
    try:
        c.request(method, path, body=body, headers=headers)
        r = c.getresponse()
        r.read()
        return r.status
    finally:
        if conn is None:
            c.close()


def invalid(rng, s):
    """-> (form, headers) without a valid token"""
    good = rng.choice(sorted(s.tokens))
    stale = [t for t in s.past if t not in s.tokens]
    forms = {
        "none": {}, "empty": {"Authorization": ""}, "scheme": {"Authorization": "Bearer"},
        "blank": {"Authorization": "Bearer "},
        "bare": {"Authorization": good},
        "basic": {"Authorization": "Basic " + base64.b64encode(
            ("me:" + good).encode()).decode()},
        "basic2": {"Authorization": "Basic " + good},
        "token": {"Authorization": "Token " + good},
        "joined": {"Authorization": "Bearer" + good},
        "twice": {"Authorization": "Bearer Bearer " + good},
        "prefix": {"Authorization": "Bearer " + good[:-1]},
        "suffix": {"Authorization": "Bearer " + good + "x"},
        "case": {"Authorization": "Bearer " + good.swapcase()},
        "client": {"Authorization": "Bearer " + s.tokens[good]},
        "random": {"Authorization": "Bearer %x" % rng.randrange(2**64)},
        "wildcard": {"Authorization": "Bearer *"},
        "None": {"Authorization": "Bearer None"},
        "two": {"Authorization": "Bearer %s %s" % (good, good)},
        "list": {"Authorization": "Bearer wrong, Bearer " + good},
        "cookie": {"Cookie": "Authorization=Bearer " + good},
        "other": {"X-Authorization": "Bearer " + good, "Proxy-Authorization":
                  "Bearer " + good, "taskid": good},
        "peer": {"Authorization": "Bearer wrong", "X-Forwarded-For": "127.0.0.1"},
    }
    k = rng.choice(sorted(forms) + (["stale"] * 6 if stale else []))
    if k == "stale":
        return k, {"Authorization": "Bearer " + rng.choice(stale)}
    h = forms[k]
    t = h.get("Authorization", "")
    if t.startswith("Bearer ") and t[7:] in s.tokens:
        return "none", {}
    return k, h


def effects(s):
    out = {}
    for p in (s.dead, s.act):
        for n in sorted(os.listdir(p)):
            if n.endswith(".rev") or n == ".purge_pending":
                with open(os.path.join(p, n), "rb") as f:
                    out[p, n] = f.read()
    out["mtime"] = os.stat(s.dead).st_mtime_ns
    return out


def body_of(rng, path):
    if path.endswith("/tags"):
        return rng.choice(['{"old_tags": ["daily"], "new_tags": ["daily", "x"]}', "{", "{}"])
    return None


def run(c):
    rng = c.rng
    s = Server(c)
    s.tokens = s.new_tokens()
    s.write(s.tokens, s.addrs, s.port)
    s.L.start()
    kept = []
    try:
        for rnd in range(c.spec["rounds"]):
            unauthorized(c, s, rng, kept)
            authorized(c, s, rng, kept)
            reconfigure(c, s, rng, kept)
        unauthorized(c, s, rng, kept)
        c.sample(dict(tokens=len(s.tokens), past=len(s.past), addresses=s.addrs))
    finally:
        for k in kept:
            k.close()
        s.L.kill()


def unauthorized(c, s, rng, kept):
    # something a reload would bring
    s.ghost()
    ghost = "ghost%d" % s.ghosts
    s.L.write_conf()
    before = effects(s)
    for _ in range(25):
        m, p, st = rng.choice(ROUTES + ROUTES + ODD)
        p = p % {"rev": s.rev} if "%(rev)" in p else p
        form, h = invalid(rng, s)
        query = rng.random() < 0.1
        if query:
            p += ("&" if "?" in p else "?") + "token=" + s.always
            form += " query"
        b = body_of(rng, p)
        conn = rng.choice(kept) if kept and rng.random() < 0.4 else None
        info = dict(method=m, path=p, headers=h, form=form, reused=conn is not None,
                    tokens=s.tokens, past=s.past)
        try:
            got = request(rng.choice(s.addrs), s.port, m, p, h, b, conn)
        except (OSError, http.client.HTTPException) as e:
            if conn is not None:
                # the server may end idle connections
                conn.close()
                kept.remove(conn)
                continue
            raise Violation("no answer", error=repr(e), **info)
        if got != 401:
            raise Violation("a request without a valid token is not answered with 401",
                            status=got, **info)
        c.count("unauthorized")
        c.count("evaluations")
        c.count("unknown_routes", (m, p, st) in ODD)
        c.count("stale_token", form.startswith("stale"))
        c.count("kept_connections", conn is not None)
        c.distinct(form, m, p.replace(s.rev, "REV").split("token=")[0], conn is not None,
                   got)
    if ghost in s.jobs():
        raise Violation("a request without a valid token reloaded the configuration")
    time.sleep(0.05)
    if effects(s) != before:
        raise Violation("requests without a valid token had an effect",
                        before=sorted(map(str, before)), after=sorted(
                            map(str, effects(s))))
    c.count("no_effects")


def authorized(c, s, rng, kept):
    for _ in range(15):
        m, p, st = rng.choice(ROUTES + ROUTES + ODD)
        p = p % {"rev": s.rev} if "%(rev)" in p else p
        if m == "POST" and (p.endswith("/run") and st == 202):
            # once it runs there is more to watch than we want to
            continue
        if p == "/v1/reload" and m == "POST":
            continue
        t = rng.choice(sorted(s.tokens))
        h = {"Authorization": "Bearer " + t}
        b = None
        if p.endswith("/tags"):
            cur = sorted(metas.read(s.dead)[s.rev]["tags"])
            b = '{"old_tags": %s, "new_tags": ["daily", "t%d"]}' % (
                str(cur).replace("'", '"'), rng.randrange(100))
        before = effects(s)
        conn = None
        if rng.random() < 0.5:
            if kept and rng.random() < 0.5:
                conn = rng.choice(kept)
            else:
                conn = http.client.HTTPConnection(rng.choice(s.addrs), s.port, timeout=60)
                kept.append(conn)
        reused = conn is not None and conn.sock is not None
        info = dict(method=m, path=p, token=t, tokens=s.tokens, past=s.past)
        try:
            got = request(rng.choice(s.addrs), s.port, m, p, h, b, conn)
        except (OSError, http.client.HTTPException) as e:
            if reused:
                conn.close()
                kept.remove(conn)
                continue
            raise Violation("no answer", error=repr(e), **info)
        if got == 401:
            raise Violation("a valid token is rejected", **info)
        if st is not None and got != st:
            raise Violation("a request is not served", status=got, expected=st, **info)
        if p.endswith("dead0/purge") and m == "POST":
            f = os.path.join(s.dead, ".purge_pending")
            if not os.path.exists(f):
                raise Violation("a purge was not scheduled", **info)
            os.unlink(f)
            c.count("effects_seen")
        elif p.endswith("/tags"):
            if effects(s) == before:
                raise Violation("tags were not changed", **info)
            c.count("effects_seen")
        elif p.endswith("dead0/touch") and effects(s)["mtime"] == before["mtime"]:
            raise Violation("touch did nothing", **info)
        c.count("authorized")
        c.count("evaluations")
        c.distinct("valid", m, p.replace(s.rev, "REV"), reused, got)


def listening(addr, port):
    try:
        request(addr, port, "GET", "/", {}, timeout=2)
        return True
    except (OSError, http.client.HTTPException):
        return False


def reconfigure(c, s, rng, kept):
    """Reloads, and watches until the new configuration decides."""
    old = (dict(s.tokens), list(s.addrs), s.port)
    stop = threading.Event()
    bad = []

    def hammer(seed):
        r = random.Random(seed)
        while not stop.is_set():
            try:
                good = r.random() < 0.5
                h = {"Authorization": "Bearer " + (s.always if good else "never")}
                # connections to a listener while it is closed may stay unanswered
                st = request(s.home, old[2], "GET", "/v1/jobs", h, timeout=2)
                if (st == 401) == good or st not in (200, 401):
                    bad.append((good, st))
                c.count("during_reload")
            except (OSError, http.client.HTTPException):
                # gone when the address or port is given up
                time.sleep(0.01)

    ts = [threading.Thread(target=hammer, args=(rng.random(),)) for _ in range(2)]
    for t in ts:
        t.start()
    try:
        n = rng.choice([1, 1, 2, 3, 5])
        for k in range(n):
            s.past += [t for t in s.tokens if t not in s.past]
            tokens = s.new_tokens()
            if rng.random() < 0.5:
                addrs = [s.home] if rng.random() < 0.7 else []
                addrs += [address() for _ in range(rng.randrange(0 if addrs else 1, 3))]
                port = rng.choice([s.port, s.port, rng.randrange(2000, 30000)])
                c.count("listener_changes")
            else:
                addrs, port = s.addrs, s.port
            extra = []
            if rng.random() < 0.3:
                extra = [rng.choice(["192.0.2.1", "203.0.113.77", "::2"])]
                c.count("unavailable_address")
            marker = "mark-%08x" % rng.randrange(2**32)
            tokens[marker] = "marker"
            loaded = dict(tokens)
            s.write(tokens, (extra + addrs) if rng.random() < 0.5 else addrs + extra, port)
            s.tokens = loaded
            how = rng.choice(["hup", "hup", "post"])
            if how == "post" and k == 0:
                st = request(old[1][0], old[2], "POST", "/v1/reload",
                             {"Authorization": "Bearer " + s.always})
                if st != 204:
                    raise Violation("reload is refused", status=st)
            else:
                s.L.p.kill(signal.SIGHUP)
            s.addrs, s.port = addrs, port
            if k < n - 1:
                time.sleep(rng.choice([0, 0.0005, 0.002, 0.02, 0.1]))
            c.count("reloads")
        c.count("bursts", n > 1)
        s.L.addr, s.L.port = addrs[0], port
        end = time.monotonic() + 20
        while True:
            try:
                if request(addrs[0], port, "GET", "/v1/status",
                           {"Authorization": "Bearer " + marker}, timeout=2) == 200:
                    break
                why = "the last token is not accepted"
            except (OSError, http.client.HTTPException):
                why = "the last listener does not exist"
            if time.monotonic() > end:
                raise Violation("a reload does not reach the API: " + why, reloads=n,
                                tokens=s.tokens, old=old, new=(addrs, port),
                                log=s.L.tail(6000))
            time.sleep(0.01)
        # the other listeners
        gone = [(a, old[2]) for a in old[1] if (a, old[2]) not in [
            (x, port) for x in addrs]]
        while True:
            wrong = [a for a in addrs if not listening(a, port)] + [
                a for a, q in gone if listening(a, q)]
            if not wrong:
                break
            if time.monotonic() > end:
                raise Violation("wrong listeners after a reload", wrong=wrong, gone=gone,
                                want=(addrs, port))
            time.sleep(0.01)
    finally:
        stop.set()
        for t in ts:
            t.join()
    if bad:
        raise Violation("wrong answers during a reload (token valid, status)",
                        answers=bad[:5])
    c.count("evaluations")
