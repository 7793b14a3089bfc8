"""Daemons running for real: backyd with its API on loopback addresses."""
import datetime
import http.client
import json
import os
import random
import signal
import socket
import time

import yaml

from vf.cmd import Hang
from vf.core import Inconclusive

UTC = datetime.timezone.utc
_addr = random.SystemRandom()


def address():
    """An address of the loopback network nobody else uses."""
    return "127.%d.%d.%d" % (_addr.randrange(1, 255), _addr.randrange(256),
                             _addr.randrange(1, 255))


class Live:
    """One server: base directory, configuration, daemon process."""

    def __init__(self, case, name="srv", schedules=None, jobs=None, tokens=None,
                 peers=None, worker_limit=None, callback=None, addr=None,
                 port=6023, env=None, now=None):
        self.case, self.z, self.name = case, case.z, name
        self.dir = os.path.join(case.dir, name)
        self.base = os.path.join(self.dir, "backups")
        os.makedirs(self.base, exist_ok=True)
        self.cf = os.path.join(self.dir, "backy.conf")
        self.log = os.path.join(self.dir, "daemon.log")
        self.addr, self.port = addr or address(), port
        self.now = now or datetime.datetime(2024, 3, 1, 12, tzinfo=UTC)
        self.env = {"VF_NOW": self.now.isoformat(), "VF_PEER": name}
        self.env.update(env or {})
        self.p = None
        self.conf = {
            "global": {"base-dir": self.base},
            "api": {"addrs": self.addr, "port": self.port,
                    "tokens": tokens or {"secret-" + name: "me"},
                    "cli-default": {"token": "secret-" + name}},
            "schedules": schedules or {"default": {"daily": {"interval": "1d", "keep": 3}}},
            "jobs": jobs or {},
        }
        if tokens:
            self.conf["api"]["cli-default"]["token"] = next(iter(tokens))
        if peers is not None:
            self.conf["peers"] = peers
        if worker_limit is not None:
            self.conf["global"]["worker-limit"] = worker_limit
        if callback is not None:
            self.conf["global"]["backup-completed-callback"] = callback
        self.write_conf()

    @property
    def url(self):
        return "http://%s:%d" % (self.addr, self.port)

    def write_conf(self):
        tmp = self.cf + ".new"
        with open(tmp, "w") as f:
            yaml.safe_dump(self.conf, f)
        os.rename(tmp, self.cf)

    def start(self, wait=True, timeout=60):
        self.p = self.z.start("backyd", "-c", self.cf, "-l", self.log, env=self.env,
                              cwd=self.base)
        if wait:
            end = time.monotonic() + timeout
            while True:
                try:
                    socket.create_connection((self.addr, self.port), 1).close()
                    break
                except OSError:
                    if self.p.poll() is not None:
                        raise Inconclusive("daemon exited %s: %s %s" % (
                            self.p.rc, self.p.errput()[-1500:], self.tail()))
                    if time.monotonic() > end:
                        raise Inconclusive("daemon has no API: " + self.tail())
                    time.sleep(0.01)
        return self

    def tail(self, n=3000):
        try:
            with open(self.log) as f:
                return f.read()[-n:]
        except OSError:
            return ""

    def http(self, method, path, token="", body=None, headers=None, timeout=60):
        """-> (status, decoded body or None); token "" is this server's own"""
        c = http.client.HTTPConnection(self.addr, self.port, timeout=timeout)
        h = dict(headers or {})
        if token is not None:
            if token == "":
                token = next(iter(self.conf["api"]["tokens"]))
            h["Authorization"] = "Bearer " + token
        if body is not None and not isinstance(body, (str, bytes)):
            body = json.dumps(body)
            h.setdefault("Content-Type", "application/json")
        try:
            c.request(method, path, body=body, headers=h)
            r = c.getresponse()
            d = r.read()
            try:
                v = json.loads(d)
            except ValueError:
                v = d.decode("utf-8", "replace")
            return r.status, v
        finally:
            c.close()

    def status(self, flt=None):
        from urllib.parse import quote

        p = "/v1/status" + ("?filter=" + quote(flt) if flt else "")
        st, v = self.http("GET", p)
        assert st == 200, (st, v)
        return {j["job"]: j for j in v}

    def wait_for(self, cond, timeout=60, what="condition"):
        end = time.monotonic() + timeout
        while True:
            s = self.status()
            if cond(s):
                return s
            if time.monotonic() > end:
                raise Hang("%s not reached: %s" % (what, s))
            time.sleep(0.02)

    def cli(self, *args, timeout=120, env=None, **kw):
        e = dict(self.env)
        e.update(env or {})
        return self.z.run("backy", "-c", self.cf, *args, env=e, cwd=self.base,
                          timeout=timeout, **kw)

    def stop(self, timeout=30):
        """Regular end of the daemon -> exit status"""
        if self.p is None:
            return None
        if self.p.poll() is None:
            self.p.kill(signal.SIGTERM)
        try:
            return self.p.wait(timeout)
        finally:
            self.p.close()
            self.p = None

    def kill(self):
        if self.p is not None:
            self.p.close()
            self.p = None
