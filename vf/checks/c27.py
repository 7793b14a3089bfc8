"""C27: the file source."""
import hashlib
import os
import random

import yaml

from vf import sched
from vf.core import Violation
from vf.repo import World, blob, diff_files, load, save, tree_state

PROPERTY = "C27"
LEVEL = "exploration"
TECHNIQUE = (
    "random histories of real commands on repositories with a file source, "
    "with failing calls, kills and suspended commands; monitor: byte-exact "
    "restores of every complete revision and a model of tags and existence"
)
NOTE = (
    "Histories, contents and the points at which calls fail, processes die or "
    "are suspended are sampled. Sources that change while they are copied are "
    "not judged."
)
RULE = (
    "one evaluation = one command with the repository judged after it; "
    "distinct = (scenario, command, fault or point of suspension, exit status)"
)
MUST_SEE = ["backup", "gc", "rm", "tags", "verify", "distrust", "expire", "restore_cli",
            "restore_over", "empty", "big", "symlink", "fault", "killed", "raced",
            "remote", "restored_used", "samesize", "older", "failed_source", "incomplete_left", "waited_or_refused"]
TRUTH = {}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for what, k, n in (("history", 10, 26), ("fault", 6, 24), ("crash", 6, 20),
                       ("race", 8, 16)):
        out += [{"what": what, "i": i, "n": n if q else 4 * n}
                for i in range(k if q else 4 * k)]
    rng.shuffle(out)
    return out


class F(World):
    def __init__(self, c):
        self.src = os.path.join(c.dir, "data", "source file")
        os.makedirs(os.path.dirname(self.src))
        self.truth = {}
        self.keep = os.path.join(c.dir, "truth")
        os.makedirs(self.keep)
        super().__init__(
            c, name=c.rng.choice(["vm0", "a b", "h\u00e4"]),
            source={"type": "file", "filename": self.src},
            schedule={"daily": {"interval": "1d", "keep": 2},
                      "weekly": {"interval": "7d", "keep": 1}})

    def change(self, kind=None):
        """New contents for the source file."""
        rng = self.rng
        kind = kind or rng.choice(["rand", "rand", "append", "shrink", "empty",
                                   "big", "symlink", "mode", "same", "sparse",
                                   "newlines", "samesize", "older"])
        self.case.count(kind)
        if kind not in ("append", "shrink", "same", "mode", "samesize", "older"):
            if os.path.lexists(self.src):
                os.unlink(self.src)
        if not os.path.exists(self.src) and kind in ("append", "shrink", "same", "mode",
                                                           "samesize", "older"):
            kind = "rand"
        if kind == "rand":
            self.put(self.src, blob(rng, rng.randrange(1, 30000), "rand"))
        elif kind == "newlines":
            self.put(self.src, rng.choice([b"a\r\nb\n", b"\n" * 99, b"\x1a\0\xff\r"]) * 50)
        elif kind == "append":
            with open(self.src, "ab") as f:
                f.write(rng.randbytes(rng.randrange(1, 5000)))
        elif kind == "shrink":
            os.truncate(self.src, os.path.getsize(self.src) // 2)
        elif kind == "empty":
            self.put(self.src, b"")
        elif kind == "big":
            self.put(self.src, blob(rng, rng.choice(
                [1 << 20, (1 << 20) + 1, 5 << 20, (8 << 20) - 1, 9000001]), "rand"))
        elif kind == "sparse":
            self.put(self.src, b"x")
            os.truncate(self.src, 3 << 20)
        elif kind == "symlink":
            t = os.path.join(self.case.dir, "data", "real%d" % rng.randrange(3))
            self.put(t, rng.randbytes(rng.randrange(9000)))
            os.symlink(t, self.src)
        elif kind in ("samesize", "older"):
            # other contents in place (or in a file moved there), size and time say nothing
            st = os.stat(self.src)
            if kind == "older" and not os.path.islink(self.src):
                os.unlink(self.src)
            self.put(self.src, rng.randbytes(st.st_size))
            t = st.st_mtime_ns - (0 if kind == "samesize" else rng.choice([1, 10**9, 10**13]))
            os.utime(self.src, ns=(t, t))
        elif kind == "mode":
            os.chmod(self.src, rng.choice([0o400, 0o644, 0o600, 0o4755, 0o444]))
        return kind

    @staticmethod
    def put(p, data):
        with open(p, "wb") as f:
            f.write(data)

    def remember(self, uuid):
        with open(self.src, "rb") as f:
            data = f.read()
        self.truth[uuid] = os.path.join(self.keep, uuid)
        self.put(self.truth[uuid], data)

    def restorable(self, what, over=True):
        """Every complete local revision restores exactly."""
        rng = self.rng
        for r in self.revs():
            u = r["uuid"]
            if not self.complete(r):
                self.case.count("incomplete_left")
                continue
            if r["server"]:
                continue
            if u not in self.truth:
                raise Violation("an unknown revision is complete " + what, rev=r)
            t = os.path.join(self.case.dir, "restored")
            if os.path.lexists(t):
                os.unlink(t)
            if rng.random() < 0.4:
                self.put(t, rng.randbytes(rng.choice([0, 10, 40000])))
                self.case.count("restore_over")
            if rng.random() < 0.2:
                self.case.count("restore_cli")
                rc, _, err = self.backy("restore", "-r", u, "file", t)
            else:
                rc, _, err = self.worker("restore", u, t)
            if rc:
                raise Violation("a complete revision cannot be restored " + what,
                                rc=rc, uuid=u, log=self.log_tail())
            self.case.count("restores")
            d = diff_files(t, self.truth[u])
            if d:
                raise Violation("a restore differs from the file at backup time "
                                + what, uuid=u, diff=d)
            if rng.random() < 0.5:
                # what is done to the restored file is of no concern to the backup
                os.chmod(t, 0o600)
                with open(t, "r+b") as f:
                    f.write(b"used")
                os.truncate(t, rng.randrange(9))
                self.case.count("restored_used")


def brief(r):
    return {k: r[k] for k in ("uuid", "timestamp", "tags", "trust", "stats",
                              "server", "orig_tags")}


def run(c):
    globals()["do_" + c.spec["what"]](c)


def remote(w, rng):
    u = "Remote" + "".join(rng.choice("23456789abcdefgh") for _ in range(16))
    with open(os.path.join(w.path, u + ".rev"), "w") as f:
        yaml.safe_dump({
            "uuid": u, "timestamp": w.clock, "parent": "",
            "stats": {"duration": 1.5}, "trust": "trusted",
            "tags": ["daily"], "orig_tags": ["daily"], "server": "other"}, f)


def do_history(c):
    rng = c.rng
    w = F(c)
    w.change("rand")
    for i in range(c.spec["n"]):
        step(c, w)
    w.restorable("at the end")


def step(c, w, op=None):
    rng = c.rng
    before = {r["uuid"]: brief(r) for r in w.revs()}
    local = [u for u, r in before.items() if not r["server"]]
    op = op or rng.choice(["backup"] * 4 + ["gc"] * 3 + ["rm", "tags", "verify", "distrust",
                          "expire", "remote", "failed_source", "badrm"])
    c.count(op)
    if op == "remote":
        remote(w, rng)
        return
    w.tick(hours=rng.choice([1, 5, 30, 200]))
    gone, may, exact = set(), set(), True
    tags = {u: set(r["tags"]) for u, r in before.items()}
    trust = {u: r["trust"] for u, r in before.items()}
    new = None
    if op == "backup":
        w.change()
        tg = rng.choice(["daily", "weekly", "daily,weekly", "manual:x"])
        rc, fresh, err = w.backup(tg, expect_ok=False)
        if rc or len(fresh) != 1 or not w.complete(fresh[0]):
            raise Violation("an undisturbed backup failed", rc=rc, log=w.log_tail())
        new = fresh[0]["uuid"]
        w.remember(new)
        tags[new] = set(tg.split(","))
        trust[new] = "trusted"
        gone = {u for u in local if "duration" not in before[u]["stats"]}
    elif op == "failed_source":
        k = rng.choice(["missing", "dir", "dangling", "loop"])
        if os.path.lexists(w.src):
            os.unlink(w.src)
        if k == "dir":
            os.mkdir(w.src)
        elif k == "dangling":
            os.symlink(w.src + "-nowhere", w.src)
        elif k == "loop":
            os.symlink(w.src, w.src)
        rc, fresh, err = w.backup("daily", expect_ok=False)
        if k == "dir":
            os.rmdir(w.src)
        elif os.path.lexists(w.src):
            os.unlink(w.src)
        w.change("rand")
        if rc == 0:
            raise Violation("the backup of an unusable source succeeds", kind=k)
        if any(w.complete(r) for r in fresh):
            raise Violation("the backup of an unusable source is complete", kind=k)
        gone = {u for u in local if "duration" not in before[u]["stats"]}
        before.update({r["uuid"]: brief(r) for r in fresh})
        tags.update({r["uuid"]: set(r["tags"]) for r in fresh})
        trust.update({r["uuid"]: r["trust"] for r in fresh})
    elif op == "gc":
        if rng.random() < 0.6:
            rc, _, err = w.backy("gc")
        else:
            rc, _, err = w.worker("gc")
    elif op == "expire":
        rc, _, err = w.backy("gc", "--expire", "--local")
        exact = False
    elif op in ("rm", "badrm"):
        if not local:
            return
        u = rng.choice(local)
        if op == "badrm":
            rc, _, err = w.backy("rm", "-r", u[:-1] + ("a" if u[-1] != "a" else "b"))
            rc = 0
        else:
            rc, _, err = w.backy("rm", "-r", u)
            gone = {u}
    elif op == "tags":
        if not local:
            return
        u = rng.choice(local)
        act = rng.choice(["set", "add", "remove"])
        t = rng.choice(["manual:a", "daily,manual:a", "weekly"])
        auto = act == "remove" and rng.random() < 0.4
        rc, _, err = w.backy("tags", act, "-f", "-r", u, *(["--autoremove"] if auto else []), t)
        s = set(t.split(","))
        tags[u] = s if act == "set" else tags[u] | s if act == "add" else tags[u] - s
        if auto and not tags[u]:
            gone = {u}
    elif op == "verify":
        if not [u for u in local if "duration" in before[u]["stats"]]:
            return
        u = rng.choice([u for u in local if "duration" in before[u]["stats"]])
        rc, _, err = w.backy("verify", "-r", u)
    elif op == "distrust":
        if not local:
            return
        u = rng.choice(local)
        rc, _, err = w.backy("distrust", "-r", u)
        trust[u] = "distrusted"
    c.count("evaluations")
    c.distinct("history", op, rc, len(before), len(gone))
    c.sample("%s -> exit %s, %d revisions" % (op, rc, len(before)))
    if op != "failed_source" and rc:
        raise Violation("%s failed" % op, rc=rc, log=w.log_tail())
    now = {r["uuid"]: brief(r) for r in w.revs()}
    for u, r in before.items():
        if u in gone:
            if u in now:
                raise Violation("%s did not remove a revision" % op, rev=r)
            continue
        if u not in now:
            if not exact:
                continue
            raise Violation("%s removed a revision" % op, rev=r, log=w.log_tail())
        n = now[u]
        if exact and set(n["tags"]) != tags[u]:
            raise Violation("%s: wrong tags" % op, before=r, now=n)
        if op != "verify" and n["trust"] != trust[u]:
            raise Violation("%s changed the trust" % op, before=r, now=n)
        for k in ("timestamp", "stats", "server", "orig_tags"):
            if n[k] != r[k] and not (op == "failed_source"):
                raise Violation("%s changed %s" % (op, k), before=r, now=n)
    for u in set(now) - set(before):
        if u != new:
            raise Violation("%s made a revision appear" % op, rev=now[u])
    w.restorable("after " + op)


def setup(c):
    rng = c.rng
    w = F(c)
    for i in range(rng.randrange(2, 4)):
        w.change(rng.choice(["rand", "big", "empty", "symlink"]))
        w.tick(days=rng.choice([1, 9]))
        w.remember(w.backup(rng.choice(["daily", "weekly,daily", "manual:x"]))["uuid"])
    if rng.random() < 0.5:
        remote(w, rng)
        c.count("remote")
    w.change(rng.choice(["rand", "big", "big", "append"]))
    w.tick(days=1)
    return w


OPS = {
    "backup": ("backup", "-f", "daily"),
    "gc": ("gc",),
    "expire": ("gc", "--expire", "--local"),
    "verify": ("verify", "-r", "local"),
    "tags": ("tags", "add", "-f", "-r", "all", "manual:tg"),
    "settags": ("tags", "set", "-f", "-r", "local", "manual:st"),
    "distrust": ("distrust", "-r", "local"),
    "rm": ("rm", "-r", "first(local)"),
    "list": ("log", "-r", "all"),
}
PROGS = {"backup": ["backy", "backy-file", "backy-file"], "gc": ["backy-file"],
         "expire": ["backy", "backy-file"], "verify": ["backy-file"]}


def compare(w, before, allowed, what):
    now = {r["uuid"]: brief(r) for r in w.revs()}
    for u, r in before.items():
        n = now.get(u)
        if n is None:
            if u not in allowed:
                raise Violation("a revision disappeared " + what, rev=r, log=w.log_tail())
            continue
        if "duration" in r["stats"] and n["stats"] != r["stats"] or any(
                n[k] != r[k] for k in ("timestamp", "server", "orig_tags")):
            raise Violation("metadata changed " + what, before=r, now=n)
    return now


def take(w, before, rc, what):
    """The new complete revision, if any, has the data of the source."""
    new = [r for r in w.revs() if r["uuid"] not in before]
    for r in new:
        if w.complete(r):
            w.remember(r["uuid"])
    if rc == 0 and not any(w.complete(r) for r in new):
        raise Violation("exit status 0 without a complete revision " + what,
                        log=w.log_tail())
    return new


def do_fault(c):
    rng = c.rng
    w = setup(c)
    before = {r["uuid"]: brief(r) for r in w.revs()}
    saved, truth = save(w), dict(w.truth)
    first = w.revs()[0]["uuid"]
    for op in ("backup", "gc", "expire", "tags", "rm", "verify", "distrust"):
        prog = rng.choice(PROGS.get(op, ["backy"]))
        argv = ("backy", "-C", w.path) + OPS[op]
        load(w, saved)
        rc, evs, err = sched.trace(w, argv, (prog,))
        after = {r["uuid"] for r in w.revs()}
        load(w, saved)
        if rc or not evs:
            raise Violation("an undisturbed %s failed" % op, err=err[-500:].decode("utf-8", "replace"))
        ev = [e for e in max(evs.values(), key=len) if e["kind"] in sched.MUTATING]
        n = c.spec["n"] // (2 if op == "backup" else 6)
        for k in sched.choose(rng, ev, n):
            load(w, saved)
            w.truth = dict(truth)
            e = ev[k - 1]
            eno = rng.choice([28, 5, 13])
            sticky = rng.choice([0, 1])
            rc, _, _ = w.run(*argv, env=sched.shim(
                w, prog, fail=k, errno=eno, sticky=sticky))
            what = "(%s of %s in %s failed with %d, exit %s)" % (
                e["kind"], os.path.basename(e["path"])[:9], op, eno, rc)
            c.count("fault")
            c.count("evaluations")
            c.distinct("fault", op, prog, sched.category(e), sticky, rc)
            c.sample(what)
            if op == "backup":
                take(w, before, rc, what)
            compare(w, before, set(before) - after, what)
            w.restorable(what)
    # restores that fail say so
    t = os.path.join(c.dir, "out", "restored")
    os.makedirs(os.path.dirname(t))
    load(w, saved)
    argv = ("backy-file", "-t", "abcd", "-C", w.path, "restore", first, t)
    for k in range(1, 6):
        for eno in (28, 5):
            if os.path.exists(t):
                os.unlink(t)
            rc, _, _ = w.run(*argv, env={"VF_SHIM": "prog=backy-file\nprefix=%s\nfail=%d\nerrno=%d"
                             % (os.path.realpath(os.path.dirname(t)), k, eno)})
            c.count("evaluations")
            c.distinct("fault-restore", k, eno, rc)
            if rc == 0 and (not os.path.exists(t) or diff_files(t, w.truth[first])):
                raise Violation("a failed restore exits 0", nth=k, errno=eno)


def do_crash(c):
    rng = c.rng
    w = setup(c)
    before = {r["uuid"]: brief(r) for r in w.revs()}
    saved, truth = save(w), dict(w.truth)
    for op in ("backup", "gc", "expire", "tags", "settags", "rm", "distrust"):
        prog = rng.choice(PROGS.get(op, ["backy"]))
        argv = ("backy", "-C", w.path) + OPS[op]
        load(w, saved)
        rc, evs, err = sched.trace(w, argv, (prog,))
        after = {r["uuid"]: r for r in w.revs()}
        load(w, saved)
        if rc or not evs:
            raise Violation("an undisturbed %s failed" % op, err=err[-500:].decode("utf-8", "replace"))
        ev = [e for e in max(evs.values(), key=len) if e["kind"] in sched.MUTATING]
        n = c.spec["n"] // (2 if op == "backup" else 6)
        for k in sched.choose(rng, ev, n):
            load(w, saved)
            w.truth = dict(truth)
            e = ev[k - 1]
            kw = {"kill": k}
            if e["kind"] in ("write", "sendfile") and rng.random() < 0.5:
                kw["torn"] = 1
            if prog == "backy-file" and rng.random() < 0.5:
                kw["also"] = "%GRAND%"
            rc, _, _ = w.run(*argv, env=sched.shim(w, prog, **kw))
            what = "(%s killed %s %s of %s)" % (
                op, "within" if "torn" in kw else "before", e["kind"],
                os.path.basename(e["path"])[:9])
            c.count("killed")
            c.count("evaluations")
            c.distinct("crash", op, prog, sched.category(e), str(sorted(kw)), rc)
            c.sample(what)
            take(w, before, 1, what)
            now = compare(w, before, set(before) - set(after), what)
            for u in before:
                if u not in now:
                    continue
                tags, old = set(now[u]["tags"]), set(before[u]["tags"])
                new = set(after[u]["tags"]) if u in after else set()
                # expiry takes the tags of a revision one at a time, before it removes it
                if not (new <= tags <= old if op == "expire" else
                        tags == old or u in after and tags == new):
                    raise Violation("tags neither old nor new " + what,
                                    before=before[u], now=now[u])
            w.restorable(what)
            rc, _, err = w.backy("log")
            if rc:
                raise Violation("listing fails " + what, err=err[-900:].decode("utf-8", "replace"))
            if rng.random() < 0.5:
                step(c, w, rng.choice(["backup", "gc"]))


def do_race(c):
    """One command is suspended while another one runs."""
    rng = c.rng
    w = setup(c)
    before = {r["uuid"]: brief(r) for r in w.revs()}
    saved, truth = save(w), dict(w.truth)
    for op in ["backup"] * 3 + ["gc"] + rng.sample(["tags", "settags", "verify", "rm", "distrust"], 1):
        prog = rng.choice(PROGS.get(op, ["backy"]))
        argv = ("backy", "-C", w.path) + OPS[op]
        load(w, saved)
        rc, evs, err = sched.trace(w, argv, (prog,))
        load(w, saved)
        if rc or not evs:
            raise Violation("an undisturbed %s failed" % op, err=err[-500:].decode("utf-8", "replace"))
        ev = max(evs.values(), key=len)
        where = sched.choose(rng, ev, max(2, c.spec["n"] // 4))
        if op == "gc":
            # around the last time the revisions are looked at
            look = [i + 1 for i, e in enumerate(ev) if e["kind"] in ("open-r", "opendir")]
            where = sorted(set(where) | set(look[-4:]))
        for k in where:
            load(w, saved)
            w.truth = dict(truth)
            other = rng.choice(["backup", "tags", "settags", "gc", "rm", "list", "expire"]
                               if op == "backup" else ["backup"] * (3 if op == "gc" else 1)
                               + ["tags", "gc", "rm", "list"])
            race(c, w, op, prog, argv, ev[k - 1], k, other, before)


def race(c, w, op, prog, argv, e, k, other, before):
    oargv = OPS[other]
    if other == "backup":
        oargv = ("backup", "-f", "weekly")
    elif other == "tags":
        oargv = ("tags", "add", "-f", "-r", "all", "manual:other")
    elif other == "settags":
        oargv = ("tags", "set", "-f", "-r", "local", "manual:other")
    elif other == "rm":
        victim = [r["uuid"] for r in w.revs() if not r["server"]][1]
        oargv = ("rm", "-r", victim)
    a = sched.Stopped(w, argv, prog, stop=k)
    if not a.stopped:
        a.p.close()
        return
    mid = {r["uuid"]: brief(r) for r in w.revs()}
    rca, rcb, waited = sched.overlap(a, w, ("backy", "-C", w.path) + oargv)
    what = "(%s suspended before %s of %s, %s; exits %s and %s)" % (
        op, e["kind"], os.path.basename(e["path"])[:9], other, rca, rcb)
    c.count("raced")
    c.count("evaluations")
    if waited or rcb or rca:
        c.count("waited_or_refused")
    c.distinct("race", op, other, prog, sched.category(e), rca, rcb)
    c.sample(what)
    now = {r["uuid"]: brief(r) for r in w.revs()}
    for u, r in now.items():
        if "duration" in r["stats"] and not r["server"] and u not in w.truth:
            w.remember(u)
    # what was there is still there, unless removed
    allowed = set()
    if "rm" in (op, other):
        allowed |= {u for u in before if not before[u]["server"]}
    if "expire" in (op, other):
        allowed |= set(before)
    compare(w, before, allowed, what)
    if other == "list":
        if rcb:
            raise Violation("listing fails " + what, log=w.log_tail())
    # each successful backup has its revision
    for name, rc, tag in ((op, rca, "daily"), (other, rcb, "weekly")):
        if name == "backup" and rc == 0 and "expire" not in (op, other):
            mine = [r for u, r in now.items() if u not in before and
                    "duration" in r["stats"] and (
                        tag in r["tags"] or "manual:st" in r["tags"] or
                        "manual:other" in r["tags"])]
            if not mine:
                raise Violation("the revision of a successful backup is not there "
                                + what, log=w.log_tail())
    both = [n for n, rc in ((op, rca), (other, rcb)) if n == "backup" and rc == 0]
    fresh = [u for u in now if u not in before and "duration" in now[u]["stats"]]
    if len(fresh) < len(both) and "expire" not in (op, other):
        raise Violation("fewer complete revisions than successful backups " + what,
                        log=w.log_tail())
    # no tag change is lost
    if other in ("tags", "settags") and rcb == 0 and not (
            op in ("tags", "settags")):
        for u in mid:
            if u in now and (other == "tags" or not mid[u]["server"]):
                if "manual:other" not in now[u]["tags"]:
                    raise Violation("a successful change of tags got lost " + what,
                                    before=mid[u], now=now[u])
    if op == "tags" and other == "tags" and rca == 0 and rcb == 0:
        for u in before:
            if u in now and not {"manual:tg", "manual:other"} <= set(now[u]["tags"]):
                raise Violation("a successful change of tags got lost " + what,
                                before=before[u], now=now[u])
    # nothing removed comes back
    if other == "rm" and rcb == 0 and victim in now:
        raise Violation("a removed revision is back " + what)
    w.restorable(what)
