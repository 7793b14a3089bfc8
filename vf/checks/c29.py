"""C29: replaced files are complete at every moment."""
import hashlib
import io
import json
import os
import random
import shutil
import signal
import threading
import time

import yaml

from vf import inproc, sched
from vf.core import Violation
from vf.repo import CHUNK, World, blob, load, save, yload

PROPERTY = "C29"
LEVEL = "exploration"
TECHNIQUE = (
    "a reader looks at every file while real commands are suspended before each "
    "chosen file system call, and after failed calls and kills; a concurrent "
    "reader during daemon reloads; the replacing file class against a model"
)
NOTE = (
    "Files are looked at between two file system calls of the writer, which are "
    "the only moments at which they change. Calls and settings are sampled. Files "
    "that cannot be durable after a power loss are the subject of C09."
)
RULE = (
    "one evaluation = one look at all files of a repository at a suspended, "
    "failed, killed or finished command, or one use of the replacing file class; "
    "distinct = (command, kind of event, way of disturbance, what changed)"
)
MUST_SEE = ["suspended", "failed", "killed", "old_kept", "new_there", "report_seen",
            "stored", "store_failed", "reload", "polled", "api", "api_raised",
            "empty_config", "huge_config"]
KEYS = {"uuid", "timestamp", "parent", "stats", "trust", "tags", "orig_tags", "server"}

OPS = {
    "tags": ("tags", "set", "-f", "-r", "last(clean)", "manual:\u00fcx,weekly"),
    "distrust": ("distrust", "-r", "last(clean)"),
    "verify": ("verify", "-r", "last(clean)"),
    "tagsall": ("tags", "add", "-f", "-r", "all", "manual:neu"),
    "backup": ("backup", "-f", "daily"),
    "mismatch": ("backup", "-f", "daily"),
    "expire": ("gc", "--expire", "--local"),
}
SINGLE = ("tags", "distrust", "verify")
PROG = {"verify": "backy-rbd", "mismatch": "backy-rbd"}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for op in OPS:
        for how in ("stop", "fail", "kill"):
            for i in range((2 if op in ("backup", "mismatch", "tags") else 1) * (1 if q else 6)):
                out.append({"what": "cmd", "op": op, "how": how, "i": i,
                            "n": 9 if q else 24})
    for i in range(6 if q else 30):
        out.append({"what": "store", "i": i, "n": 5 if q else 15})
    for i in range(2 if q else 8):
        out.append({"what": "daemon", "i": i, "n": 5 if q else 15})
    for i in range(3 if q else 12):
        out.append({"what": "api", "i": i, "n": 220 if q else 1500})
    rng.shuffle(out)
    return out


def run(c):
    globals()["do_" + c.spec["what"]](c)


# -- commands


def revision(name, data):
    """The revision in a file, which has to be whole."""
    try:
        r = yaml.load(data.decode("utf-8"), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))
        ok = isinstance(r, dict) and KEYS <= set(r) and r["uuid"] == name[:-4]
    except Exception:
        ok = False
    if not ok:
        return None
    r["tags"], r["orig_tags"] = sorted(r["tags"]), sorted(r["orig_tags"])
    return r


def look(w, what):
    """-> {relative name: contents} of everything replaced in place."""
    out = {}
    for n in os.listdir(w.path):
        if n.endswith(".rev") or n == "config":
            try:
                with open(os.path.join(w.path, n), "rb") as f:
                    data = f.read()
            except FileNotFoundError:
                continue
            if n == "config":
                out[n] = data
                continue
            r = revision(n, data)
            if r is None:
                raise Violation("half-written revision metadata " + what, file=n,
                                contents=repr(data[:600]))
            out[n] = r
    q = os.path.join(w.path, "quarantine")
    for n in os.listdir(q) if os.path.isdir(q) else []:
        if n.endswith(".report"):
            with open(os.path.join(q, n), "rb") as f:
                out["quarantine/" + n] = f.read()
    q = os.path.join(q, "chunks")
    for n in os.listdir(q) if os.path.isdir(q) else []:
        if len(n) != 32:
            continue
        with open(os.path.join(q, n), "rb") as f:
            if hashlib.md5(f.read()).hexdigest() != n:
                raise Violation("half-written data of a report " + what, file=n)
    return out


def leftover(w):
    out = []
    for d in (w.path, os.path.join(w.path, "quarantine"),
              os.path.join(w.path, "quarantine", "chunks")):
        for n in os.listdir(d) if os.path.isdir(d) else []:
            if n.startswith("tmp") or n.endswith((".tmp", "~", ".new")):
                out.append(os.path.relpath(os.path.join(d, n), w.path))
    return out


def setup(c):
    rng, op = c.rng, c.spec["op"]
    w = World(c, image_size=CHUNK, schedule={
        "daily": {"interval": "1d", "keep": 1}, "weekly": {"interval": "7d", "keep": 1}})
    w.rbd.write(w.spec, 0, blob(rng, 3000, "rand"))
    w.backup("daily")
    w.tick(days=5)
    w.rbd.write(w.spec, 99, b"changed")
    w.backup("daily,weekly," + ",".join("manual:%d" % i for i in range(rng.choice([0, 3, 400]))))
    if op == "expire":
        w.tick(days=9)
        w.backup("weekly,daily")
    if op == "verify":
        w.backy("distrust", "-r", "last")
    w.rbd.write(w.spec, 500, blob(rng, 700, "rand"))
    if op == "mismatch":
        if rng.random() < 0.5:
            w.source["full-always"] = True
            w.write_config()
    w.tick(hours=30)
    return w


def do_cmd(c):
    rng, op, how = c.rng, c.spec["op"], c.spec["how"]
    w = setup(c)
    if op == "mismatch":
        w.set_conf(tamper=[[0, "ffee"], [7, "00"], [2, "aa"]])
    argv = ("backy", "-C", w.path) + OPS[op]
    prog = PROG.get(op, rng.choice(["backy", "backy-rbd"]) if op == "backup" else "backy")
    old = look(w, "at first")
    saved = save(w)
    rc, evs, err = sched.trace(w, argv, (prog,))
    want_rc = op == "mismatch"
    if bool(rc) != want_rc or not evs:
        raise Violation("an undisturbed %s gave %s" % (op, rc), log=w.log_tail())
    final = look(w, "after " + op)
    if leftover(w):
        raise Violation("temporary files are left behind by " + op, files=leftover(w))
    ev = max(evs.values(), key=len)
    if how != "stop":
        ev = [e for e in ev if e["kind"] in sched.MUTATING]
    # what concerns the files in question, and what is around
    near = [i + 1 for i, e in enumerate(ev)
            if e["path"].endswith((".rev", ".report")) or "tmp" in os.path.basename(e["path"])
            or "quarantine" in e["path"] or e["path2"].endswith((".rev", ".report"))]
    n = c.spec["n"]
    pick = sorted(set(rng.sample(near, min(len(near), n)) +
                      rng.sample(range(1, len(ev) + 1), min(len(ev), 3))))
    for k in pick:
        load(w, saved)
        e = ev[k - 1]
        what = "(%s before %s of %s in %s)" % (
            {"stop": "suspended", "fail": "failing", "kill": "killed"}[how], e["kind"],
            os.path.basename(e["path"])[:9], op)
        c.count("evaluations")
        c.sample(what)
        renamed = any(x["kind"] == "rename" and x["path2"].endswith(".rev") for x in ev[:k - 1])
        if how == "stop":
            a = sched.Stopped(w, argv, prog, stop=k)
            if not a.stopped:
                a.p.close()
                continue
            seen = look(w, what)
            rc = a.finish()
            if bool(rc) != want_rc:
                raise Violation("a suspended command gave %s %s" % (rc, what))
            now = look(w, what)
            c.count("suspended")
            compare(c, op, old, seen, now, what)
            if leftover(w):
                raise Violation("temporary files are left behind " + what, files=leftover(w))
            c.distinct(op, prog, sched.category(e), how, seen == old, seen == now)
            continue
        if how == "fail":
            eno, sticky = rng.choice([28, 5]), rng.choice([0, 1])
            rc, _, _ = w.run(*argv, env=sched.shim(w, prog, fail=k, errno=eno, sticky=sticky))
            c.count("failed")
        else:
            kw = {"kill": k}
            if e["kind"] == "write" and rng.random() < 0.5:
                kw["torn"] = 1
            rc, _, _ = w.run(*argv, env=sched.shim(w, prog, **kw))
            c.count("killed")
        seen = look(w, what)
        compare(c, op, old, seen, final if op in SINGLE else None, what)
        c.distinct(op, prog, sched.category(e), how, seen == old, rc)
        if op in SINGLE:
            if rc == 0 and how == "fail":
                if seen != final:
                    raise Violation("exit status 0 but not updated " + what,
                                    log=w.log_tail())
                if leftover(w):
                    raise Violation("temporary files are left behind by a successful "
                                    "command " + what, files=leftover(w))
            elif not renamed and seen != old:
                raise Violation("a failed update took effect " + what)
        if op in ("distrust", "tags"):
            # and it can be done later
            rc, _, err = w.backy(*OPS[op])
            if rc or look(w, what) != final:
                raise Violation("the update cannot be done again " + what, rc=rc,
                                err=err[-800:].decode("utf-8", "replace"))


def compare(c, op, old, seen, final, what):
    """Everything is the old or the new version, or gone or new."""
    if seen == old:
        c.count("old_kept")
    else:
        c.count("new_there")
    for n, v in seen.items():
        if n.endswith(".report"):
            c.count("report_seen")
            try:
                r = yaml.safe_load(v.decode("utf-8"))
                ok = {"uuid", "timestamp", "source_hash", "target_hash", "offset",
                      "traceback"} <= set(r)
            except Exception:
                ok = False
            if not ok:
                raise Violation("half-written problem report " + what, file=n,
                                contents=repr(v[-300:]))
            if final is not None and final.get(n, v) != v:
                raise Violation("a problem report changed after it was there " + what)
        if n == "config" and v != old[n]:
            raise Violation("the configuration changed " + what)
        if n in old and v != old[n] and n.endswith(".rev"):
            if final is not None and n in final and v != final[n]:
                a, b = old[n], final[n]
                for key in KEYS:
                    if key == "tags" and op == "expire" and (
                            set(b[key]) <= set(v[key]) <= set(a[key])):
                        continue  # several updates
                    if v[key] not in (a[key], b[key]):
                        raise Violation("metadata neither old nor new " + what,
                                        key=key, seen=v)
    for n in old:
        if n not in seen and final is not None and n in final:
            raise Violation("a file was missing for a while " + what, file=n)
        if n not in seen and op not in ("expire", "backup", "mismatch"):
            raise Violation("a file is missing " + what, file=n)
        if n not in seen and (n.endswith(".report") or n == "config"):
            raise Violation("a file is missing " + what, file=n)


# -- the stored configuration


def settings(rng, base, huge=None):
    if huge is None:
        huge = rng.random() < 0.3
    sch = {}
    for i in range(rng.choice([1, 2, 5])):
        sch["t%d\u00fc" % i if rng.random() < 0.2 else "t%d" % i] = {
            "interval": rng.choice(["1d", "12h", "7d"]), "keep": rng.randrange(1, 99)}
    for i in range(300 if huge else 0):
        sch["x%d" % rng.randrange(10**9)] = {"interval": "1d", "keep": i + 1}
    src = rng.choice([
        {"type": "file", "filename": rng.choice(["/a", "/\u00fc/b c", "x" * 3000, "yes", "1"])},
        {"type": "rbd", "pool": "p", "image": rng.choice(["i", "null", "1:2"])},
        {"type": "rbd", "pool": "p", "image": "i", "full-always": rng.random() < 0.5,
         "vm": rng.choice([None, "vm"]), "consul_acl_token": "t\u00e4"},
    ])
    return {"path": os.path.join(base, "job"), "source": src, "schedule": sch}


def store(spec):
    """Program: stores a configuration like a job does."""
    import structlog

    from backy.source import CmdLineSource

    inproc.quiet()
    with open(spec) as f:
        conf = json.load(f)
    CmdLineSource.from_config(conf, structlog.get_logger()).store()
    return 0


def loaded(spec, out):
    """Program: what a job's worker sees."""
    import structlog

    from backy.source import CmdLineSource

    inproc.quiet()
    from pathlib import Path

    with open(spec) as f:
        path = json.load(f)["path"]
    s = CmdLineSource.load(Path(path), structlog.get_logger())
    with open(out, "w") as f:
        json.dump({"source": s.source_conf, "type": s.type_,
                   "path": str(s.repository.path),
                   "schedule": s.repository.schedule.config}, f)
    return 0


def whole(data, confs):
    """Which of the settings a configuration file holds, if any."""
    try:
        v = yaml.safe_load(data.decode("utf-8"))
    except Exception:
        return None
    for conf in confs:
        if v == conf:
            return conf
    return None


def do_store(c):
    rng = c.rng
    base = os.path.join(c.dir, "b")
    job = os.path.join(base, "job")
    cf = os.path.join(job, "config")
    spec, out = os.path.join(c.dir, "spec"), os.path.join(c.dir, "out")
    os.makedirs(base)
    SHIM = "prefix=%s\n" % os.path.realpath(base)

    def put(conf):
        with open(spec, "w") as f:
            json.dump(conf, f)

    def prog(env=None):
        return c.z.run("py:vf.checks.c29:store", spec, cwd=c.dir, env=env or {})

    def read():
        try:
            with open(cf, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def initial(prev):
        """The state found: -> bytes or None"""
        k = rng.choice(["none", "empty", "empty", "garbage", "same", "other", "other",
                        "readonly", "cut", "huge"])
        if k == "empty":
            c.count("empty_config")
        if k == "huge":
            c.count("huge_config")
        if os.path.isdir(job):
            shutil.rmtree(job)
        if k == "none":
            return k
        os.makedirs(job, exist_ok=True)
        data = {"empty": b"", "garbage": rng.randbytes(50)}.get(k)
        if data is None:
            data = yaml.safe_dump(prev if k == "same" else settings(
                rng, base, huge=k == "huge" or None)).encode()
            if k == "cut":
                data = data[:rng.choice([len(data) // 2, 8192, 4096])]
        with open(cf, "wb") as f:
            f.write(data)
        if rng.random() < 0.5:
            # as old as it can be
            os.utime(cf, (1e9, 1e9))
        if k == "readonly":
            os.chmod(cf, 0o440)
        return k

    for i in range(c.spec["n"]):
        conf = settings(rng, base)
        put(conf)
        # undisturbed, several times
        kind = initial(conf)
        for again in range(rng.choice([1, 2])):
            rc, _, err = prog()
            c.count("evaluations")
            c.count("stored")
            c.distinct("store", kind, again, rc)
            if rc:
                raise Violation("a configuration cannot be stored over %s" % kind,
                                rc=rc, err=err[-1500:].decode("utf-8", "replace"))
            if whole(read(), [conf]) is None:
                raise Violation("the stored configuration is not the one set (over %s)"
                                % kind, conf=conf, stored=repr(read()[:500]))
            left = [n for n in os.listdir(job) if n.startswith("tmp")]
            if left:
                raise Violation("temporary files are left behind by storing",
                                files=left)
        rc, _, err = c.z.run("py:vf.checks.c29:loaded", spec, out, cwd=c.dir)
        if rc:
            raise Violation("a stored configuration cannot be loaded",
                            err=err[-1500:].decode("utf-8", "replace"))
        with open(out) as f:
            got = json.load(f)
        if (got["source"], got["schedule"]) != (conf["source"], conf["schedule"]):
            raise Violation("a stored configuration is loaded differently", got=got,
                            conf=conf)
        # disturbed
        t = os.path.join(c.dir, "trace.1")
        for j in range(7):
            kind = initial(conf)
            before = read()
            new = conf if kind == "same" else settings(rng, base)
            put(new)
            how = rng.choice(["fail", "fail", "kill", "stop"])
            k = rng.randrange(1, 9)
            c.count("evaluations")
            if how == "stop":
                w = type("W", (), {})()
                w.case, w.path, w.ncmd = c, base, i * 100 + j
                w.start = lambda *a, env=None: c.z.start(*a, env=env, cwd=c.dir)
                a = sched.Stopped(w, ("py:vf.checks.c29:store", spec), None, stop=k)
                mid = read()
                if a.stopped:
                    c.count("suspended")
                    rc = a.finish()
                else:
                    rc = a.p.wait(60)
                    a.p.close()
                if rc:
                    raise Violation("a configuration cannot be stored over %s" % kind, rc=rc)
                if mid != before and whole(mid or b"", [new]) is None:
                    raise Violation("a half-written configuration was visible",
                                    contents=repr(mid)[:300], before=repr(before)[:300])
            else:
                env = {"VF_SHIM": SHIM + ("kill=%d" % k if how == "kill" else
                                          "fail=%d\nerrno=%d\nsticky=%d" % (
                                              k, rng.choice([28, 5]), rng.choice([0, 1])))}
                rc, _, err = prog(env)
                if how == "fail" and rc:
                    c.count("store_failed")
                elif how == "kill":
                    c.count("killed")
            now = read()
            c.distinct("store", how, kind, k, rc, now == before)
            if rc == 0:
                if whole(now or b"", [new]) is None:
                    raise Violation("storing succeeded but did not store", how=how)
            elif now != before and whole(now or b"", [new]) is None:
                raise Violation("the configuration is half-written after storing %s"
                                % {"fail": "failed", "kill": "was killed"}[how],
                                before=repr(before)[:300], now=repr(now)[:300])


# -- the daemon


def do_daemon(c):
    from vf.live import Live

    rng = c.rng

    def conf():
        out = {}
        for n in rng.sample(["a", "b", "c\u00fc", "d e"], rng.randrange(2, 5)):
            s = settings(rng, "/x", False)["source"]
            if s["type"] == "rbd":
                s = {"type": "rbd", "pool": "p", "image": "i%d" % rng.randrange(99)}
            out[n] = {"source": s, "schedule": rng.choice(["default", "other"])}
        return out

    def scheds():
        return {k: {"daily": {"interval": rng.choice(["1000d", "900d"]),
                              "keep": rng.randrange(1, 50)}} for k in ("default", "other")}

    s = Live(c, jobs=conf(), schedules=scheds())

    def want(n):
        return {"path": os.path.join(s.base, n), "source": s.conf["jobs"][n]["source"],
                "schedule": s.conf["schedules"][s.conf["jobs"][n]["schedule"]]}

    def read(n):
        with open(os.path.join(s.base, n, "config"), "rb") as f:
            return f.read()

    # what is found at start
    for n in s.conf["jobs"]:
        k = rng.choice(["none", "empty", "empty", "garbage", "cut"])
        if k == "none":
            continue
        os.makedirs(os.path.join(s.base, n))
        with open(os.path.join(s.base, n, "config"), "wb") as f:
            f.write({"empty": b"", "garbage": b"{{{"}.get(
                k, yaml.safe_dump(want(n)).encode()[:30]))
        if k == "empty":
            c.count("empty_config")
    allowed = {n: [want(n)] for n in s.conf["jobs"]}
    bad, stop = [], threading.Event()

    def poll():
        while not stop.is_set():
            for n in list(allowed):
                try:
                    data = read(n)
                except OSError:
                    bad.append((n, "missing"))
                    continue
                c.res.counts["polled"] = c.res.counts.get("polled", 0) + 1
                if whole(data, allowed[n]) is None:
                    bad.append((n, repr(data[:300])))
    try:
        s.start()
        for n in s.conf["jobs"]:
            if whole(read(n), [want(n)]) is None:
                raise Violation("the stored configuration is not that of the job",
                                job=n, stored=repr(read(n))[:500], log=s.tail())
        th = threading.Thread(target=poll, daemon=True)
        th.start()
        for i in range(c.spec["n"]):
            jobs, sc = conf(), scheds()
            s.conf["jobs"], s.conf["schedules"] = jobs, sc
            for n in jobs:
                if n in allowed:
                    allowed[n].append(want(n))
            s.write_conf()
            rc, out, err = s.cli("reload-daemon") if rng.random() < 0.7 else (
                0, s.p.kill(signal.SIGHUP), 0)
            if rc:
                raise Violation("reload failed", rc=rc, log=s.tail())
            end = time.monotonic() + 30
            while True:
                try:
                    left = [n for n in jobs if whole(read(n), [want(n)]) is None]
                except OSError as e:
                    left = [str(e)]
                if not left:
                    break
                if time.monotonic() > end:
                    raise Violation("stored configurations are not up to date after a "
                                    "reload", jobs=str(left), log=s.tail())
                time.sleep(0.01)
            c.count("reload")
            c.count("evaluations")
            c.distinct("reload", len(jobs), i)
            for n in jobs:
                allowed[n] = allowed.get(n, [])[-1:] or [want(n)]
            for n in jobs:
                tmp = [x for x in os.listdir(os.path.join(s.base, n)) if x.startswith("tmp")]
                end = time.monotonic() + 5
                while tmp and time.monotonic() < end:
                    time.sleep(0.05)
                    tmp = [x for x in os.listdir(os.path.join(s.base, n))
                           if x.startswith("tmp")]
                if tmp:
                    raise Violation("temporary files are left behind by a reload",
                                    files=str(tmp))
            if bad:
                break
        stop.set()
        th.join()
    finally:
        stop.set()
        s.kill()
    if bad:
        raise Violation("a job's configuration was not whole for a while",
                        job=bad[0][0], contents=bad[0][1])


# -- the class


def do_api(c):
    inproc.call(c, __name__, "api", {"seed": c.rng.getrandbits(32), "n": c.spec["n"],
                                     "dir": c.dir})


class Boom(Exception):
    pass


class Stop(BaseException):
    """Like KeyboardInterrupt and SystemExit, not an Exception."""


def api(spec, rep):
    from pathlib import Path

    from backy.utils import SafeFile

    rng = random.Random(spec["seed"])
    d = os.path.join(spec["dir"], "api")
    os.mkdir(d)
    for i in range(spec["n"]):
        p = os.path.join(d, "f%d" % rng.randrange(3))
        if os.path.exists(p) and rng.random() < 0.3:
            os.chmod(p, 0o600)
            os.unlink(p)
        old = None
        if os.path.exists(p):
            if rng.random() < 0.5:
                os.chmod(p, rng.choice([0o440, 0o600, 0o644]))
            with open(p, "rb") as f:
                old = f.read()
        kind = rng.choice(["new", "new", "new", "copy"])
        enc = rng.random() < 0.5 and kind == "new"
        protect = rng.random() < 0.3
        boom = rng.choice([None, None, None, "start", "mid", "end"])
        model = io.BytesIO(old if kind == "copy" and old else b"")
        rep.count("api")
        rep.count("evaluations")
        rep.distinct("api", kind, enc, protect, boom, old is None)
        raised = False
        try:
            with SafeFile(Path(p) if rng.random() < 0.5 else p,
                          sync=rng.random() < 0.7,
                          **({"encoding": "utf-8"} if enc else {})) as f:
                if protect:
                    f.use_write_protection()
                if kind == "new":
                    f.open_new("wb")
                else:
                    f.open_copy("r+b")
                if boom == "start":
                    raise rng.choice([Boom, Stop, KeyboardInterrupt, SystemExit])
                for j in range(rng.randrange(5)):
                    k = rng.random()
                    if k < 0.15:
                        o = rng.randrange(50)
                        f.seek(o)
                        model.seek(o)
                    elif k < 0.25:
                        n = rng.randrange(40)
                        f.truncate(n)
                        b = model.getvalue()
                        pos = model.tell()
                        model = io.BytesIO(b[:n] + b"\0" * (n - len(b)))
                        model.seek(pos)
                    else:
                        n = rng.choice([0, 1, 100, 9000, 70000])
                        if enc:
                            s = rng.choice(["a", "\u00fc\n", "\U0001f600"]) * (n // 3)
                            f.write(s)
                            model.write(s.encode())
                        else:
                            b = rng.randbytes(n)
                            f.write(b)
                            model.write(b)
                    if f.tell() != model.tell():
                        raise Violation("SafeFile: wrong position")
                    check(p, old, "while another version is written", Violation)
                    if boom == "mid" and j == 1:
                        raise rng.choice([Boom, Stop, KeyboardInterrupt, SystemExit])
                if boom == "end":
                    raise rng.choice([Boom, Stop, KeyboardInterrupt, SystemExit])
        except (Boom, Stop, KeyboardInterrupt, SystemExit):
            raised = True
        now = None
        if os.path.exists(p):
            with open(p, "rb") as f:
                now = f.read()
        if raised:
            rep.count("api_raised")
            if now != old:
                raise Violation("SafeFile: an exception did not keep the old version",
                                kind=kind, old=repr(old)[:100], now=repr(now)[:100])
        elif now != model.getvalue():
            raise Violation("SafeFile: wrong contents", kind=kind,
                            want=repr(model.getvalue())[:100], now=repr(now)[:100])
        if not raised and protect and os.stat(p).st_mode & 0o777 != 0o440:
            raise Violation("SafeFile: not write-protected", mode=oct(os.stat(p).st_mode))
        left = [n for n in os.listdir(d) if not n.startswith("f")]
        if left:
            raise Violation("SafeFile: leaves temporary files", files=left, raised=raised)


def check(p, old, what, V):
    try:
        with open(p, "rb") as f:
            now = f.read()
    except FileNotFoundError:
        now = None
    if now != old:
        raise V("SafeFile: the old version is not intact " + what,
                old=repr(old)[:100], now=repr(now)[:100])
