"""C18: tag changes."""
import datetime
import fcntl
import os
import random
import threading
from urllib.parse import quote

import yaml

from vf import inproc, metas
from vf.checks.c16 import UTC, Gen, Model, answer, make
from vf.core import Inconclusive, Violation

PROPERTY = "C18"
LEVEL = "exploration"
TECHNIQUE = (
    "the real command and the API of a running daemon change tags; a model of the "
    "asked change judges the files, the exit or HTTP status and everything untouched"
)
NOTE = "Revisions given to the API by identifier or by specifications that match."
RULE = (
    "one evaluation = one tag change judged; distinct = (interface, action, force, "
    "expectation, autoremove, kind of selection, outcome)"
)
MUST_SEE = ["applied", "refused_expect", "refused_unknown_tag", "refused_spec", "forced",
            "autoremoved", "autoremove_kept", "api_204", "api_400", "api_403", "api_404",
            "api_412", "api_503", "cas_races", "many_jobs", "locked", "remote_emptied"]
SCHEDULE = {"daily": {"interval": "4000d", "keep": 3},
            "weekly": {"interval": "7000d", "keep": 2},
            "a-b": {"interval": "9000d", "keep": 2}}
TAGS = ["daily", "weekly", "a-b", "manual:x y", "manual:a", "nope", "Daily", "manual"]


def cases(tier, rng):
    n = 64 if tier == "quick" else 320
    return [{"i": i, "n": 40 if tier == "quick" else 120,
             "kind": "api" if i % 4 == 3 else "cli"} for i in range(n)]


def run(c):
    if c.spec["kind"] == "api":
        return api(c)
    inproc.call(c, __name__, "cli",
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


def snapshot(path):
    """-> {name: content} of the metadata"""
    out = {}
    for n in os.listdir(path):
        if n.endswith(".rev"):
            with open(os.path.join(path, n), "rb") as f:
                out[n] = f.read()
    return out


def change(disk, sel, action, tags, autoremove):
    """-> what has to be there afterwards"""
    new = {u: dict(r) for u, r in disk.items()}
    for u in sel:
        t = new[u]["tags"]
        t = set(tags) if action == "set" else t | tags if action == "add" else t - tags
        new[u]["tags"] = t
        if autoremove and not t and not new[u]["server"]:
            del new[u]
    return new


def judge(path, before, want, touched, info):
    """Compares the repository with the model."""
    got = metas.read(path)
    if got != want:
        d = {u: (metas.show(got[u]) if u in got else None,
                 metas.show(want[u]) if u in want else None)
             for u in set(got) | set(want) if got.get(u) != want.get(u)}
        raise Violation("wrong tags after the change", got_and_want=d, **info)
    now = snapshot(path)
    for n, v in before.items():
        if n.split(".")[0] in touched:
            continue
        if now.get(n) != v:
            raise Violation("something not selected was changed", file=n, **info)
    if set(now) - set(before):
        raise Violation("new files", files=sorted(set(now) - set(before)), **info)


def setup(path, rng, jobname=None):
    os.makedirs(path, exist_ok=True)
    metas.clear(path)
    revs = make(rng, rng.choice([0, 1, 2, 4, 7]))
    for r in revs:
        if rng.random() < 0.3:
            r["tags"] = set(rng.choice([[], ["daily"], ["nope"], ["daily", "weekly"]]))
        r["orig_tags"] = set(r["tags"]) if r["server"] else set()
        metas.write(path, r)
    with open(os.path.join(path, "config"), "w") as f:
        yaml.safe_dump({"path": path, "source": {"type": "file", "filename": "/dev/null"},
                        "schedule": SCHEDULE}, f)


def model_of(disk):
    return [dict(r) for r in disk.values()]


def ask(rng, disk):
    """A random change -> dict"""
    revs = model_of(disk)
    revs.sort(key=lambda r: r["timestamp"])
    r = rng.random()
    if r < 0.5 or not revs:
        spec, _ = Gen(rng, revs, UTC).spec()
    elif r < 0.9:
        spec = ",".join(x["uuid"] for x in rng.sample(
            revs, rng.randrange(1, min(3, len(revs)) + 1)))
    else:
        spec = None
    sel = answer(Model(revs, UTC), "all" if spec is None else spec)
    tags = set(rng.sample(TAGS[:6 if rng.random() < 0.4 else 5], rng.randrange(1, 4)))
    if rng.random() < 0.4:
        tags &= set(TAGS[:5])
    if rng.random() < 0.1:
        tags |= {rng.choice(TAGS)}
    tags = tags or {"daily"}
    expect = None
    if rng.random() < 0.5:
        if sel and rng.random() < 0.7:
            expect = set(disk[rng.choice(sel)]["tags"])
        else:
            expect = {rng.choice(TAGS), "daily"}
        expect = expect or None
    a = dict(spec=spec, sel=sel, tags=tags, expect=expect,
             action=rng.choice(["set", "add", "remove", "remove"]),
             force=rng.random() < 0.5, autoremove=rng.random() < 0.5)
    if a["action"] == "remove" and sel and rng.random() < 0.4:
        a["tags"] = set().union(*(disk[u]["tags"] for u in sel)) or a["tags"]
    return a


def refusal(a, disk):
    if a["sel"] is None:
        return "spec"
    if not a["force"] and a["action"] != "remove" and any(
            t not in SCHEDULE and not t.startswith("manual:") for t in a["tags"]):
        return "unknown_tag"
    if a["expect"] is not None and any(disk[u]["tags"] != a["expect"] for u in a["sel"]):
        return "expect"
    return None


def argv(a, rng):
    sep = rng.choice([",", ", "])
    out = ["tags"]
    if a["autoremove"]:
        out.append("--autoremove")
    if a["force"]:
        out.append(rng.choice(["-f", "--force"]))
    if a["expect"] is not None:
        t = sorted(a["expect"])
        rng.shuffle(t)
        out += ["--expect", sep.join(t)]
    if a["spec"] is not None:
        out += ["--revision=" + a["spec"]]
    t = sorted(a["tags"])
    rng.shuffle(t)
    return out + [a["action"], sep.join(t)]


def observe(rep, how, a, why, disk, want):
    rep.count("evaluations")
    rep.count("applied" if why is None else "refused_" + why)
    if why is None:
        if a["force"] and any(t not in SCHEDULE and not t.startswith("manual:")
                              for t in a["tags"]) and a["action"] != "remove":
            rep.count("forced")
        if set(want) != set(disk):
            rep.count("autoremoved")
        elif a["autoremove"] and a["sel"]:
            rep.count("autoremove_kept")
        if any(disk[u]["server"] and not want[u]["tags"] and disk[u]["tags"]
               for u in want):
            rep.count("remote_emptied")
    rep.distinct(how, a["action"], a["force"], a["expect"] is not None, a["autoremove"],
                 None if a["sel"] is None else min(len(a["sel"]), 2),
                 a["sel"] is not None and len(a["sel"]) == len(disk), why,
                 len(disk) - len(want))


def cli(spec, rep):
    from vf.checks.c14 import backy_main

    rng = random.Random(spec["seed"])
    path = os.path.join(spec["dir"], "repo")
    os.makedirs(path)
    for k in range(spec["n"]):
        if k % 10 == 0:
            setup(path, rng)
        disk = metas.read(path)
        before = snapshot(path)
        a = ask(rng, disk)
        why = refusal(a, disk)
        args = argv(a, rng)
        info = dict(args=args, refused=why, selected=a["sel"],
                    revisions=[metas.show(r) for r in disk.values()])
        lock = None
        if rng.random() < 0.05:
            lock = open(os.path.join(path, ".backup"), "a+b")
            fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
        rc = backy_main("-C", path, *args)
        if lock:
            lock.close()
            rep.count("locked")
            if rc == 0:
                raise Violation("tags were changed during a backup", **info)
            judge(path, before, disk, set(), info)
            continue
        if bool(rc) != bool(why):
            raise Violation("wrong exit status of tags", rc=rc, **info)
        want = disk if why else change(disk, a["sel"], a["action"], a["tags"],
                                       a["autoremove"])
        judge(path, before, want, () if why else set(a["sel"]), info)
        observe(rep, "cli", a, why, disk, want)
        rep.sample = rep.sample or dict(args=args, refused=why)


# -- through a daemon


def api(c):
    from vf.live import Live

    rng = c.rng
    L = Live(c, schedules={"default": SCHEDULE}, jobs={
        n: {"schedule": "default", "source": {"type": "file", "filename": "/dev/null"}}
        for n in ("act0", "act1", "act2")})
    names = ["act0", "act1", "act2", "dead0", "dead1"]
    P = {n: os.path.join(L.base, n) for n in names}
    for n in names:
        setup(P[n], rng)
        if n.startswith("act"):
            os.unlink(os.path.join(P[n], "config"))
            # nothing is due while we look
            metas.write(P[n], dict(
                uuid=metas.new_uuid(rng), tags=set(SCHEDULE), timestamp=L.now
                - datetime.timedelta(minutes=1)))
    L.start()
    try:
        for k in range(c.spec["n"]):
            if rng.random() < 0.2:
                jobs(c, L, rng, P)
            else:
                put(c, L, rng, P)
            if k % 10 == 5:
                race(c, L, rng, P)
            if k % 12 == 11:
                for n in ("dead0", "dead1"):
                    setup(P[n], rng)
    finally:
        L.kill()


def put(c, L, rng, P):
    name = rng.choice(["dead0", "dead1"])
    disk = metas.read(P[name])
    revs = sorted(model_of(disk), key=lambda r: r["timestamp"])
    kind = rng.choice(["good", "good", "good", "good", "stale", "stale", "unknown",
                       "bad", "active", "nowhere", "locked", "spec", "unauthorized"])
    if kind == "spec" or not revs:
        # not only an identifier
        while True:
            spec, _ = Gen(rng, revs, UTC).spec()
            sel = answer(Model(revs, UTC), spec)
            if sel and "/" not in spec:
                break
            if not revs:
                spec, sel, kind = metas.new_uuid(rng), None, "unknown"
                break
    elif kind == "unknown":
        spec, sel = metas.new_uuid(rng), None
    else:
        spec = rng.choice(revs)["uuid"]
        sel = [spec]
    new = set(rng.sample(TAGS, rng.randrange(0, 4)))
    old = set(disk[sel[0]]["tags"]) if sel else {"daily"}
    if kind == "stale":
        old ^= {rng.choice(TAGS)}
    a = dict(spec=spec, sel=sel, tags=new, expect=old, action="set", force=True,
             autoremove=rng.random() < 0.5)
    why = refusal(a, disk)
    body = {"old_tags": sorted(old), "new_tags": sorted(new)}
    if rng.random() < 0.2:
        body["old_tags"] = body["old_tags"][::-1] * 2
    status = {"spec": 404, "expect": 412, None: 204}[why]
    target, token = name, ""
    if kind == "bad":
        del body[rng.choice(list(body))]
        status = 400
    elif kind == "active":
        target, status = "act0", 403
    elif kind == "nowhere":
        target, status = "nobody", 404
    elif kind == "unauthorized":
        token, status = rng.choice(["wrong", None]), 401
    before = {n: snapshot(P[n]) for n in P}
    lock = None
    if kind == "locked":
        lock = open(os.path.join(P[name], ".backup"), "a+b")
        fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
        status = 503
    q = {True: "?autoremove=1", False: rng.choice(["", "?autoremove=0"])}[a["autoremove"]]
    st, out = L.http("PUT", "/v1/backups/%s/revs/%s/tags%s" % (target, quote(spec), q),
                     body=body, token=token)
    if lock:
        lock.close()
    info = dict(kind=kind, name=target, spec=spec, body=body, query=q, status=st,
                expected=status)
    if st != status:
        raise Violation("wrong status of a tag update", **info)
    c.count("api_%d" % st)
    want = disk if status != 204 else change(disk, sel, "set", new, a["autoremove"])
    judge(P[name], before[name], want, set(sel) if status == 204 else (), info)
    for n in P:
        if n != name and snapshot(P[n]) != before[n]:
            raise Violation("another backup was changed", other=n, **info)
    why = {204: None}.get(status, str(status))
    observe(c, "api", a, None if status == 204 else str(status), disk, want)


def race(c, L, rng, P):
    """Several updates from the same expectation: one wins."""
    name = rng.choice(["dead0", "dead1"])
    disk = metas.read(P[name])
    if not disk:
        return
    u = rng.choice(sorted(disk))
    before = snapshot(P[name])
    old = sorted(disk[u]["tags"])
    res, procs = {}, {}
    n = rng.randrange(2, 6)
    tag = "manual:w%d-" % rng.randrange(10**9)

    def one(k):
        try:
            res[k] = L.http("PUT", "/v1/backups/%s/revs/%s/tags" % (name, u),
                            body={"old_tags": old, "new_tags": [tag + str(k)]})[0]
        except Exception as e:
            res[k] = repr(e)

    if old:
        for k in range(n, n + 2):
            procs[k] = L.z.start("backy", "-C", P[name], "tags", "--expect", ",".join(old),
                                 "-r", u, "set", tag + str(k), env=L.env, cwd=L.base)
    ts = [threading.Thread(target=one, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k, p in procs.items():
        res[k] = 204 if p.wait(60) == 0 else 412
        p.close()
    won = [k for k in res if res[k] == 204]
    info = dict(results=res, revision=u, old=old)
    if len(won) > 1 or any(s not in (204, 412, 503) for s in res.values()):
        raise Violation("racing tag updates with the same expectation", **info)
    # they can only have been refused by each other
    if not won and not procs:
        raise Violation("no one wins a race of tag updates", **info)
    want = disk if not won else change(disk, [u], "set", {tag + str(won[0])}, False)
    judge(P[name], before, want, {u} if won else (), info)
    c.count("cas_races")
    c.count("evaluations")
    c.distinct("race", len(res), len(won))


def jobs(c, L, rng, P):
    """The command for several jobs."""
    names = ["act0", "act1", "act2"]
    flt, hit = rng.choice([("", names), ("act", names), ("0|2", ["act0", "act2"]),
                           ("^act1$", ["act1"]), ("dead", [])])
    disks = {n: metas.read(P[n]) for n in names}
    before = {n: snapshot(P[n]) for n in P}
    n0 = rng.choice(hit or names)
    a = ask(rng, disks[n0])
    # what it means in each of them
    per, why = {}, {}
    for n in names:
        b = dict(a)
        revs = sorted(model_of(disks[n]), key=lambda r: r["timestamp"])
        b["sel"] = answer(Model(revs, UTC), "all" if a["spec"] is None else a["spec"])
        why[n] = refusal(b, disks[n])
        per[n] = disks[n] if why[n] or n not in hit else change(
            disks[n], b["sel"], a["action"], a["tags"], a["autoremove"])
    args = argv(a, rng)
    rc, out, err = L.cli(*(["-a"] if hit == names else ["--jobs", flt]), *args)
    bad = not hit or any(why[n] for n in hit)
    info = dict(args=args, filter=flt, rc=rc, refused=why, err=err[-600:])
    if bool(rc) != bad:
        raise Violation("wrong exit status for several jobs", **info)
    # an error ends the command, what was done before stays
    hard = any(why[n] in ("spec", "unknown_tag") for n in hit)
    for n in names:
        got = metas.read(P[n])
        if n in hit and hard and got == disks[n]:
            continue
        judge(P[n], before[n], per[n], set(disks[n]) if n in hit else (),
              dict(job=n, **info))
    for n in P:
        if n not in hit and snapshot(P[n]) != before[n]:
            raise Violation("another job was changed", other=n, **info)
    c.count("many_jobs")
    c.count("evaluations")
    c.distinct("jobs", a["action"], len(hit), sorted(str(why[n]) for n in hit))
