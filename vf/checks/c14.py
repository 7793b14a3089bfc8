"""C14: staleness verdicts of check, the daemon's status and the API."""
import datetime
import os
import random
import sys

from vf import inproc, metas
from vf.checks.c12 import duration
from vf.checks.c13 import grid_next, jobs, make_daemon, schedule, us, EPOCH, US, SEC
from vf.core import Inconclusive, Violation

PROPERTY = "C14"
LEVEL = "exploration"
TECHNIQUE = (
    "online comparison of the verdicts of real check commands, the daemon's status "
    "and a running daemon's API with a model of the metadata on disk"
)
RULE = (
    "one evaluation = one verdict or status entry compared; distinct = (verdict, "
    "position relative to the limit, reports, size of history, pending changes, "
    "incomplete newest)"
)
MUST_SEE = ["too_old", "fine", "no_history", "at_limit", "reports", "incomplete_newest",
            "status_entries", "live_status", "live_check", "pending",
            "reports_deleted_live"]
UTC = datetime.timezone.utc


def cases(tier, rng):
    n = 32 if tier == "quick" else 200
    return [{"i": i, "n": 30 if tier == "quick" else 100,
             "kind": "live" if i % 4 == 3 else "decide"} for i in range(n)]


def run(c):
    if c.spec["kind"] == "live":
        return live(c)
    inproc.call(c, __name__, c.spec["kind"],
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


def make_history(rng, path, now, model, limit, reports=True, exact=True, remotes=True):
    """-> list of written revisions, oldest first"""
    for x in os.listdir(path):
        if x.endswith(".rev"):
            os.unlink(os.path.join(path, x))
    q = os.path.join(path, "quarantine")
    os.makedirs(q, exist_ok=True)
    metas.clear(q)
    n = rng.choice([0, 1, 1, 2, 3, 6])
    out = []
    lim = limit * 1500000  # in us
    for k in range(n):
        ages = [rng.randrange(3 * lim), rng.randrange(lim), lim + rng.randrange(lim)]
        if exact:
            ages += [lim, lim + 1, lim - 1, lim, lim - SEC, lim + SEC]
        else:
            ages = [a for a in ages if abs(a - lim) > 900 * SEC] or [lim + 3600 * SEC]
        age = rng.choice(ages)
        server = rng.choice(["", "", "", "other", "third"]) if remotes else ""
        tags = {t for t in list(model) + ["manual:a", "manual:b", "old"]
                if rng.random() < 0.4}
        if any(r["timestamp"] == now - age * US for r in out):
            continue
        r = dict(uuid=metas.new_uuid(rng), timestamp=now - age * US, tags=tags,
                 server=server, trust=rng.choice(["trusted", "verified", "distrusted"]))
        r["stats"] = {"bytes_written": rng.randrange(10**9),
                      "duration": rng.choice([0.0, 3.25, 599.9, 4000])}
        if rng.random() < 0.25:
            r["stats"] = {"bytes_written": 0}
        if server:
            r["orig_tags"] = set(tags) if rng.random() < 0.5 else {"daily", "z"}
        metas.write(path, r)
        out.append(r)
    out.sort(key=lambda r: r["timestamp"])
    nr = rng.choice([0, 0, 0, 1, 2]) if reports else 0
    for k in range(nr):
        open(os.path.join(q, metas.new_uuid(rng) + ".report"), "w").write("{}\n")
    return out, nr


def complete(r):
    return "duration" in r["stats"]


def verdict(revs, now, limit):
    """-> (too old, age in seconds)"""
    good = [r for r in revs if complete(r)]
    if not good:
        return False, 0
    age = us(now - good[-1]["timestamp"])
    return (True, age / SEC) if age > limit * 1500000 else (False, 0)


def backy_main(*argv):
    """-> exit status of the real command in this process"""
    import backy.cli

    old = sys.argv
    sys.argv = ["backy"] + list(argv)
    try:
        backy.cli.main()
    except SystemExit as e:
        return 0 if e.code is None else e.code
    finally:
        sys.argv = old
        inproc.quiet()
    return 0


def entry(e, revs, nr, now, limit, model, next_time, next_tags, name, status, info):
    good = [r for r in revs if complete(r)]
    old, age = verdict(revs, now, limit)
    want = dict(
        job=name, sla="TOO OLD" if old else "OK", status=status,
        problem_reports=nr,
        unsynced_revs=sum(1 for r in good if r["server"]
                          and r["tags"] != r.get("orig_tags", set())),
        local_revs=sum(1 for r in good if not r["server"]))
    got = {k: e[k] for k in want}
    if got != want:
        raise Violation("wrong status: " + ", ".join(
            k for k in want if got[k] != want[k]), got=got, want=want, **info)
    if abs(e["sla_overdue"] - age) > max(2.0 if info.get("live") else 0, 1e-6 * age):
        raise Violation("wrong overdue time", got=e["sla_overdue"], want=age, **info)
    lt = e["last_time"]
    lt = datetime.datetime.fromisoformat(lt) if isinstance(lt, str) else lt
    if lt != (good[-1]["timestamp"] if good else None):
        raise Violation("wrong time of the last backup", got=str(lt), **info)
    if (e["last_duration"] != (good[-1]["stats"]["duration"] if good else None)):
        raise Violation("wrong duration", got=e["last_duration"], **info)
    tags = good[-1]["tags"] if good else None
    check_tags(e["last_tags"], tags, model, info, "last")
    if next_time is not None:
        nt = e["next_time"]
        nt = datetime.datetime.fromisoformat(nt) if isinstance(nt, str) else nt
        if nt != next_time:
            raise Violation("wrong time of the next backup", got=str(nt),
                            want=str(next_time), **info)
        check_tags(e["next_tags"], next_tags, model, info, "next")
    man = {t for r in good for t in r["tags"] if t.startswith("manual:")}
    if set(filter(None, e["manual_tags"].split(", "))) != man:
        raise Violation("wrong manual tags", got=e["manual_tags"], want=sorted(man), **info)


def check_tags(got, want, model, info, what):
    if want is None or (what == "next" and not want):
        if got is not None:
            raise Violation("%s tags without a backup" % what, got=got, **info)
        return
    lst = got.split(",") if got else []
    if sorted(lst) != sorted(want):
        raise Violation("wrong %s tags" % what, got=got, want=sorted(want), **info)
    iv = [model.get(t, 0) for t in lst]
    if iv != sorted(iv):
        raise Violation("%s tags are not ordered by interval" % what, got=got, **info)


def decide(spec, rep):
    rng = random.Random(spec["seed"])
    for k in range(spec["n"]):
        conf, model = schedule(rng)
        limit = min(model.values())
        spec2 = dict(spec, dir=os.path.join(spec["dir"], "d%d" % k))
        os.makedirs(spec2["dir"])
        now = datetime.datetime(1995, 1, 1, tzinfo=UTC) + datetime.timedelta(
            seconds=rng.randrange(10**9))
        clock = metas.Clock(now)
        d = make_daemon(spec2, {"s": conf}, {"vm": "s", "vm-two": "s"})
        d.jobs = jobs(d)
        for rnd in range(3):
            hist = {}
            for n, j in d.jobs.items():
                hist[n] = make_history(rng, str(j.path), now, model, limit)
            flt = rng.choice([None, "^vm$", "two", "nothing"])
            import re

            names = [n for n in d.jobs if not flt or re.search(flt, n)]
            for n, j in d.jobs.items():
                j.repository.connect()
                j.next_time = rng.choice([None, now + datetime.timedelta(hours=1)])
                j.next_tags = None if j.next_time is None else {
                    t for t in model if rng.random() < 0.7}
                j.status = rng.choice(["waiting for deadline", "running (fast)", ""])
            st = d.status(re.compile(flt) if flt else None)
            if [e["job"] for e in st] != names:
                raise Violation("wrong jobs in the status", got=[e["job"] for e in st],
                                filter=flt)
            for e in st:
                n = e["job"]
                revs, nr = hist[n]
                j = d.jobs[n]
                info = dict(schedule=conf, now=str(now), reports=nr,
                            history=[metas.show(r) for r in revs])
                entry(e, revs, nr, now, limit, model, j.next_time, j.next_tags, n,
                      j.status, info)
                rep.count("status_entries")
                rep.count("evaluations")
            n = rng.choice(list(d.jobs))
            revs, nr = hist[n]
            old, age = verdict(revs, now, limit)
            rc = backy_main("-C", str(d.jobs[n].path), "check")
            want = 2 if old else 1 if nr else 0
            info = dict(schedule=conf, now=str(now), reports=nr,
                        history=[metas.show(r) for r in revs])
            if rc != want:
                raise Violation("check exits with %r instead of %d" % (rc, want), **info)
            good = [r for r in revs if complete(r)]
            rep.count("evaluations")
            rep.count("too_old" if old else "fine")
            if not good:
                rep.count("no_history")
            diff = us(now - good[-1]["timestamp"]) - limit * 1500000 if good else None
            if diff == 0:
                rep.count("at_limit")
            if nr:
                rep.count("reports")
            if revs and not complete(revs[-1]):
                rep.count("incomplete_newest")
            pend = any(r["server"] and r["tags"] != r.get("orig_tags") for r in revs)
            if pend:
                rep.count("pending")
            pos = None if diff is None else max(-2, min(2, diff))
            rep.distinct(want, pos, min(nr, 1), min(len(good), 3), pend,
                         bool(revs) and not complete(revs[-1]), rc)
            rep.sample = rep.sample or dict(info, rc=rc)


def live(c):
    """A running daemon whose backups fail, so that the past stays as it is."""
    from vf import rbdfake
    from vf.live import Live

    rng = c.rng
    d = os.path.join(c.dir, "ceph")
    os.makedirs(d)
    rbd = rbdfake.State(d)
    rbd.jwrite("conf.json", {})
    scheds, models = {}, {}
    for s in ("one", "two"):
        while True:
            conf, model = schedule(rng, small=True)
            if min(model.values()) >= 7200:
                break
        scheds[s], models[s] = conf, model
    names = {"vm%02d" % i: rng.choice(["one", "two"]) for i in range(5)}
    now = datetime.datetime(2024, 1, 1, tzinfo=UTC) + datetime.timedelta(
        seconds=rng.randrange(10**7))
    # no job may become due while we look
    L = Live(c, schedules=scheds, now=now, env={"VF_RBD": d},
             jobs={n: {"source": {"type": "rbd", "pool": "rbd", "image": "gone-" + n},
                       "schedule": s} for n, s in names.items()})
    hist = {}
    for n, s in names.items():
        path = os.path.join(L.base, n)
        os.makedirs(path)
        lim = min(models[s].values())
        hist[n] = make_history(rng, path, now, models[s], lim, exact=False,
                               remotes=False)
    L.start()
    try:
        st = L.wait_for(lambda s: all(
            j["status"] == "waiting for deadline" for j in s.values()), what="all waiting")
        for n, s in names.items():
            e, (revs, nr), model = st[n], hist[n], models[s]
            lim = min(model.values())
            # what was incomplete was removed by the attempt to make a backup
            info = dict(live=True, schedule=scheds[s], now=str(now), reports=nr,
                        history=[metas.show(r) for r in revs], entry=e)
            entry(e, revs, nr, now, lim, model, None, None, n, "waiting for deadline",
                  info)
            nt = us(datetime.datetime.fromisoformat(e["next_time"]) - EPOCH)
            n0 = us(now - EPOCH)
            good = [r for r in revs if complete(r)]
            old, _ = verdict(revs, now, lim)
            if old and not n0 <= nt <= n0 + 300 * SEC:
                raise Violation("an outdated job is not retried soon", **info)
            if not old and nt > n0 + max(300, lim) * SEC + 60 * SEC:
                raise Violation("the next backup is too far away", **info)
            c.count("live_status")
            c.count("evaluations")
        def cli_check(pat, sel):
            want = 0
            for n in sel:
                revs, nr = hist[n]
                old, _ = verdict(revs, now, min(models[names[n]].values()))
                want = max(want, 2 if old else 1 if nr else 0)
            a = ["-a"] if pat == ".*" else ["--jobs", pat]
            rc, out, err = L.cli(*a, "check")
            if rc != want:
                raise Violation("check of %s exits with %d instead of %d" % (pat, rc, want),
                                err=err[-1500:], jobs=names)
            c.count("live_check")
            c.count("evaluations")
            c.distinct("live", want, len(sel))
        cli_check(".*", list(names))
        for n in names:
            cli_check("^%s$" % n, [n])
        cli_check("vm0[012]", ["vm00", "vm01", "vm02"])
        rc, out, err = L.cli("-a", "show-jobs")
        if rc or ("%d jobs shown" % len(names)).encode() not in out:
            raise Violation("show-jobs does not show all jobs", rc=rc, out=out.decode()[-500:])
        # reports that come and go are seen at once
        n = rng.choice(list(names))
        q = os.path.join(L.base, n, "quarantine")
        revs, nr = hist[n]
        if nr:
            rc, out, err = L.cli("-C", os.path.join(L.base, n), "reports-delete",
                                 "--all-reports")
            nr = 0
        else:
            open(os.path.join(q, metas.new_uuid(rng) + ".report"), "w").write("{}\n")
            nr = 1
        hist[n] = revs, nr
        c.count("reports_deleted_live")
        e = L.status()[n]
        if e["problem_reports"] != nr:
            raise Violation("the status counts problem reports wrongly",
                            got=e["problem_reports"], want=nr)
        cli_check("^%s$" % n, [n])
        c.sample(dict(jobs=names, status=st))
    finally:
        L.kill()
