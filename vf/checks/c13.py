"""C13: next backup times, spread and catching up."""
import datetime
import os
import random

from vf import inproc, metas
from vf.checks.c12 import duration
from vf.core import Violation

PROPERTY = "C13"
LEVEL = "exploration"
TECHNIQUE = (
    "online comparison of every scheduling decision with integer arithmetic, and "
    "a monitor of backup ages over simulated months with outages"
)
NOTE = (
    "Decisions are compared exactly for clock values in whole seconds, and up to "
    "20 microseconds otherwise (the code computes with floats since year 1)."
)
RULE = (
    "one evaluation = one scheduling decision compared; distinct = (number of "
    "tags, missing tags, whether immediate, size class of history, position "
    "relative to the grid)"
)
MUST_SEE = ["immediate", "regular", "regular_soon", "no_history", "on_grid",
            "with_missing_tags", "simulated_backups", "outages", "jobs", "restarts"]
UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1, 1, 1, tzinfo=UTC)
US = datetime.timedelta(microseconds=1)
SEC = 10**6


def us(d):
    return d // US


def cases(tier, rng):
    n = 48 if tier == "quick" else 240
    return [{"i": i, "n": 120 if tier == "quick" else 500,
             "kind": ["decide", "decide", "simulate", "spread"][i % 4]}
            for i in range(n)]


def run(c):
    inproc.call(c, __name__, c.spec["kind"],
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


def schedule(rng, small=False):
    conf, model = {}, {}
    for t in rng.sample(["daily", "weekly", "monthly", "hourly", "x", "manual:q"],
                        rng.randrange(1, 5)):
        while True:
            s, secs = duration(rng)
            if not small or 1800 <= secs <= 40 * 86400:
                break
        conf[t] = {"interval": s, "keep": rng.randrange(1, 5)}
        model[t] = secs
    return conf, model


def grid_next(now, secs, spread):
    """First grid point after now; all in microseconds since year 1."""
    i = secs * SEC
    off = spread * SEC % i
    return (now - off) // i * i + i + off


def want(now, model, spread, last, history):
    """-> set of acceptable (time, tags)"""
    pts = {t: grid_next(now, s, spread) for t, s in model.items()}
    first = min(pts.values())
    tags = {t for t, p in pts.items() if p == first}
    missing = {t for t, s in model.items()
               if t not in last or last[t] <= now - s * SEC}
    if missing and history and first > now + 300 * SEC:
        return now, missing, missing, first
    return first, tags | missing, missing, first


def make_repo(spec, conf):
    import structlog
    from pathlib import Path

    from backy.repository import Repository
    from backy.schedule import Schedule

    s = Schedule()
    s.configure(conf)
    path = os.path.join(spec["dir"], "repo")
    os.makedirs(path, exist_ok=True)
    metas.clear(path)
    return Repository(Path(path), s, structlog.stdlib.get_logger()), path


def near(now, rng, model, spread):
    """A moment close to something interesting."""
    t = rng.choice(sorted(model))
    p = grid_next(us(now - EPOCH), model[t], spread)
    p += rng.choice([0, -1, 1, -300, -301, -299, -model[t]]) * SEC
    return EPOCH + p * US


def decide(spec, rep):
    rng = random.Random(spec["seed"])
    for _ in range(spec["n"]):
        conf, model = schedule(rng)
        repo, path = make_repo(spec, conf)
        now = datetime.datetime(1995, 1, 1, tzinfo=UTC) + datetime.timedelta(
            seconds=rng.randrange(2 * 10**9))
        big = max(model.values())
        spread = rng.choice([0, 1, rng.randrange(big + 1), big, rng.randrange(10**9)])
        if rng.random() < 0.6:
            now = near(now, rng, model, spread)
        fine = rng.random() < 0.2
        if fine:
            now += rng.randrange(10**6) * US
        last, n = {}, rng.choice([0, 1, 1, 2, 4, 8])
        for _ in range(n):
            t = rng.choice(sorted(model))
            age = rng.choice([
                model[t] * SEC, model[t] * SEC + 1, model[t] * SEC - 1,
                rng.randrange(3 * model[t] * SEC), rng.randrange(2 * big * SEC)])
            r = dict(uuid=metas.new_uuid(rng), timestamp=now - age * US,
                     tags={x for x in list(model) + ["manual:a", "old"]
                           if rng.random() < 0.5} | {t},
                     server=rng.choice(["", "", "", "other"]))
            complete = rng.random() < 0.8
            if not complete:
                r["stats"] = {"bytes_written": 0}
            metas.write(path, r)
            if complete:
                for x in r["tags"]:
                    last[x] = max(last.get(x, 0), us(r["timestamp"] - EPOCH))
        metas.Clock(now)
        repo.connect()
        got, tags = repo.schedule.next(now, spread, repo)
        n0 = us(now - EPOCH)
        t, w, missing, first = want(n0, model, spread, last, n)
        info = dict(now=str(now), schedule=conf, spread=spread, got=[str(got), sorted(tags)],
                    want=[str(EPOCH + t * US), sorted(w)], missing=sorted(missing),
                    history=n)
        g = us(got - EPOCH)
        ok = (g == t and set(tags) == w)
        if not ok and fine:
            # the float quantum
            for d in range(-20, 21):
                t2, w2, _, _ = want(n0 + d, model, spread, last, n)
                if abs(g - t2) <= 20 and set(tags) == w2:
                    ok = True
        if not ok:
            raise Violation("wrong scheduling decision", **info)
        if g < n0 or (g == n0 and not missing):
            raise Violation("scheduled in the past", **info)
        rep.count("evaluations")
        rep.count("immediate" if t == n0 else "regular")
        if missing:
            rep.count("with_missing_tags")
            if n and t != n0:
                rep.count("regular_soon")
            if not n:
                rep.count("no_history")
        if any(grid_next(n0 - 1, s, spread) == n0 for s in model.values()):
            rep.count("on_grid")
        rep.distinct(len(model), len(missing), t == n0, min(n, 2),
                     min(first - n0, 301 * SEC) // (100 * SEC), fine)
        rep.sample = rep.sample or info


def make_daemon(spec, conf, names):
    import structlog
    import yaml
    from pathlib import Path

    from backy.daemon import BackyDaemon

    base = os.path.join(spec["dir"], "base")
    os.makedirs(base, exist_ok=True)
    cf = os.path.join(spec["dir"], "backy.conf")
    with open(cf, "w") as f:
        yaml.safe_dump(
            {"global": {"base-dir": base}, "schedules": conf,
             "jobs": {n: {"source": {"type": "rbd", "pool": "p", "image": n},
                          "schedule": s} for n, s in names.items()}}, f)
    d = BackyDaemon(Path(cf), structlog.stdlib.get_logger())
    d._read_config()
    return d


def jobs(d):
    from backy.daemon.scheduler import Job

    out = {}
    for n, c in d.config["jobs"].items():
        j = Job(d, n, d.log)
        j.configure(c)
        out[n] = j
    return out


def spread(spec, rep):
    """The same grid after restarts, another one for other jobs, and even."""
    rng = random.Random(spec["seed"])
    conf, model = schedule(rng)
    big = max(model.values())
    names = {"vm%d-%d" % (rng.randrange(10**6), i): "s" for i in range(80)}
    seen = []
    now = datetime.datetime(2024, 1, 1, tzinfo=UTC) + datetime.timedelta(
        seconds=rng.randrange(10**8))
    clock = metas.Clock(now)
    for _ in range(2):
        clock.t = now
        d = make_daemon(spec, {"s": conf}, names)
        js = jobs(d)
        pts = {}
        for n, j in js.items():
            x = []
            for k in range(4):
                t, _ = j.schedule.next(clock.t, j.spread, j.repository)
                x.append(t)
                clock.t = t
            pts[n] = x
            clock.t = now
            rep.count("jobs")
        seen.append(pts)
        rep.count("restarts")
        rep.count("evaluations", len(js))
        random.random()
    if seen[0] != seen[1]:
        raise Violation("the times of backups change with a restart",
                        first=str(seen[0])[:1000], second=str(seen[1])[:1000])
    i = min(model.values())
    if i >= 3600:
        # where within the smallest interval, in tenths
        bins = [0] * 8
        for x in seen[0].values():
            bins[us(x[0] - EPOCH) % (i * SEC) * 8 // (i * SEC)] += 1
        if max(bins) > 28 or bins.count(0) > 1:
            raise Violation("backups of different jobs are not spread over the "
                            "interval", bins=bins, interval=i)
        rep.count("spread_measured")
    rep.distinct("spread", len(model), big)
    rep.sample = dict(schedule=conf, jobs=len(names))


def simulate(spec, rep):
    """Months of one job: every tag gets a backup in time."""
    rng = random.Random(spec["seed"])
    conf, model = schedule(rng, small=True)
    d = make_daemon(spec, {"s": conf}, {"vm": "s"})
    j = jobs(d)["vm"]
    path = str(j.path)
    now = datetime.datetime(2024, 1, 1, tzinfo=UTC) + datetime.timedelta(
        seconds=rng.randrange(10**8))
    clock = metas.Clock(now)
    begin = now
    run_for = min(model.values()) * 0.05
    slack = datetime.timedelta(seconds=run_for + 300 + 1)
    last = {}
    up_since = now  # when outages ended
    end = now + datetime.timedelta(seconds=min(model.values()) * spec["n"])
    trace = []
    while clock.t < end:
        j.repository.connect()
        t, tags = j.schedule.next(clock.t, j.spread, j.repository)
        if t < clock.t or not tags:
            raise Violation("next backup in the past or without tags",
                            now=str(clock.t), next=str(t), tags=sorted(tags))
        trace.append((str(t), sorted(tags)))
        if t - clock.t > datetime.timedelta(seconds=min(model.values())) + US:
            raise Violation("next backup is more than the smallest interval away",
                            now=str(clock.t), next=str(t), schedule=conf)
        clock.t = max(clock.t, t)
        # every tag had a backup, or the chance for one, within its interval
        for x, s in model.items():
            since = max(last.get(x, begin), up_since)
            if clock.t - since > datetime.timedelta(seconds=s) + slack and x not in tags:
                raise Violation("a tag got no backup in time", tag=x,
                                last=str(last.get(x)), now=str(clock.t),
                                up_since=str(up_since), schedule=conf,
                                trace=trace[-20:])
        rep.count("evaluations")
        if rng.random() < 0.04:
            # down for some time
            clock.tick(seconds=rng.choice([0.3, 1.2, 5]) * rng.choice(list(model.values())))
            up_since = clock.t
            end = max(end, clock.t + datetime.timedelta(seconds=2 * min(model.values())))
            if clock.t > end + datetime.timedelta(days=4000):
                break
            rep.count("outages")
            continue
        r = dict(uuid=metas.new_uuid(rng), timestamp=clock.t, tags=set(tags))
        clock.tick(seconds=rng.random() * run_for)
        metas.write(path, r)
        for x in tags:
            last[x] = r["timestamp"]
        j.repository.expire()
        rep.count("simulated_backups")
        rep.distinct("sim", tuple(sorted(tags)), len(model))
    rep.sample = dict(schedule=conf, first=trace[:5])
