"""C12: expiry removes exactly what the schedule allows."""
import datetime
import os
import random

from vf import inproc, metas
from vf.core import Violation

PROPERTY = "C12"
LEVEL = "exploration"
TECHNIQUE = (
    "offline comparison of the metadata directory before and after real expiry "
    "runs with an independently written model"
)
NOTE = "Histories, schedules and clock values are generated, not exhausted."
RULE = (
    "one evaluation = one expiry run compared with the model; distinct = (tags "
    "in the schedule, largest keep, size of the history, counts of expired tags, "
    "former-schedule tags, removed, and emptied foreign revisions)"
)
MUST_SEE = ["expired", "former", "removed", "emptied_foreign", "at_threshold",
            "young_kept", "by_command", "manual_kept", "incomplete"]
UTC = datetime.timezone.utc
UNITS = [("s", 1), ("m", 60), ("h", 3600), ("d", 86400), ("w", 604800), ("", 1)]
NAMES = ["daily", "weekly", "monthly", "hourly", "test", "a", "ä", "Manual:x"]


def cases(tier, rng):
    n = 64 if tier == "quick" else 400
    return [{"i": i, "n": 30 if tier == "quick" else 80} for i in range(n)]


def duration(rng):
    while True:
        u, f = rng.choice(UNITS)
        n = rng.choice([1, 1, 1, 2, 7, 30, rng.randrange(1, 90), 3600])
        if n * f < 400 * 86400:
            return "%d%s" % (n, u), n * f


def schedule(rng):
    """-> (configuration, {tag: (seconds, keep)})"""
    conf, model = {}, {}
    for t in rng.sample(NAMES, rng.randrange(1, 5)):
        s, secs = duration(rng)
        keep = rng.choice([1, 1, 2, 3, 4, 6])
        conf[t] = {"interval": s, "keep": keep}
        model[t] = (secs, keep)
    return conf, model


def history(rng, model, now, n):
    tags = list(model) + rng.sample(
        [x for x in NAMES if x not in model], 2) + ["manual:keep", "manual:"]
    if rng.random() < 0.3:
        tags = list(model)
    out, seen = [], set()
    dense = rng.random()
    for _ in range(n):
        secs, keep = rng.choice(list(model.values()))
        k = rng.random()
        if k < 0.35:
            age = datetime.timedelta(seconds=keep * secs) + rng.choice([
                datetime.timedelta(0), datetime.timedelta(microseconds=1),
                datetime.timedelta(microseconds=-1),
                datetime.timedelta(seconds=1), datetime.timedelta(seconds=-1)])
        elif k < 0.8:
            age = datetime.timedelta(seconds=rng.random() * keep * secs * 2.5)
        elif k < 0.97:
            age = datetime.timedelta(seconds=rng.random() * 400 * 86400)
        else:
            age = -datetime.timedelta(seconds=rng.random() * 1e6)
        ts = now - age
        if ts in seen:
            continue
        seen.add(ts)
        r = dict(uuid=metas.new_uuid(rng), timestamp=ts,
                 tags={t for t in tags if rng.random() < (0.25 + dense * 0.6) *
                       (0.3 if t.startswith("manual:") else 1)})
        r["trust"] = rng.choice(["trusted", "trusted", "verified", "distrusted"])
        if rng.random() < 0.15:
            r["server"] = rng.choice(["other", "third"])
            r["orig_tags"] = set(r["tags"]) if rng.random() < 0.7 else {"daily"}
        if rng.random() < 0.15:
            r["stats"] = {"bytes_written": rng.randrange(10)}
        else:
            r["stats"] = {"bytes_written": 5, "duration": rng.random() * 99}
        out.append(r)
    return out


def expect(revs, model, now, rep=None):
    """The model: {uuid: metadata} after expiry."""
    cnt = (rep.count if rep else lambda *a: None)
    revs = [metas.norm(r) for r in revs]
    tags = {r["uuid"]: set(r["tags"]) for r in revs}
    for t, (secs, keep) in model.items():
        limit = now - datetime.timedelta(seconds=secs * keep)
        for r in revs:
            if t not in r["tags"]:
                continue
            newer = sum(1 for x in revs if t in x["tags"]
                        and x["timestamp"] > r["timestamp"])
            if newer >= keep:
                if r["timestamp"] < limit:
                    tags[r["uuid"]].discard(t)
                    cnt("expired")
                else:
                    cnt("young_kept")
                    if r["timestamp"] == limit:
                        cnt("at_threshold")
    out = {}
    for r in revs:
        keep = set()
        for t in tags[r["uuid"]]:
            if t in model:
                keep.add(t)
            elif t.startswith("manual:"):
                keep.add(t)
                cnt("manual_kept")
            else:
                cnt("former")
        if not keep:
            if not r["server"]:
                cnt("removed")
                continue
            cnt("emptied_foreign")
        if "duration" not in r["stats"]:
            cnt("incomplete")
        out[r["uuid"]] = dict(r, tags=keep)
    return out


def compare(before, want, path, model, now, others, what):
    got = metas.read(path)
    if got != want:
        for u in sorted(set(got) | set(want)):
            if got.get(u) != want.get(u):
                b = next((metas.show(metas.norm(r)) for r in before
                          if r["uuid"] == u), None)
                raise Violation(
                    "%s: a revision is %s" % (what, "missing" if u not in got else
                                    "still there" if u not in want else "wrong"),
                    before=b, got=got.get(u) and metas.show(got[u]),
                    want=want.get(u) and metas.show(want[u]), model=model,
                    now=str(now), history=[metas.show(metas.norm(r)) for r in before])
    left = sorted(n for n in os.listdir(path) if not n.endswith(".rev"))
    if left != others:
        raise Violation("%s: other files changed" % what,
                        before=others, after=left)


def make(rng, path):
    now = datetime.datetime(2024, 1, 1, tzinfo=UTC) + datetime.timedelta(
        seconds=rng.randrange(10**8), microseconds=rng.choice([0, 0, 123456, 1]))
    conf, model = schedule(rng)
    revs = history(rng, model, now, rng.choice([0, 1, 2, 5, 10, 20, 30]))
    for r in revs:
        metas.write(path, r)
        with open(os.path.join(path, r["uuid"]), "w") as f:
            f.write("{}")
    return now, conf, model, revs


def run(c):
    inproc.call(c, __name__, "inside",
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))
    # the same through the command
    import yaml

    from vf.repo import World

    w = World(c, name="cli")
    for k in range(1):
        metas.clear(w.path)
        now, conf, model, revs = make(c.rng, w.path)
        complete = [r for r in revs if not r.get("server")]
        for r in revs:
            with open(os.path.join(w.path, r["uuid"]), "w") as f:
                f.write('{"mapping": {}, "size": 0}')
        w.schedule = conf
        w.write_config()
        others = sorted(n for n in os.listdir(w.path) if not n.endswith(".rev"))
        want = expect(revs, model, now)
        # the clock of the command runs on
        soon = now + datetime.timedelta(seconds=20)
        if want != expect(revs, model, soon):
            c.count("clock_sensitive")
            return
        w.clock = now
        rc, out, err = w.backy("gc", "--expire", "--local")
        if rc:
            raise Violation("gc --expire --local failed", err=err[-2000:],
                            log=w.log_tail())
        others = sorted(set(others) | {".backup", ".purge", "backy.log",
                                       "quarantine", "chunks"})
        compare(revs, want, w.path, model, now, others, "gc --expire")
        c.count("evaluations")
        c.count("by_command")


def inside(spec, rep):
    from pathlib import Path

    import structlog

    from backy.repository import Repository
    from backy.schedule import Schedule

    rng = random.Random(spec["seed"])
    log = structlog.stdlib.get_logger()
    path = os.path.join(spec["dir"], "repo")
    os.makedirs(path)
    for _ in range(spec["n"]):
        metas.clear(path)
        now, conf, model, revs = make(rng, path)
        metas.Clock(now)
        s = Schedule()
        s.configure(conf)
        repo = Repository(Path(path), s, log)
        repo.connect()
        repo.expire()
        others = sorted(n for n in os.listdir(path) if not n.endswith(".rev"))
        gone = {r["uuid"] for r in revs} - set(others)
        if gone:
            raise Violation("expiry removed data of revisions", uuids=sorted(gone))
        want = expect(revs, model, now, rep)
        compare(revs, want, path, model, now, others, "expiry")
        mem = {r.uuid: set(r.tags) for r in repo.history}
        if mem != {u: r["tags"] for u, r in want.items()}:
            raise Violation("what is in memory differs from the directory after "
                            "expiry", memory={u: sorted(t) for u, t in mem.items()},
                            model=model)
        rep.count("evaluations")
        # once more: nothing left to do, unless time passes
        if rng.random() < 0.3:
            later = now + datetime.timedelta(
                seconds=rng.choice([0, 0, 1, 3600, 86400, 10**7]))
            metas.Clock(later)
            revs = list(want.values())
            want = expect(revs, model, later)
            repo.expire()
            compare(revs, want, path, model, later, others, "second expiry")
            rep.count("evaluations")
            rep.count("repeated")
        rep.distinct(len(model), max(k for _, k in model.values()), len(revs),
                     len(want))
        if rep.sample is None and len(revs) > 4:
            rep.sample = dict(schedule=conf, now=str(now), revisions=len(revs),
                              left=len(want))
