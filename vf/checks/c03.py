"""C03: garbage collection removes exactly what is not needed."""
import os

from vf import sched
from vf.core import Inconclusive, Violation
from vf.repo import CHUNK, World, blob, load, mutate_image, save

PROPERTY = "C03"
LEVEL = "exploration"
TECHNIQUE = (
    "reachability oracle over the real store after real collections, and "
    "controlled interleavings of gc, verify and expiry with backups"
)
NOTE = (
    "Races are explored by stopping one command before a file system event and "
    "running the other to its end; two preemptions are not explored."
)
RULE = (
    "one evaluation = one collection judged (chunks on disk against chunks "
    "referred to, and all restores); distinct = (kind of case, what ran, event "
    "at which it was interrupted, outcome of both)"
)
MUST_SEE = ["gc_alone", "orphans_removed", "overlaps", "gc_refused",
            "backup_during_gc"]

PAIRS = [
    # (stopped command, its process, the other one)
    ("gc", "backy-rbd", "backup"),
    ("gc", "backy", "backup"),
    ("backup", "backy-rbd", "gc"),
    ("backup", "backy", "gc"),
    ("verify", "backy-rbd", "backup"),
    ("backup", "backy-rbd", "verify"),
    ("expire", "backy-rbd", "backup"),
    ("expire", "backy", "backup"),
    ("backup", "backy-rbd", "expire"),
    ("gc", "backy-rbd", "restore"),
    ("restore", "backy-rbd", "gc"),
    ("gc", "backy-rbd", "gc"),
    ("verify", "backy-rbd", "gc"),
    ("gc", "backy-rbd", "verify"),
    ("backup", "backy-rbd", "rm+gc"),
    ("gc", "backy-rbd", "rm+gc"),
]


def cases(tier, rng):
    q = tier == "quick"
    out = [{"kind": "alone", "i": i} for i in range(16 if q else 120)]
    for a, prog, b in PAIRS:
        for i in range(2 if q else 8):
            out.append({"kind": "race", "a": a, "prog": prog, "b": b, "i": i,
                        "points": 8 if q else 25})
    rng.shuffle(out)
    return out


def referred(w):
    need = set()
    for r in w.revs():
        if r.get("server"):
            continue
        p = os.path.join(w.path, r["uuid"])
        if os.path.exists(p):
            need |= set(w.map_of(r["uuid"])["mapping"].values())
    return need


def orphan(w, rng):
    h = "%032x" % rng.getrandbits(128)
    if rng.random() < 0.5 and w.chunks():
        # next to an existing one
        o = sorted(w.chunks())[0]
        h = o[:31] + ("0" if o[31] != "0" else "1")
    with open(w.chunk_file(h), "wb") as f:
        f.write(b"whatever")
    return h


def foreign(w, rng):
    """A revision pulled from another server: metadata only."""
    import datetime

    import yaml

    u = "remote%d" % rng.randrange(10**9)
    with open(os.path.join(w.path, u + ".rev"), "w") as f:
        yaml.safe_dump(
            dict(uuid=u, timestamp=w.clock - datetime.timedelta(minutes=1),
                 parent="", stats={"bytes_written": 1, "duration": 1.5},
                 trust="trusted", tags=["daily"], orig_tags=["daily"],
                 server="otherhost"), f)


def judge(w, c, what, trace):
    """gc alone, then exactness and restorability."""
    before = w.chunks()
    rc, out, err = w.backy("gc")
    if rc:
        raise Violation("gc alone failed " + what, err=err[-2000:],
                        log=w.log_tail(), trace=trace)
    c.count("gc_alone")
    need, have = referred(w), w.chunks()
    c.count("evaluations")
    if before - have:
        c.count("orphans_removed", len(before - have))
    if need - have:
        raise Violation("chunks of present revisions are missing " + what,
                        missing=sorted(need - have)[:5], trace=trace)
    if have - need:
        raise Violation("unneeded chunks left after gc " + what,
                        left=sorted(have - need)[:5], trace=trace)
    for r in w.revs():
        if not r.get("server") and w.complete(r):
            w.check_restore(r["uuid"], what="after gc " + what)


def run(c):
    (alone if c.spec["kind"] == "alone" else race)(c)


def alone(c):
    rng = c.rng
    w = World(c, image_size=rng.choice([CHUNK, 2 * CHUNK + 512, 4 * CHUNK]))
    w.rbd.write(w.spec, 0, blob(rng, CHUNK))
    trace = []
    for step in range(5):
        for _ in range(rng.randrange(1, 3)):
            mutate_image(w, rng)
            if rng.random() < 0.2 and w.revs():
                # interrupted: leaves an incomplete revision with some chunks
                rc, _, _ = w.backy(
                    "backup", "-f", "daily",
                    env=sched.shim(w, "backy-rbd", kill=rng.randrange(12, 40)))
                trace.append("killed backup")
            else:
                w.backup(rng.choice(["daily", "manual:a"]))
                trace.append("backup")
            w.tick(days=rng.randrange(1, 4))
        if rng.random() < 0.3:
            foreign(w, rng)
            trace.append("foreign")
        for _ in range(rng.randrange(0, 4)):
            orphan(w, rng)
        local = [r for r in w.revs() if not r.get("server")]
        if rng.random() < 0.6 and len(local) > 1:
            u = rng.choice(local)["uuid"]
            w.backy("rm", "-r", u)
            trace.append("rm")
        if rng.random() < 0.2:
            w.tick(days=30)
            w.backy("gc", "--expire", "--local")
            trace.append("expire")
        if rng.random() < 0.2 and local:
            w.backy("distrust", "-r", "local")
            w.backy("verify", "-r", rng.choice(local)["uuid"])
            trace.append("distrust verify")
        for r in w.revs():
            if not os.path.exists(os.path.join(w.path, r["uuid"])) and not r.get("server"):
                # the killed backup did not get far enough
                w.backy("rm", "-r", r["uuid"])
        judge(w, c, "alone", trace)
        c.distinct("alone", tuple(trace[-4:]))
    c.sample(trace)


def argv(w, name):
    if name == "backup":
        return ("backy", "-C", w.path, "backup", "-f", "manual:race")
    if name == "expire":
        return ("backy", "-C", w.path, "gc", "--expire", "--local")
    if name == "verify":
        return ("backy", "-C", w.path, "verify", "-r", "first")
    if name == "restore":
        return ("backy-rbd", "-t", "abcd", "-C", w.path, "restore",
                w.revs()[0]["uuid"], os.path.join(w.case.dir, "out"))
    return ("backy", "-C", w.path, name)


def race(c):
    rng, spec = c.rng, c.spec
    w = World(c, image_size=3 * CHUNK)
    w.rbd.write(w.spec, 0, blob(rng, 2 * CHUNK, "rand"))
    w.backup("daily")
    w.rbd.write(w.spec, rng.randrange(CHUNK), blob(rng, 5000, "rand"))
    w.backup("daily")
    old = w.revs()[-1]["uuid"]
    w.tick(days=rng.choice([1, 60]))
    w.rbd.write(w.spec, CHUNK + rng.randrange(CHUNK), blob(rng, 5000, "rand"))
    w.backup("daily")
    # garbage, also such that the next backup will produce anew
    w.backy("rm", "-r", old)
    orphan(w, rng)
    w.rbd.write(w.spec, 2 * CHUNK, blob(rng, CHUNK, "rand"))
    if rng.random() < 0.5:
        # the new content is what a removed revision had
        h = w.backup("daily")
        w.backy("rm", "-r", h["uuid"])
    if spec["a"] == "verify" or spec["b"] == "verify":
        if rng.random() < 0.5:
            w.backy("distrust", "-r", "local")
    w.tick(minutes=5)
    newest = w.revs()[-1]["uuid"]
    saved = save(w)
    rc, evs, err = sched.trace(w, argv(w, spec["a"]), (spec["prog"],))
    n = max((len(e) for e in evs.values()), default=0)
    if rc or n < 3:
        raise Inconclusive("dry run rc=%s events=%d %s" % (rc, n, err[-500:]))
    ev = max(evs.values(), key=len)
    points = sched.choose(rng, ev, spec["points"])
    for k in points:
        load(w, saved)
        a = sched.Stopped(w, argv(w, spec["a"]), spec["prog"], stop=k)
        if not a.stopped:
            a.p.close()
            continue
        # the other one makes its backup later
        w.tick(minutes=1)
        nrev = len(w.revs())
        b = spec["b"]
        if b.startswith("rm+"):
            w.backy("rm", "-r", newest)
            b = b[3:]
        rca, rcb, waited = sched.overlap(a, w, argv(w, b))
        c.count("overlaps")
        where = "%s:%s" % (ev[k - 1]["kind"], os.path.basename(ev[k - 1]["path"])[:8])
        what = "(%s in %s stopped before %s, %s meanwhile; rc %s and %s)" % (
            spec["a"], spec["prog"], where, spec["b"], rca, rcb)
        trace = [what]
        if spec["b"] == "gc" and rcb:
            c.count("gc_refused")
        if spec["a"] in ("gc", "expire") and spec["b"] == "backup" and rcb == 0:
            c.count("backup_during_gc")
        c.distinct("race", spec["a"], spec["prog"], spec["b"], ev[k - 1]["kind"],
                   rca, rcb, waited)
        c.sample(trace)
        for r in w.revs():
            if w.complete(r):
                w.check_restore(r["uuid"], what=what)
        for r in w.revs():
            if not w.complete(r):
                w.backy("rm", "-r", r["uuid"])
        judge(w, c, what, trace)
