"""C01: restore returns what was snapshotted."""
import os
import random

from vf.core import Violation
from vf.repo import CHUNK, World, blob, mutate_image

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "one evaluation = one restore compared with the fake Ceph's copy of the "
    "snapshot; distinct = (image size class, full/diff, parent age, number of "
    "chunks, restore method) of the restored revision"
)
MUST_SEE = ["backups", "restores", "full", "diff", "grown", "shrunk",
            "shared_chunks", "stdout", "prefilled"]


def cases(tier, rng):
    n = 40 if tier == "quick" else 320
    return [{"i": i, "steps": 14 if tier == "quick" else 24,
             "real": i == 0} for i in range(n)]


def run(c):
    rng = c.rng
    conf = {
        "release": rng.choice(["nautilus", "luminous", "jewel"]),
        "whole": rng.choice([True, False, False, None]),
        "gran": rng.choice([4096, 65536, 1 << 20]),
        "trim": rng.random() < 0.5,
        "merge": rng.random() < 0.7,
        "zero": rng.random() < 0.8,
        "spurious": rng.choice([0, 0, 0.05, 0.3]),
        "seed": rng.randrange(1 << 30),
    }
    size = rng.choice([512, CHUNK - 512, CHUNK, CHUNK + 512, 2 * CHUNK,
                       3 * CHUNK + 4096, 5 * CHUNK])
    w = World(c, image_size=size, conf=conf)
    if rng.random() < 0.15:
        w.source["full-always"] = True
        w.write_config()
    w.rbd.write(w.spec, 0, blob(rng, rng.randrange(1, size + 1)))
    trace = [("size", size), ("conf", conf)]
    alive = {}
    for step in range(c.spec["steps"]):
        k = rng.random()
        if k < 0.5 or not alive:
            old = w.rbd.meta(w.spec)["size"]
            ops = mutate_image(w, rng)
            new = w.rbd.meta(w.spec)["size"]
            if alive and new > old:
                c.count("grown")
            if alive and new < old:
                c.count("shrunk")
            n0 = len(w.rbd.read_log())
            r = w.backup(rng.choice(["daily", "weekly,daily", "manual:x"]))
            log = w.rbd.read_log()[n0:]
            kind = ("diff" if any(e["ev"] == "call" and e["cmd"][0] == "export-diff"
                                  for e in log) else "full")
            c.count(kind)
            alive[r["uuid"]] = (new, kind)
            trace.append(("backup", r["uuid"], kind, ops))
            check(w, rng, r["uuid"], alive, trace)
        elif k < 0.6:
            u = rng.choice(list(alive))
            if len(alive) > 1:
                rc, _, err = w.backy("rm", "-r", u)
                if rc:
                    raise Violation("rm failed", err=err)
                del alive[u]
                trace.append(("rm", u))
        elif k < 0.7:
            rc, _, err = w.backy("gc")
            if rc:
                raise Violation("gc failed", err=err, log=w.log_tail())
            trace.append(("gc",))
        elif k < 0.78:
            u = rng.choice(list(alive))
            rc, _, err = w.backy(rng.choice(["verify", "distrust"]), "-r", u)
            if rc:
                raise Violation("verify/distrust failed", err=err)
            trace.append(("verify/distrust", u))
        elif k < 0.84:
            u = rng.choice(list(alive))
            w.backy("tags", "add", "-r", u, "manual:y")
            trace.append(("tags", u))
        elif k < 0.9:
            # the newest snapshot (and so the parent) may get lost
            ss = w.rbd.snaps(w.spec)
            if ss:
                m = w.rbd.meta(w.spec)
                s = rng.choice(ss)
                m["snaps"] = [x for x in m["snaps"] if x["name"] != s]
                w.rbd.set_meta(w.spec, m)
                os.unlink(w.rbd.snap_file(w.spec, s))
                trace.append(("snap lost", s))
        elif k < 0.95:
            w.tick(days=rng.randrange(1, 20))
            rc, _, err = w.backy("gc", "--expire", "--local")
            if rc:
                raise Violation("gc --expire failed", err=err, log=w.log_tail())
            left = {r["uuid"] for r in w.revs()}
            for u in list(alive):
                if u not in left:
                    del alive[u]
            trace.append(("expire",))
        if alive and rng.random() < 0.5:
            check(w, rng, rng.choice(list(alive)), alive, trace)
    for u in list(alive):
        check(w, rng, u, alive, trace)
    used = [h for u in alive for h in set(w.map_of(u)["mapping"].values())]
    if len(used) != len(set(used)):
        c.count("shared_chunks")
    c.sample(trace[:8])


def check(w, rng, u, alive, trace):
    c = w.case
    how = rng.choice(["file", "file", "stdout", "cli"])
    pre = None
    truth = w.truth_file(u)
    n = os.path.getsize(truth)
    if how != "stdout" and rng.random() < 0.6:
        pre = blob(rng, rng.choice([n + 4096, n + CHUNK, n // 2, n, 1]), "rand")
        c.count("prefilled")
    c.count(how)
    c.count("evaluations")
    try:
        w.check_restore(u, how=how, prefill=pre)
    except Violation as v:
        v.detail["history"] = trace
        raise
    size, kind = alive[u]
    c.distinct(size // 512 if size < CHUNK else size // CHUNK,
               size % CHUNK == 0, kind, len(alive), how, pre is not None)
