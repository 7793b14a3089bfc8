"""C06: distrust makes the next backup rebuild."""
import os

from vf import damage
from vf.core import Violation
from vf.repo import CHUNK, World, blob, load, mutate_image, save

PROPERTY = "C06"
LEVEL = "exploration"
TECHNIQUE = (
    "fault injection into stored data; monitors on the requests to rbd (parent "
    "of the diff), on inodes of chunk files (rewritten) and on restores"
)
NOTE = "Histories, trust states and damage are sampled."
RULE = (
    "one evaluation = one backup made while a complete local revision is "
    "distrusted; distinct = (pattern of trust, full or incremental, damage, how "
    "the distrust came about)"
)
MUST_SEE = ["all_distrusted", "partly_distrusted", "met_damage", "incremental",
            "rewritten", "several_snapshots"]


def cases(tier, rng):
    n = 24 if tier == "quick" else 160
    return [{"i": i, "rounds": 14 if tier == "quick" else 40} for i in range(n)]


def stamp(w):
    out = {}
    for h in w.chunks():
        st = os.stat(w.chunk_file(h))
        out[h] = (st.st_ino, st.st_mtime_ns)
    return out


def backup(c, w, how, kinds, trace):
    """A backup with something distrusted, judged."""
    before = {r["uuid"]: r for r in w.revs()}
    distrusted = {u for u, r in before.items()
                  if r["trust"] == "distrusted" and w.complete(r)
                  and not r.get("server")}
    healthy = all(w.complete(r) and r["trust"] == "distrusted"
                  for r in before.values() if not r.get("server"))
    maps = {u: w.map_of(u)["mapping"] for u in before
            if os.path.exists(os.path.join(w.path, u))}
    old = stamp(w)
    nlog = len(w.rbd.read_log())
    rc, new, err = w.backup(expect_ok=False)
    c.count("evaluations")
    good = [r for r in new if w.complete(r)]
    info = dict(history=trace, trust={u: r["trust"] for u, r in before.items()},
                log=w.log_tail(3000))
    parent = None
    for e in w.rbd.read_log()[nlog:]:
        if e.get("ev") == "call" and e["cmd"][0] == "export-diff":
            parent = e["cmd"][e["cmd"].index("--from-snap") + 1][len("backy-"):]
            if parent in distrusted:
                raise Violation("a backup is based on a distrusted revision",
                                parent=parent, **info)
    if healthy:
        # whatever was damaged
        if rc or len(good) != 1:
            raise Violation("a backup with everything distrusted failed (%s)"
                            % ",".join(sorted(set(kinds))), rc=rc, **info)
        c.count("all_distrusted")
    else:
        c.count("partly_distrusted")
    c.count("incremental" if parent else "full")
    c.distinct(tuple(sorted((r["trust"], bool(r.get("server")), w.complete(r))
                            for r in before.values())),
               bool(parent), tuple(sorted(set(kinds))), how, rc)
    if distrusted and good:
        u = good[0]["uuid"]
        base = maps.get(parent, {})
        for pos, h in w.map_of(u)["mapping"].items():
            if base.get(pos) == h or h not in old:
                continue
            try:
                st = os.stat(w.chunk_file(h))
            except FileNotFoundError:
                raise Violation("chunk of the new revision is missing", **info)
            if (st.st_ino, st.st_mtime_ns) == old[h]:
                raise Violation("an existing chunk was not rewritten although "
                                "a revision is distrusted", pos=pos, chunk=h,
                                parent=parent, **info)
            c.count("rewritten")
    for r in good:
        w.check_restore(r["uuid"], how=c.rng.choice(["file", "stdout"]),
                        what="(distrusted: %s; %s)" % (how, kinds),
                        must=healthy or not kinds)
    return rc


def run(c):
    rng = c.rng
    w = World(c, image_size=rng.choice([2 * CHUNK, 3 * CHUNK + 512, 4 * CHUNK]),
              conf={"gran": 65536, "whole": rng.choice([True, False])})
    size = w.rbd.meta(w.spec)["size"]
    w.rbd.write(w.spec, 0, blob(rng, 2 * CHUNK, rng.choice(["rand", "mix"])))
    w.rbd.write(w.spec, size // 2, blob(rng, size // 2, "rep"))
    # snapshots that could not be removed leave a choice of parents
    keep = rng.random() < 0.5
    for _ in range(rng.choice([1, 2, 2, 3, 3])):
        if keep:
            w.faults({"match": "^snap rm", "before": True, "rc": 1})
        w.backup("daily")
        mutate_image(w, rng, 2, resize=rng.random() < 0.3)
    w.faults()
    if len(w.rbd.snaps(w.spec)) > 1:
        c.count("several_snapshots")
    saved = save(w)
    for _ in range(c.spec["rounds"]):
        load(w, saved)
        w.set_conf(seed=rng.randrange(10**6))
        round_(c, w, rng)


def hurt(w, rng, many):
    ch = sorted(w.chunks())
    n = rng.choice([len(ch)] * 3 + [1, 2, 3]) if many else rng.choice([1, 1, 2, 5])
    kinds = []
    kind = rng.choice(damage.KINDS)
    for h in rng.sample(ch, min(n, len(ch))):
        others = [w.chunk_file(x) for x in ch if x != h
                  and os.path.isfile(w.chunk_file(x))]
        k = damage.harm(rng, w.chunk_file(h),
                        kind if rng.random() < 0.6 else rng.choice(damage.KINDS),
                        others)
        if k:
            kinds.append(k)
    return kinds


def round_(c, w, rng):
    uu = [r["uuid"] for r in w.revs()]
    how = rng.choice(["all", "all", "some", "met"])
    trace = [how]
    kinds = []
    if rng.random() < 0.2:
        # an old complete one is distrusted while the newest is incomplete
        w.backy("backup", "-f", "daily",
                env={"VF_SHIM": "prog=backy-rbd\nprefix=%s\nkill=%d" % (
                    os.path.realpath(w.path), rng.randrange(12, 30))})
        trace.append("killed backup")
    if rng.random() < 0.2:
        from vf.checks.c03 import foreign
        foreign(w, rng)
        trace.append("foreign revision")
    if rng.random() < 0.4:
        w.backy("verify", "-r", rng.choice(uu))
        trace.append("verify one")
    if how == "met":
        kinds = hurt(w, rng, False)
        trace.append(kinds)
        for i in range(4):
            mutate_image(w, rng, 3)
            rc, new, err = w.backup(expect_ok=False)
            trace.append(("backup", rc))
            if rc:
                c.count("met_damage")
                # from here on everything has to be rebuilt
                if rng.random() < 0.5:
                    mutate_image(w, rng, 2)
                before = {r["uuid"]: r["trust"] for r in w.revs()}
                rc, new, err = w.backup(expect_ok=False)
                c.count("evaluations")
                if rc or len(new) != 1 or not w.complete(new[0]):
                    raise Violation(
                        "the backup after one that met a damaged chunk failed",
                        rc=rc, history=trace, trust=before, log=w.log_tail(3000))
                w.check_restore(new[0]["uuid"], what="(after met damage)")
                c.distinct("met", tuple(sorted(before.values())),
                           tuple(sorted(set(kinds))), i)
                return
        return
    if how == "all":
        rc, out, err = w.backy("distrust", "-r", "local")
    else:
        for u in rng.sample(uu, rng.randrange(1, max(2, len(uu)))):
            rc, out, err = w.backy("distrust", "-r", u)
    if rc:
        raise Violation("distrust failed", err=err[-500:], log=w.log_tail())
    if how == "all" or rng.random() < 0.3:
        kinds = hurt(w, rng, how == "all")
    trace.append(kinds)
    if rng.random() < 0.6:
        trace.append(mutate_image(w, rng, 3))
    if how == "some":
        # contents go back to what an older revision has
        if rng.random() < 0.6:
            old = rng.choice(uu)
            with open(w.truth_file(old), "rb") as f:
                data = f.read()
            n = w.rbd.meta(w.spec)["size"]
            o = rng.randrange(0, max(1, len(data) // CHUNK)) * CHUNK
            w.rbd.write(w.spec, o, data[o:o + CHUNK][:max(0, n - o)])
            trace.append("old contents again")
    c.sample(trace)
    for _ in range(rng.choice([1, 1, 2])):
        if not any(r["trust"] == "distrusted" for r in w.revs()):
            break
        backup(c, w, how, kinds, trace)
        mutate_image(w, rng, 2)
