"""C04: damage never becomes a wrong restore that claims success."""
import os

from vf import damage
from vf.core import Violation
from vf.repo import CHUNK, World, blob, load, mutate_image, save

PROPERTY = "C04"
LEVEL = "exploration"
TECHNIQUE = "fault injection into stored data with a byte-exact restore oracle"
NOTE = (
    "Kinds and places of damage are sampled. Damage that keeps the 128 bit "
    "content hash is out of scope."
)
RULE = (
    "one evaluation = one restore judged while something it may need is "
    "damaged; distinct = (kind of damage, chunk shared or not, restore method, "
    "outcome, before or after a further backup)"
)
MUST_SEE = ["restore_refused", "restore_ok", "backup_on_damage_ok",
            "backup_on_damage_refused", "map_damage"]


def cases(tier, rng):
    n = 24 if tier == "quick" else 160
    return [{"i": i, "rounds": 16 if tier == "quick" else 30} for i in range(n)]


def judge(w, c, what, trace):
    rng = c.rng
    for r in w.revs():
        if not w.complete(r):
            continue
        how = rng.choice(["file", "stdout", "cli"])
        pre = blob(rng, rng.choice([CHUNK, 5 * CHUNK]), "rand") if (
            how != "stdout" and rng.random() < 0.4) else None
        try:
            # what is on disk may well be the right data from before
            ok = w.check_restore(r["uuid"], how=how, what=what, must=False,
                                 prefill=pre)
        except Violation as v:
            v.detail["history"] = trace
            raise
        c.count("evaluations")
        c.count("restore_ok" if ok else "restore_refused")
        c.distinct(what, how, ok)


def run(c):
    rng = c.rng
    w = World(c, image_size=rng.choice([CHUNK, 2 * CHUNK, 2 * CHUNK + 512,
                                        4 * CHUNK]),
              conf={"gran": rng.choice([4096, 65536]),
                    "whole": rng.choice([True, False])})
    w.rbd.write(w.spec, 0, blob(rng, CHUNK, rng.choice(["rand", "rep", "mix"])))
    if rng.random() < 0.7:
        size = w.rbd.meta(w.spec)["size"]
        w.rbd.write(w.spec, size // 2, blob(rng, size // 2, "rep"))
    for _ in range(rng.randrange(1, 4)):
        w.backup("daily")
        mutate_image(w, rng, 3)
    if rng.random() < 0.5:
        w.backy("verify", "-r", "all")
    saved = save(w)
    for _ in range(c.spec["rounds"]):
        load(w, saved)
        w.set_conf(seed=rng.randrange(10**6))
        trace = []
        done = []
        if rng.random() < 0.15:
            r = rng.choice(w.revs())
            p = os.path.join(w.path, r["uuid"])
            n = os.path.getsize(p)
            k = rng.choice(["missing", "empty", "cut", "cut1"])
            if k == "missing":
                os.unlink(p)
            else:
                with open(p, "r+b") as f:
                    f.truncate({"empty": 0, "cut": rng.randrange(n),
                                "cut1": n - 1}[k])
            done.append("map-" + k)
            c.count("map_damage")
        else:
            ch = sorted(w.chunks())
            for h in rng.sample(ch, min(len(ch), rng.choice([1, 1, 1, 2, 9]))):
                k = rng.choice(damage.KINDS)
                others = [w.chunk_file(x) for x in ch if x != h
                          and os.path.isfile(w.chunk_file(x))]
                k = damage.harm(rng, w.chunk_file(h), k, others)
                if k:
                    done.append(k)
        if not done:
            continue
        what = "(damage: %s)" % ",".join(sorted(set(done)))
        trace.append(done)
        c.count("damages", len(done))
        judge(w, c, what, trace)
        for n in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.7:
                trace.append(mutate_image(w, rng, 3))
            rc, new, err = w.backup(expect_ok=False)
            good = [r for r in new if w.complete(r)]
            if rc == 0 and len(good) != 1:
                raise Violation("backup exits 0 without a complete revision " + what,
                                history=trace, log=w.log_tail())
            if rc != 0 and good:
                raise Violation("failed backup left a complete revision " + what,
                                history=trace, log=w.log_tail())
            c.count("backup_on_damage_ok" if rc == 0 else "backup_on_damage_refused")
            trace.append(("backup", rc))
            judge(w, c, what + " then %d backups" % (n + 1), trace)
        c.sample(trace)
