"""C08: failing I/O and failing rbd."""
import os
import random

from vf import sched
from vf.core import Inconclusive, Violation
from vf.repo import CHUNK, World, blob, load, mutate_image, save

PROPERTY = "C08"
LEVEL = "fault_enumeration"
TECHNIQUE = (
    "injection of one failing file system call (ENOSPC, EIO; once or lasting) "
    "or of one failing, dying, short or garbled rbd call into real backups, "
    "judged by exit status, metadata and byte-exact restores"
)
NOTE = (
    "Calls are failed without their effect. One fault per backup (lasting ones "
    "excepted). Positions: quick takes an even choice over kinds of events and "
    "all kinds of rbd calls; thorough nearly all."
)
RULE = (
    "one evaluation = one backup run with a fault; distinct = (kind of backup, "
    "process, failing call or rbd command, way of failing, exit status)"
)
MUST_SEE = ["fs_fault", "rbd_fault", "failed", "survived"]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for op in ("incremental", "full", "first"):
        for prog in ("backy", "backy-rbd"):
            m = 2 if prog == "backy-rbd" else 1
            for i in range(1 if q else 4):
                for j in range(m):
                    out.append({"op": op, "prog": prog, "i": i, "part": j, "of": m,
                                "points": 14 if q else 80})
        m = 3
        for i in range(1 if q else 4):
            for j in range(m):
                out.append({"op": op, "prog": "rbd", "i": i, "part": j, "of": m})
    rng.shuffle(out)
    return out


def setup(c):
    rng, op = c.rng, c.spec["op"]
    rel = rng.choice(["nautilus", "nautilus", "luminous"])
    w = World(c, image_size=rng.choice([2 * CHUNK, 3 * CHUNK, 3 * CHUNK + 4096]),
              conf={"gran": 65536, "whole": rng.choice([True, False]),
                    "release": rel})
    if op == "full":
        w.source["full-always"] = True
        w.write_config()
    w.rbd.write(w.spec, 0, blob(rng, 2 * CHUNK, "rand"))
    if op != "first":
        w.backup("daily")
        w.rbd.write(w.spec, CHUNK - 9, blob(rng, 5000, "rand"))
        w.backup("daily,weekly")
    # something in every chunk, at least partly
    for o in range(0, w.rbd.meta(w.spec)["size"] - 5000, CHUNK):
        w.rbd.write(w.spec, o + rng.randrange(4000), blob(rng, 900, "rand"))
    mutate_image(w, rng, 2, resize=False)
    w.tick(hours=1)
    return w


def judge(c, w, before, rc, what):
    """After one disturbed backup."""
    c.count("evaluations")
    now = {r["uuid"]: r for r in w.revs()}
    new = [r for u, r in now.items() if u not in before and w.complete(r)]
    for u, b in before.items():
        r = now.get(u)
        if r is None:
            raise Violation("a complete revision disappeared " + what, log=w.log_tail())
        for k in ("tags", "stats", "timestamp"):
            if r[k] != b[k]:
                raise Violation("metadata of another revision changed " + what)
    if rc == 0 and len(new) != 1:
        raise Violation("exit status 0 without a complete revision " + what,
                        log=w.log_tail())
    if rc != 0 and new:
        # it may have failed after all the work was done, e.g. on clean-up
        c.count("complete_but_failed")
    c.count("failed" if rc else "survived")
    for u, r in now.items():
        if w.complete(r):
            w.check_restore(u, what=what)
    w.tick(minutes=1)
    rc, fresh, err = w.backup(expect_ok=False)
    if rc or len(fresh) != 1 or not w.complete(fresh[0]):
        raise Violation("the next undisturbed backup fails " + what, rc=rc,
                        log=w.log_tail())
    for r in w.revs():
        if not w.complete(r):
            raise Violation("an incomplete revision is left " + what)
        if r["uuid"] not in now:
            w.check_restore(r["uuid"], what="in the next backup " + what)


def run(c):
    rng, spec = c.rng, c.spec
    w = setup(c)
    argv = ("backy", "-C", w.path, "backup", "-f", "daily")
    before = {r["uuid"]: r for r in w.revs()}
    saved = save(w)
    pick = random.Random("%s/%s/%s/%s" % (c.seed, spec["op"], spec["prog"], spec["i"]))
    if spec["prog"] == "rbd":
        return rbd(c, w, argv, before, saved, pick)
    rc, evs, err = sched.trace(w, argv, (spec["prog"],))
    if rc or not evs:
        raise Violation("an undisturbed backup failed", err=err[-500:])
    ev = [e for e in max(evs.values(), key=len) if e["kind"] in sched.MUTATING]
    m = spec["of"]
    for k in sched.choose(pick, ev, spec["points"] * m)[spec["part"]::m]:
        e = ev[k - 1]
        for sticky in ([0, 1] if rng.random() < 0.4 else [rng.choice([0, 0, 1])]):
            load(w, saved)
            eno = rng.choice([28, 28, 5])
            rc, _, _ = w.run(*argv, env=sched.shim(
                w, spec["prog"], fail=k, errno=eno, sticky=sticky))
            c.count("fs_fault")
            what = "(%s of %s of a %s backup failed with %d%s, exit %s)" % (
                e["kind"], os.path.basename(e["path"])[:9], spec["op"], eno,
                " from then on" if sticky else "", rc)
            c.distinct(spec["op"], spec["prog"], sched.category(e), sticky, rc)
            c.sample(what)
            judge(c, w, before, rc, what)


def rbd(c, w, argv, before, saved, pick):
    rng, spec = c.rng, c.spec
    n0 = len(w.rbd.read_log())
    w.run(*argv)
    calls = [e["cmd"] for e in w.rbd.read_log()[n0:] if e["ev"] == "call"]
    if len(calls) < 5:
        raise Inconclusive("too few rbd calls")
    plans = []
    for k, cmd in enumerate(calls, 1):
        ways = [{"before": 1, "rc": 1}, {"after": 1, "rc": 1}]
        if cmd[0] in ("export", "export-diff"):
            ways = [{"before": 1, "rc": 1}]
            for rc in (0, 0, 1, 0):
                # A full export that is short but claims success cannot be
                # told from a smaller image; only the diff format has an end.
                if cmd[0] == "export":
                    rc = 1
                ways.append({"truncate": rng.random(), "rc": rc})
            z = int(cmd[0] == "export")
            ways += [{"truncate": 0, "rc": z}, {"truncate": 0, "rc": 1},
                     {"truncate": rng.choice([1, 5, 12, 30, 64]), "rc": z},
                     {"truncate": 0.9999, "rc": z},
                     {"truncate": rng.random(), "signal": 9},
                     {"rc": 5},  # all data, then failure
                     {"signal": 15}]
        elif cmd[0] in ("info", "showmapped", "snap") and "ls" in cmd + ["ls"]:
            ways.append({"garbage": "", "rc": 0})
            if cmd[0] == "snap" and cmd[1] == "ls":
                ways.append({"garbage": "[]", "rc": 0})
        ways.append({"before": 1, "rc": 2})
        for x in ways:
            plans.append((k, cmd, x))
    pick.shuffle(plans)
    plans = plans[spec["part"]::spec["of"]]
    for k, cmd, x in plans:
        load(w, saved)
        w.faults(dict(x, match=".", nth=k))
        rc, _, _ = w.run(*argv)
        w.faults()
        c.count("rbd_fault")
        what = "(rbd %s: %s in a %s backup, exit %s)" % (
            " ".join(cmd[:2]), x, spec["op"], rc)
        c.distinct(spec["op"], cmd[0], tuple(sorted(x)), x.get("rc"), rc)
        c.sample(what)
        # what the fault left mapped is not our subject
        judge(c, w, before, rc, what)
