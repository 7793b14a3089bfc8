"""C07: a crash at any point leaves complete revisions intact."""
import os
import random

from vf import damage, sched
from vf.core import Inconclusive, Violation
from vf.repo import CHUNK, World, blob, load, mutate_image, save

PROPERTY = "C07"
LEVEL = "fault_enumeration"
TECHNIQUE = (
    "SIGKILL before chosen file system calls (and in the middle of writes) and "
    "around rbd calls; recovery judged by reading and restoring everything"
)
NOTE = (
    "A kill leaves the file system as the calls up to then made it; power loss "
    "is the subject of C09. Positions are chosen evenly over the kinds of "
    "events; thorough takes more of them."
)
RULE = (
    "one evaluation = one killed command with its aftermath judged; distinct = "
    "(command, process, kind of event killed at, torn write, what was redone)"
)
MUST_SEE = ["killed", "torn", "killed_at_rbd", "incomplete_left",
            "redo_same", "redo_backup"]

OPS = {
    "incremental": ("backup", "-f", "daily"),
    "full": ("backup", "-f", "daily"),
    "healing": ("backup", "-f", "daily"),
    "hopeless": ("backup", "-f", "daily"),
    "tags-set": ("tags", "-r", "all", "set", "-f", "manual:x,daily"),
    "tags-add": ("tags", "-r", "not(last)", "add", "-f", "manual:neu,weekly"),
    "tags-remove": ("tags", "-r", "all", "remove", "--autoremove", "manual:kill"),
    "distrust": ("distrust", "-r", "local"),
    "rm": ("rm", "-r", "tag:manual:kill"),
    "expire": ("gc", "--expire", "--local"),
    "verify": ("verify", "-r", "local"),
    "verify-bad": ("verify", "-r", "local"),
    "gc": ("gc",),
}
PROGS = {
    "incremental": ["backy", "backy-rbd"], "full": ["backy", "backy-rbd"],
    "healing": ["backy-rbd"], "hopeless": ["backy-rbd"],
    "tags-set": ["backy"], "tags-add": ["backy"], "tags-remove": ["backy"],
    "distrust": ["backy"], "rm": ["backy"], "expire": ["backy", "backy-rbd"],
    "verify": ["backy-rbd"], "verify-bad": ["backy-rbd"], "gc": ["backy-rbd"],
}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for op, progs in PROGS.items():
        for p in progs:
            for i in range(1 if q else 5):
                m = 3 if p == "backy-rbd" and op in (
                    "incremental", "full", "healing") else 1
                for j in range(m):
                    out.append({"op": op, "prog": p, "points": 8 if q else 40,
                                "i": i, "part": j, "of": m})
    for i in range(6 if q else 15):
        out.append({"op": ["incremental", "full", "healing"][i % 3], "prog": "rbd",
                    "points": 6 if q else 40, "i": i})
    rng.shuffle(out)
    return out


def setup(c):
    rng, op = c.rng, c.spec["op"]
    w = World(c, image_size=rng.choice([2 * CHUNK, 3 * CHUNK]),
              conf={"gran": 65536, "whole": rng.choice([True, False])},
              schedule={"daily": {"interval": "1d", "keep": 1},
                        "weekly": {"interval": "7d", "keep": 1}})
    w.rbd.write(w.spec, 0, blob(rng, 2 * CHUNK, "rand"))
    w.backup("daily")
    w.tick(days=9)
    w.rbd.write(w.spec, CHUNK - 9, blob(rng, 5000, "rand"))
    w.backup("daily,weekly,manual:kill")
    if rng.random() < 0.5:
        w.tick(days=9)
        mutate_image(w, rng, 2, resize=False)
        w.backup("manual:kill")
    w.tick(days=9)
    mutate_image(w, rng, 2, resize=False)
    w.backup("weekly,daily")
    w.rbd.write(w.spec, CHUNK + 77, blob(rng, 70000, "rand"))
    bad = set()
    if op == "full":
        w.source["full-always"] = True
        w.write_config()
    if op == "healing":
        w.backy("distrust", "-r", rng.choice(["local", "last", "first"]))
    if op in ("hopeless", "verify-bad", "gc"):
        # something is wrong with the newest
        ch = w.map_of(w.revs()[-1]["uuid"])["mapping"]
        for h in set(ch.values()):
            if op == "gc":
                with open(w.chunk_file("%032x" % rng.getrandbits(128)), "w") as f:
                    f.write("orphan")
                continue
            damage.harm(rng, w.chunk_file(h), "flip-many", [])
            bad.add(h)
        if op == "hopeless":
            w.rbd.write(w.spec, 5, b"partial")
    w.tick(hours=1)
    return w, bad


def run(c):
    rng, spec = c.rng, c.spec
    w, bad = setup(c)
    argv = ("backy", "-C", w.path) + OPS[spec["op"]]
    before = {r["uuid"]: r for r in w.revs()}
    hurt = {u for u in before
            if set(w.map_of(u)["mapping"].values()) & bad}
    saved = save(w)
    if spec["prog"] == "rbd":
        n0 = len(w.rbd.read_log())
        rc = w.run(*argv)[0]
        n = sum(e["ev"] == "call" for e in w.rbd.read_log()[n0:])
        after = {r["uuid"]: r for r in w.revs()}
        for k in rng.sample(range(1, n + 1), min(n, spec["points"])):
            load(w, saved)
            when = rng.choice(["before", "after"])
            w.faults({"match": ".", "nth": k, "killparent": when})
            rc, _, _ = w.run(*argv)
            w.faults()
            c.count("killed")
            c.count("killed_at_rbd")
            judge(c, w, before, after, hurt, "rbd call", False,
                  "(killed %s rbd call %d of %s)" % (when, k, spec["op"]))
        return
    rc, evs, err = sched.trace(w, argv, (spec["prog"],))
    after = {r["uuid"]: r for r in w.revs()}
    if not evs:
        raise Inconclusive("nothing traced: %s" % err[-300:])
    ev = [e for e in max(evs.values(), key=len) if e["kind"] in sched.MUTATING]
    # the parts share out the kinds of events among them
    pick = random.Random("%s/%s/%s/%s" % (c.seed, spec["op"], spec["prog"], spec["i"]))
    m = spec["of"]
    for k in sched.choose(pick, ev, spec["points"] * m)[spec["part"]::m]:
        e = ev[k - 1]
        for torn in ([False, True] if e["kind"] == "write" else [False]):
            load(w, saved)
            kw = dict(kill=k)
            if torn:
                kw["torn"] = 1
            if spec["prog"] != "backy" and rng.random() < 0.7:
                # the machine goes down, not just the worker
                kw["also"] = "%GRAND%"
            rc, _, _ = w.run(*argv, env=sched.shim(w, spec["prog"], **kw))
            c.count("killed")
            if torn:
                c.count("torn")
            judge(c, w, before, after, hurt, sched.category(e), torn,
                  "(%s of %s killed %s %s %s)" % (
                      spec["op"], spec["prog"], "within" if torn else "before",
                      e["kind"], os.path.basename(e["path"])[:9]))


def intact(c, w, before, after, hurt, what, strict=True, restore=True):
    now = {r["uuid"]: r for r in w.revs()}
    # whether damage is met, and where, depends on chance
    loose = c.spec["op"] in ("hopeless", "healing")
    for u, b in before.items():
        r = now.get(u)
        if r is None:
            if u in after and not (loose and u in hurt):
                raise Violation("a complete revision disappeared " + what,
                                uuid=u, log=w.log_tail())
            continue
        if not w.complete(r):
            raise Violation("a complete revision became incomplete " + what, uuid=u)
        if strict:
            a = after.get(u)
            lo = set(b["tags"]) & set(a["tags"] if a else [])
            hi = set(b["tags"]) | set(a["tags"] if a else [])
            t = set(r["tags"])
            trust = {b["trust"], a["trust"] if a else b["trust"]}
            if loose:
                trust |= {"distrusted", "verified"}
            if not lo <= t <= hi or r["trust"] not in trust:
                raise Violation("tags or trust are neither old nor new " + what,
                                before=b, after=a, now=r)
            for k in ("timestamp", "stats", "server", "orig_tags"):
                if r[k] != b[k]:
                    raise Violation("metadata changed " + what, key=k, before=b,
                                    now=r)
    for u, r in now.items():
        if w.complete(r):
            if restore:
                w.check_restore(u, what=what, must=not hurt or (
                    u in before and u not in hurt))
        elif strict:
            c.count("incomplete_left")
    return now


def judge(c, w, before, after, hurt, cat, torn, what):
    rng, op = c.rng, c.spec["op"]
    c.count("evaluations")
    now = intact(c, w, before, after, hurt, what)
    rc, out, err = w.backy("log")
    if rc:
        raise Violation("listing fails " + what, err=err[-1000:])
    redo = rng.choice(["same", "same", "backup"])
    c.distinct(op, c.spec["prog"], cat, torn, redo)
    c.sample(what)
    c.count("redo_" + redo)
    kill = {u for u in before if u not in after}
    if redo == "same" and op == "hopeless" and len(now) == len(before):
        # crashed before it saw the damage; it may still fail once
        w.tick(minutes=1)
        w.backy("backup", "-f", "daily")
    if redo == "same" and "backup" not in OPS[op]:
        w.tick(minutes=1)
        rc, out, err = w.backy(*OPS[op])
        if rc and op != "verify-bad":
            raise Violation("running the command again fails " + what, rc=rc,
                            err=err[-1000:], log=w.log_tail())
        got = {r["uuid"]: r for r in w.revs()}
        if set(got) != set(after) or any(
                (r["tags"], r["trust"]) != (after[u]["tags"], after[u]["trust"])
                for u, r in got.items()):
            raise Violation("running the command again does not finish its work "
                            + what, expected=after, actual=got)
        intact(c, w, before, after, hurt, "after redoing " + what, False,
               rng.random() < 0.3)
    else:
        w.tick(minutes=1)
        for attempt in range(2):
            rc, new, err = w.backup(expect_ok=False)
            # met damage once: the next one has to succeed
            if rc == 0 or not hurt:
                break
        if rc or not any(w.complete(r) for r in new):
            raise Violation("no backup succeeds " + what, rc=rc,
                            err=err[-1000:], log=w.log_tail())
        for r in w.revs():
            if not w.complete(r):
                raise Violation("a backup left an incomplete revision "
                                + what, rev=r)
        if not hurt:
            intact(c, w, before, before if op not in (
                "rm", "expire", "tags-remove") else after, hurt,
                "after another backup " + what, False,
                   False)
        rc, out, err = w.backy("gc")
        if rc:
            raise Violation("gc fails " + what, err=err[-1000:], log=w.log_tail())
        from vf.checks.c03 import referred
        left = w.chunks() - referred(w)
        if left:
            raise Violation("chunks left behind after recovery and gc " + what,
                            chunks=sorted(left)[:3])
        for r in w.revs():
            w.check_restore(r["uuid"], what="after recovery and gc " + what,
                            must=not hurt or r["uuid"] in set(before) - hurt)
