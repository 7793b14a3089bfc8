"""C10: conflicting operations exclude each other."""
import os
import time

from vf import sched
from vf.core import Inconclusive, Violation
from vf.repo import CHUNK, World, blob, load, save, tree_state

PROPERTY = "C10"
LEVEL = "exploration"
TECHNIQUE = (
    "a real command is suspended in its critical section while others are "
    "attempted; monitors on exit status and on the whole directory tree"
)
NOTE = (
    "Suspension points are mutations and reads that unmistakably lie within an "
    "operation, and rbd calls."
)
RULE = (
    "one evaluation = one operation attempted while another is suspended; "
    "distinct = (holder, where suspended, attempted operation, outcome, holder "
    "finished or killed)"
)
MUST_SEE = ["refused", "waited", "restored_meanwhile", "succeeded_later",
            "holder_killed"]

META = {
    "tags": ("tags", "-r", "all", "add", "-f", "manual:%d"),
    "distrust": ("distrust", "-r", "first"),
    "rm": ("rm", "-r", "first"),
    "expire": ("gc", "--expire", "--local"),
}
B = ("backup", "-f", "daily")
HOLDERS = []
for m, nth in (("snap create", 1), ("^info", 1), ("^map", 1), ("snap ls", 1),
               ("snap rm", 1), ("unmap", 1)):
    HOLDERS.append(("backup", B, "rbd", dict(match=m, nth=nth)))
HOLDERS.append(("backup", B, "rbd", dict(match="^export", nth=1, stall=4096)))
for on in ("fsync:/", "sync:", "rename:/chunks/", "open-w:/chunks/",
           "chmod:.rev", "write:/", "unlink:/last"):
    HOLDERS.append(("backup", B, "backy-rbd", dict(stopon=on)))
for n, a in META.items():
    on = {"rm": ["unlink:.rev"], "expire": ["rename:/", "unlink:.rev"]}.get(
        n, ["rename:/", "fsync:/", "rename:/:2"])
    if n == "distrust":
        on = on[:2]
    for o in on:
        o = o if o.count(":") == 2 else o + ":1"
        HOLDERS.append((n, a, "backy", dict(stopon=o)))
for k in (1, 2):
    HOLDERS.append(("gc", ("gc",), "backy-rbd", dict(stopon="unlink:.chunk:%d" % k)))
    HOLDERS.append(("verify", ("verify", "-r", "last"), "backy-rbd",
                    dict(stopon="open-r:.chunk:%d" % k)))
    HOLDERS.append(("restore", None, "backy-rbd",
                    dict(stopon="open-r:.chunk:%d" % k)))
HOLDERS.append(("verify", ("verify", "-r", "last"), "backy-rbd",
                dict(stopon="rename:/:1")))


def attempts(holder):
    if holder == "gc":
        return ["backup", "verify", "gc"]
    if holder == "verify":
        return ["gc"]
    if holder == "restore":
        return ["gc", "backup"]
    out = ["backup"] + list(META)
    out.append("restore")
    if holder == "backup":
        out.append("gc")
    return out


def cases(tier, rng):
    out = []
    for i in range(1 if tier == "quick" else 4):
        for n, h in enumerate(HOLDERS):
            out.append({"h": n, "i": i})
    rng.shuffle(out)
    return out


def command(w, name, args, i=0):
    if name == "restore":
        return ("backy-rbd", "-t", "abcd", "-C", w.path, "restore",
                w.uuid, os.path.join(w.case.dir, "out"))
    if name in ("gc", "backup") and args is None:
        args = {"gc": ("gc",), "backup": B}[name]
    if name == "verify" and args is None:
        args = ("verify", "-r", "last")
    return ("backy", "-C", w.path) + tuple(
        a % i if "%d" in a else a for a in args)


def everything(w):
    s = tree_state(w.path, skip=("backy.log", ".backup", ".purge"))
    s["snapshots"] = sorted(w.rbd.snaps(w.spec))
    return s


def data(w):
    s = tree_state(w.path, skip=("backy.log", ".backup", ".purge"))
    return {k: v for k, v in s.items() if not k.endswith(".rev")
            and not k.startswith("tmp") and not k.startswith("last")}


def setup(c, rng):
    w = World(c, image_size=3 * CHUNK,
              schedule={"daily": {"interval": "1d", "keep": 1},
                        "weekly": {"interval": "7d", "keep": 1}})
    w.rbd.write(w.spec, 0, blob(rng, 2 * CHUNK, "rand"))
    w.backup("daily,weekly")
    w.rbd.write(w.spec, CHUNK + 5, b"second")
    w.tick(days=10)
    w.backup("daily")
    w.rbd.write(w.spec, 2 * CHUNK + 5, b"third")
    w.tick(days=10)
    w.backup("daily,weekly")
    # the oldest loses its last tag, others some
    w.rbd.write(w.spec, 77, b"fourth")
    for i in range(3):
        with open(w.chunk_file("%032x" % rng.getrandbits(128)), "w") as f:
            f.write("orphan")
    w.uuid = w.revs()[-1]["uuid"]
    w.tick(hours=1)
    return w


def hold(w, holder, args, prog, where, i):
    argv = command(w, holder, args, i)
    if prog == "rbd":
        kw = dict(where)
        m, n = kw.pop("match"), kw.pop("nth")
        return sched.Stalled(w, argv, m, n, **kw)
    return sched.Stopped(w, argv, prog, **where)


def run(c):
    rng = c.rng
    holder, args, prog, where = HOLDERS[c.spec["h"]]
    w = setup(c, rng)
    saved = save(w)
    label = "%s at %s" % (holder, where.get("stopon") or "rbd " + where["match"])
    refuse = attempts(holder)
    # all at once, one after the other, and then with what follows
    for end in ("finish", "kill"):
        for n, b in enumerate(refuse):
            load(w, saved)
            a = hold(w, holder, args, prog, where, 100 + n)
            if not a.stopped:
                a.p.close()
                raise Inconclusive("%s did not stop" % label)
            try:
                attempt(c, w, a, holder, label, b, n, end)
            finally:
                a.p.close()
            if end == "kill" and n >= 1 and c.tier == "quick":
                break
    c.sample([label, refuse])


def attempt(c, w, a, holder, label, b, n, end):
    rng = c.rng
    c.count("evaluations")
    before, dbefore = everything(w), data(w)
    argv = command(w, b, META.get(b), n)
    info = dict(holder=label, attempted=b)
    must_refuse = not (b == "restore" or holder == "gc" and b != "gc"
                       or holder == "restore" and b == "backup")
    p = w.start(*argv)
    try:
        if must_refuse:
            rc = p.wait(60)
            after = everything(w)
            if rc == 0:
                raise Violation("%s was not refused while %s was running"
                                % (b, label), **info)
            if after != before:
                diff = sorted(k for k in set(after) | set(before)
                              if after.get(k) != before.get(k))
                raise Violation("%s changed something while %s was running"
                                % (b, label), changed=diff[:10], rc=rc, **info)
            c.count("refused")
            outcome = "refused"
        elif b == "restore" or holder == "restore":
            rc = p.wait(60)
            if rc:
                raise Violation("%s failed while %s was running" % (b, label),
                                err=p.errput()[-800:], log=w.log_tail(), **info)
            if b == "restore":
                from vf.repo import diff_files
                d = diff_files(os.path.join(w.case.dir, "out"),
                               w.truth_file(w.uuid))
                if d:
                    raise Violation("restore beside %s is wrong: %s" % (label, d))
                c.count("restored_meanwhile")
            outcome = "succeeded"
        else:
            # it has to wait or to give up, and not to touch data
            t0 = time.monotonic()
            while p.poll() is None and time.monotonic() - t0 < 1.2:
                time.sleep(0.01)
            now = data(w)
            if now != dbefore:
                diff = sorted(k for k in set(now) | set(dbefore)
                              if now.get(k) != dbefore.get(k))
                raise Violation("%s touched data while %s was running"
                                % (b, label), changed=diff[:10], **info)
            if p.poll() is None:
                c.count("waited")
                outcome = "waited"
            elif p.rc == 0:
                raise Violation("%s finished while %s was running" % (b, label),
                                **info)
            else:
                outcome = "refused"
        c.distinct(label, b, outcome, end)
        if end == "kill":
            a.kill()
            c.count("holder_killed")
        else:
            rc = a.finish(60)
            if rc:
                raise Violation("%s failed after %s had been attempted beside it"
                                % (label, b), err=a.err[-800:], log=w.log_tail(),
                                **info)
        if outcome == "waited":
            rc = p.wait(60)
            if rc:
                raise Violation("%s that waited for %s failed" % (b, label),
                                err=p.errput()[-800:], log=w.log_tail(), **info)
            c.count("succeeded_later")
    finally:
        p.close()
    if outcome == "refused":
        w.tick(minutes=5)
        rc, out, err = w.run(*argv)
        if rc:
            raise Violation("%s fails after %s (%s)" % (b, label, end),
                            err=err[-800:], log=w.log_tail(), **info)
        c.count("succeeded_later")
    for r in w.revs():
        if w.complete(r):
            w.check_restore(r["uuid"], what="after %s beside %s" % (b, label))
