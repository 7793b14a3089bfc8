"""C24: snapshots and devices: own ones are cleaned up, others untouched."""
import datetime
import json
import os

import yaml

from vf import damage
from vf.core import Inconclusive, Violation
from vf.repo import CHUNK, World, blob, mutate_image

PROPERTY = "C24"
LEVEL = "fault_enumeration"
TECHNIQUE = (
    "a monitor over the log of all rbd calls of real backups (a specification "
    "automaton of snapshots and mapped devices), under random snapshot sets, "
    "foreign mappings, distrust, and failing rbd calls"
)
NOTE = (
    "rbd is a stand-in that keeps snapshots and mappings as Ceph does (mapped "
    "and protected snapshots cannot be removed). One fault per backup or a "
    "lasting one for one kind of call."
)
RULE = (
    "one evaluation = one backup whose rbd calls were judged; distinct = (kind "
    "of backup, failing call, way of failing, result, kinds of snapshots found)"
)
MUST_SEE = ["undisturbed", "faulted", "failed", "incremental", "full",
            "own_removed", "foreign_kept", "parent_kept_after_failure",
            "mismatch", "parallel", "protected", "none_kept_always_full",
            "foreign_maps", "unmapped", "rm_failed_others_gone", "damaged_failed"]

FOREIGN = ["keep-me", "backy", "Backy-1", "my-backy-1", "xbacky-2", "backy_3",
           "2024-01-01", "back-4", "snap.backy-5", "BACKY-6"]
WAYS = [{"before": 1, "rc": 1}, {"before": 1, "rc": 2}, {"after": 1, "rc": 1},
        {"before": 1, "rc": 16}, {"garbage": "", "rc": 0},
        {"garbage": "[]", "rc": 0}, {"garbage": "{}", "rc": 0},
        {"truncate": 0.4, "rc": 1}, {"truncate": 0.4, "signal": 9}]
KINDS = ["^info", "^snap create", "^snap ls", "^snap rm", "^map", "^showmapped",
         "^unmap", "^export", "^--version", "."]


def cases(tier, rng):
    q = tier == "quick"
    return [{"i": i, "rounds": 14 if q else 45}
            for i in range(24 if q else 160)]


def remote(w, rng):
    u = "remote%d" % rng.randrange(10**9)
    with open(os.path.join(w.path, u + ".rev"), "w") as f:
        yaml.safe_dump(
            dict(uuid=u, timestamp=w.clock + datetime.timedelta(
                     minutes=rng.choice([1, 1, 540])),
                 parent="", stats={"bytes_written": 1, "duration": 1.5},
                 trust="trusted", tags=["daily"], orig_tags=["daily"],
                 server="otherhost"), f)
    return u


def others(w):
    """Everything in the fake Ceph that is not this image's own business."""
    out = {}
    root = w.rbd.path("images")
    for pool in sorted(os.listdir(root)):
        for img in sorted(os.listdir(os.path.join(root, pool))):
            spec = pool + "/" + img
            s = w.rbd.snaps(spec)
            if spec == w.spec:
                s = [x for x in s if not x.startswith("backy-")]
            out[spec] = sorted(s)
    return out


def complete(w):
    return [r for r in w.revs() if w.complete(r) and not r.get("server")]


class Watch:
    """State before one backup of w; judged afterwards."""

    def __init__(self, w):
        self.w = w
        self.n = len(w.rbd.read_log())
        self.snaps = set(w.rbd.snaps(w.spec))
        self.revs = {r["uuid"]: r for r in w.revs()}
        self.newest = (complete(w) or [None])[-1]
        self.others = others(w)
        self.mapped = {m["device"] for m in w.rbd.jread("mapped.json", [])}

    def judge(self, c, rc, what, alone=True):
        w = self.w
        c.count("evaluations")
        evs = w.rbd.read_log()[self.n:]
        calls = [e for e in evs if e["ev"] == "call"]
        info = dict(calls=[(" ".join(e["cmd"]), e["fault"]) for e in calls][-60:],
                    log=w.log_tail(2500), snaps=sorted(self.snaps))

        def bad(msg, **kw):
            raise Violation(msg + " " + what, **kw, **info)

        mine = [e for e in calls if any(w.spec == a or a.startswith(w.spec + "@")
                                        for a in e["cmd"])]
        new = [r for r in complete(w) if r["uuid"] not in self.revs]
        # -- other people's things
        now = others(w)
        if alone and now != self.others:
            bad("snapshots of others changed", before=self.others, after=now)
        if now[w.spec] != self.others[w.spec]:
            bad("foreign snapshots changed", before=self.others, after=now)
        if now[w.spec]:
            c.count("foreign_kept")
        for e in calls:
            if e["cmd"][:2] in (["snap", "rm"], ["snap", "create"]):
                spec, _, snap = e["cmd"][2].partition("@")
                if alone and spec != w.spec or not snap.startswith("backy-"):
                    bad("rbd %s of a foreign snapshot" % e["cmd"][1],
                        arg=e["cmd"][2])
        # -- devices
        ours = {}  # device -> spec
        excused = False
        for e in evs:
            if e["ev"] == "mapped":
                ours[e["device"]] = e["spec"]
            if e["ev"] == "call" and e["cmd"][0] == "unmap":
                if e["cmd"][1] not in ours:
                    bad("a device is unmapped that is not ours",
                        device=e["cmd"][1])
                c.count("unmapped")
            if e["ev"] == "call" and e["fault"] and e["cmd"][0] in (
                    "map", "showmapped", "unmap", "--version"):
                excused = True
        left = {m["device"] for m in w.rbd.jread("mapped.json", [])} - self.mapped
        if left and not excused and alone:
            bad("a device is left mapped", devices=sorted(left))
        if not alone and any(ours[d].startswith(w.spec + "@") for d in left):
            bad("a device is left mapped", devices=sorted(left))
        # -- parents
        parent = None
        good = {u for u, r in self.revs.items() if w.complete(r)
                and not r.get("server") and r["trust"] != "distrusted"}
        full = False
        for e in mine:
            if e["cmd"][0] == "export-diff":
                if "--from-snap" not in e["cmd"]:
                    bad("an incremental export without a base")
                parent = e["cmd"][e["cmd"].index("--from-snap") + 1]
                if parent not in self.snaps:
                    bad("incremental export relative to a snapshot that does "
                        "not exist", parent=parent)
                if not parent.startswith("backy-") or parent[6:] not in good:
                    bad("incremental export relative to something that is no "
                        "trusted complete local revision", parent=parent,
                        good=sorted(good))
                if w.source.get("full-always"):
                    bad("an incremental export though always full")
            full |= e["cmd"][0] == "export"
        lied = any(e["fault"] and e["cmd"][:2] == ["snap", "create"] for e in calls)
        if any(e["ev"] == "bad-diff" for e in evs) and not lied:
            bad("a diff between snapshots that do not exist was requested")
        c.count("incremental" if parent else "full" if full else "no_export")
        # -- our own snapshots
        snaps = set(w.rbd.snaps(w.spec))
        own = {s for s in snaps if s.startswith("backy-")}
        always = bool(w.source.get("full-always"))
        newest = (complete(w) or [None])[-1]
        keep = "backy-" + newest["uuid"] if newest and not always else None
        created = {e["cmd"][2].partition("@")[2] for e in mine
                   if e["cmd"][:2] == ["snap", "create"]}
        # found damaged by the verification at the very end; the next backup
        # removes its snapshot
        late = self.newest and self.newest["uuid"] not in {
            r["uuid"] for r in w.revs()}
        if keep and keep in self.snaps | created and keep not in snaps and (
                new or not late):
            bad("the snapshot of the newest complete local revision is gone",
                keep=keep)
        if keep and not new and keep in snaps:
            c.count("parent_kept_after_failure")
        if new and keep == "backy-" + new[-1]["uuid"] and keep not in snaps:
            bad("a successful backup leaves no snapshot", keep=keep)
        entered = [e for e in mine if e["cmd"][:2] == ["snap", "create"]]
        entered = entered and all(not e["fault"] for e in entered)
        ls = [e for e in mine if e["cmd"][:2] == ["snap", "ls"]]
        if entered:
            if not any(e["fault"] for e in ls):
                rmfault = {e["cmd"][2].partition("@")[2] for e in mine
                           if e["cmd"][:2] == ["snap", "rm"] and e["fault"]}
                ok = set(w.conf.get("protected", [])) | rmfault | {keep}
                if left:
                    ok |= {m["snap"] for m in w.rbd.jread("mapped.json", [])}
                if late:
                    ok.add("backy-" + self.newest["uuid"])
                if own - ok:
                    bad("own snapshots were not removed", left=sorted(own - ok))
                gone = {s for s in self.snaps if s.startswith("backy-")} - own
                if gone:
                    c.count("own_removed", len(gone))
                if always and not own:
                    c.count("none_kept_always_full")
                if own & set(w.conf.get("protected", [])):
                    c.count("protected")
                if own & rmfault and gone:
                    c.count("rm_failed_others_gone")
        if rc and new:
            c.count("complete_but_failed")
        c.count("failed" if rc else "succeeded")
        return parent, calls, new


def dirty(c, w, rng, trace, fake):
    """Something happens to the snapshots or revisions between backups."""
    k = rng.random()
    snaps = w.rbd.snaps(w.spec)
    if k < 0.22:
        n = rng.choice(FOREIGN)
        if n not in snaps:
            w.rbd.snap_create(w.spec, n)
            trace.append("foreign %s" % n)
    elif k < 0.5:
        revs = w.revs()
        u = rng.choice(revs)["uuid"] if revs else "x"
        n = rng.choice(["backy-stale%d" % rng.randrange(99), "backy-", "backy-1",
                        "backy-backy-" + u, "backy-" + u[:-1], "backy-%sbacky-" % u])
        wrong = [r["uuid"] for r in revs if r.get("server")
                 or r["trust"] == "distrusted"]
        if wrong and rng.random() < 0.5:
            n = "backy-" + rng.choice(wrong)
        if n not in snaps:
            # of the same image, so a diff from it can even succeed
            w.rbd.snap_create(w.spec, n)
            fake.add(n)
            trace.append("own %s" % n)
    elif k < 0.6 and snaps:
        n = rng.choice(snaps)
        m = w.rbd.meta(w.spec)
        m["snaps"] = [s for s in m["snaps"] if s["name"] != n]
        w.rbd.set_meta(w.spec, m)
        os.unlink(w.rbd.snap_file(w.spec, n))
        trace.append("gone %s" % n)
    elif k < 0.72 and complete(w):
        u = rng.choice(complete(w)[-2:])["uuid"]
        w.backy("distrust", "-r", u)
        trace.append("distrust %s" % u)
    elif k < 0.78:
        w.backy("verify", "-r", "local")
        trace.append("verify")
    elif k < 0.86 and complete(w):
        u = rng.choice(complete(w)[-2:])["uuid"]
        w.backy("rm", "-r", u)
        trace.append("rm %s" % u)
    elif k < 0.92:
        u = remote(w, rng)
        trace.append("remote %s" % u)
        if rng.random() < 0.7:
            w.rbd.snap_create(w.spec, "backy-" + u)
            fake.add("backy-" + u)
    elif snaps:
        w.set_conf(protected=[s for s in snaps if rng.random() < 0.3])
        trace.append("protected %s" % w.conf["protected"])


def run(c):
    rng, spec = c.rng, c.spec
    always = rng.random() < 0.2
    rel = rng.choice(["nautilus", "nautilus", "luminous", "jewel"])
    name = rng.choice(["vm0", "test01.root", "a-b_c", "backy-x"])
    maps = []
    for i in range(rng.choice([0, 0, 1, 3])):
        maps.append({"id": str(1000 + i), "pool": rng.choice(["rbd", "other"]),
                     "namespace": "", "name": rng.choice([name, name + "2", "zz"]),
                     "snap": rng.choice(["-", "keep-me", "backy-1", "s"]),
                     "device": "/nonexistent/rbd%d" % i})
    sizes = [3 * CHUNK, 2 * CHUNK - 512] if spec["i"] % 3 == 1 else [
        CHUNK, 2 * CHUNK - 512, 4096]
    w = World(c, name=name, image_size=rng.choice(sizes),
              conf={"gran": 65536, "whole": rng.choice([True, False]),
                    "release": rel, "foreign_maps": maps},
              source={"type": "rbd", "pool": "rbd", "image": name,
                      **({"full-always": True} if always else {})})
    w.rbd.create(w.spec, rng.choice(sizes))
    if spec["i"] % 3 == 1:
        w.rbd.write(w.spec, CHUNK + 5, blob(rng, 4000, "rand"))
    if maps:
        c.count("foreign_maps")
    w.rbd.write(w.spec, 0, blob(rng, 4000, "rand"))
    # neighbours
    for s in ("rbd/" + name + "2", "rbd/x" + name, "other/" + name):
        w.rbd.create(s, 4096)
        for n in ("backy-a", "backy-b", "keep"):
            w.rbd.snap_create(s, n)
    w2 = None
    if spec["i"] % 4 == 0:
        w2 = World(c, name=name + "-b", rbd=w.rbd, conf=w.conf,
                   source={"type": "rbd", "pool": "rbd", "image": name + "-b"})
        w.rbd.create(w2.spec, 8192)
        w.rbd.write(w2.spec, 0, blob(rng, 4000, "rand"))
    trace, fake, harmed = [], set(), False
    for r in range(spec["rounds"]):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            dirty(c, w, rng, trace, fake)
        size = w.rbd.meta(w.spec)["size"]
        w.rbd.write(w.spec, rng.randrange(size - 600), blob(rng, 512, "rand"))
        fault = None
        tampered = False
        if rng.random() < (0.25 if spec["i"] % 3 == 1 else 0.55):
            fault = dict(rng.choice(WAYS), match=rng.choice(KINDS))
            k = rng.random()
            if k < 0.75 or fault["match"] == ".":
                fault["nth"] = rng.choice(
                    [1, 1, 2, 3] if fault["match"] != "." else range(1, 14))
            if "truncate" in fault:
                fault["match"] = "^export"
            w.faults(fault)
        elif rng.random() < 0.2:
            tampered = True
            w.set_conf(tamper=[[rng.randrange(0, size - 4), "aabbccdd"]])
        elif rng.random() < 0.15:
            w.set_conf(nodev=True)
            tampered = True
        elif spec["i"] % 3 == 1 and complete(w) and rng.random() < 0.6:
            # what has been stored so far gets damaged
            r0 = complete(w)[-1]
            hs = sorted(set(w.map_of(r0["uuid"])["mapping"].values()))
            h = rng.choice(hs) if hs else None
            if h and os.path.exists(w.chunk_file(h)) and damage.harm(
                    rng, w.chunk_file(h), rng.choice(damage.KINDS), []):
                harmed = True
        watch = Watch(w)
        w.tick(minutes=2)
        what = "(round %d, fault %s%s)" % (
            r, json.dumps(fault), ", device differs" if tampered else
            ", damaged store" if harmed else "")
        trace.append("backup " + what)
        try:
            if w2 and not fault and rng.random() < 0.6:
                w2.rbd.write(w2.spec, rng.randrange(7000), blob(rng, 512, "rand"))
                watch2 = Watch(w2)
                w2.tick(minutes=2)
                p = w.start_backy("backup", "-f", "daily")
                q = w2.start_backy("backup", "-f", "daily")
                try:
                    rc, rc2 = p.wait(120), q.wait(120)
                finally:
                    p.close()
                    q.close()
                c.count("parallel")
                watch2.judge(c, rc2, what + " in parallel", alone=False)
                res = watch.judge(c, rc, what + " in parallel", alone=False)
                if not tampered and rc2:
                    # (stores are not shared, so damage is no excuse)
                    raise Violation("an undisturbed parallel backup failed",
                                    log=w2.log_tail())
            else:
                rc, out, err = w.backy("backup", "-f", "daily")
                res = watch.judge(c, rc, what)
        except Violation as e:
            e.detail["history"] = trace[-40:]
            raise
        parent, calls, new = res
        hit = [e for e in calls if e["fault"]]
        if fault and hit:
            c.count("faulted")
        elif tampered:
            c.count("mismatch" if rc else "tamper_unseen")
        elif harmed:
            # it may well fail then; a good one need not heal everything
            c.count("damaged_failed" if rc else "damaged_ok")
        else:
            c.count("undisturbed")
            # (a made-up base gives a wrong diff, which is found out)
            if (rc or len(new) != 1) and parent not in fake:
                raise Violation("an undisturbed backup failed " + what, rc=rc,
                                log=w.log_tail(), history=trace[-40:])
        c.distinct(
            "always" if always else "inc" if parent else "full",
            " ".join(hit[0]["cmd"][:2]) if hit and hit[0]["cmd"][0] == "snap"
            else hit[0]["cmd"][0] if hit else None,
            tuple(sorted(k for k in fault if k not in ("match", "nth")))
            if hit else None, rc, tampered,
            tuple(sorted({"own" if s.startswith("backy-") else "foreign"
                          for s in watch.snaps})), rel)
        c.sample(" ".join(trace[-1:]) + " -> exit %s" % rc)
        w.faults()
        w.set_conf(tamper=None, nodev=None, protected=w.conf.get("protected", [])
                   if rng.random() < 0.5 else [])
        # mappings leaked through faults: the admin removes them
        for m in w.rbd.jread("mapped.json", []):
            if os.path.lexists(m["device"]):
                os.unlink(m["device"])
        w.rbd.jwrite("mapped.json", [])
