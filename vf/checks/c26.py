"""C26: exit statuses and problem reports are true."""
import datetime
import fcntl
import hashlib
import json
import os
import re
import shutil
import stat

import yaml

from vf import sched
from vf.core import Inconclusive, Violation
from vf.repo import CHUNK, World, blob, load, mutate_image, save, tree_state

PROPERTY = "C26"
LEVEL = "fault_enumeration"
TECHNIQUE = (
    "monitors on exit status and effect of real commands: workers with every "
    "kind of outcome (stand-ins with chosen exit status or signal; real ones "
    "killed or failing), held locks, differing devices, report histories"
)
NOTE = (
    "Effects are checked on disk after exit status 0 only. Which statuses, "
    "signals and kill positions are tried is sampled, all small statuses and "
    "usual signals are among them."
)
RULE = (
    "one evaluation = one command whose exit status and effect were judged; "
    "distinct = (kind, command, outcome of the worker or fault, exit status)"
)
MUST_SEE = ["stub_ok", "stub_status", "stub_signal", "stub_missing", "multi_verify",
            "worker_killed", "locked", "refused", "mismatch", "report_listed",
            "report_shown", "report_deleted", "report_unknown", "report_subset",
            "extract_status", "extract_signal", "extract_ok", "bg", "bg_ran", "several", "daemon_stub",
            "cannot", "late_kill", "mismatch_full", "mismatch_incremental"]
SIGNALS = [1, 2, 3, 4, 6, 7, 8, 9, 11, 13, 14, 15, 24, 31]
BASEPATH = ":/opt/venv/bin:/usr/bin:/bin"


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for what, k, n in (("stub", 8, 26), ("mismatch", 8, 6), ("crash", 8, 16),
                       ("locked", 6, 14), ("reports", 6, 22), ("extract", 4, 14),
                       ("bg", 3, 6)):
        out += [{"what": what, "i": i, "n": n if q else 3 * n}
                for i in range(k if q else 5 * k)]
    rng.shuffle(out)
    return out


def run(c):
    globals()["do_" + c.spec["what"]](c)


def world(c, **kw):
    rng = c.rng
    w = World(c, image_size=kw.pop("image_size", rng.choice([CHUNK, 2 * CHUNK])), **kw)
    w.rbd.write(w.spec, 0, blob(rng, 20000, "rand"))
    return w


def newest(w):
    return [r for r in w.revs() if w.complete(r)][-1]


# -- stand-ins for the worker


def stubs(c, name):
    d = os.path.join(c.dir, "stub")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("""#!/bin/sh
echo "$@" >> %(d)s/calls
n=$(wc -l < %(d)s/calls)
o=$(sed -n "${n}p" %(d)s/plan)
case "$o" in
k*) kill -${o#k} $$; sleep 60;;
*) exit $o;;
esac
""" % {"d": d})
    os.chmod(p, 0o755)
    return d


def plan(d, outcomes):
    with open(os.path.join(d, "plan"), "w") as f:
        f.write("".join("%s\n" % o for o in outcomes))
    open(os.path.join(d, "calls"), "w").close()


def calls(d):
    with open(os.path.join(d, "calls")) as f:
        return [x.split() for x in f]


def outcome(rng):
    k = rng.random()
    if k < 0.3:
        return "0"
    if k < 0.65:
        return str(rng.choice([1, 1, 2, 3, 4, 75, 127, 126, 128, 137, 254, 255,
                               rng.randrange(1, 256)]))
    return "k%d" % rng.choice(SIGNALS)


def do_stub(c):
    rng = c.rng
    w = world(c)
    for _ in range(4):
        w.backup(rng.choice(["daily", "daily,weekly", "manual:x"]))
    d = stubs(c, "backy-rbd")
    env = {"PATH": d + ":" + w.z.bin + BASEPATH}
    for i in range(c.spec["n"]):
        cmd = rng.choice(["backup", "restore", "verify", "verify", "gc", "gc-expire"])
        revs = [r["uuid"] for r in w.revs()]
        n = 1
        if cmd == "backup":
            args = ["backup", "-f", "daily"]
        elif cmd == "restore":
            args = ["restore", "-r", rng.choice(revs), "rbd",
                    os.path.join(c.dir, "target")]
        elif cmd == "gc":
            args = ["gc"]
        elif cmd == "gc-expire":
            args = ["gc", "--expire", "--local"]
        else:
            spec = rng.choice(["all", "latest", "first", "last(1)", revs[0],
                               "all,latest", "not:latest"])
            ids = w.backy("rev-parse", "--uuid", "-r", spec)[1].decode().split()
            if not ids:
                continue
            n = len(ids)
            args = ["verify", "-r", spec]
        missing = rng.random() < 0.07
        outs = [outcome(rng) for _ in range(n)]
        if n > 1 and rng.random() < 0.5:
            # one bad one among good ones
            outs = ["0"] * n
            outs[rng.randrange(n)] = outcome(rng)
        plan(d, outs)
        if missing:
            os.rename(d, d + ".gone")
            e = {"PATH": "/usr/bin:/bin"}
        else:
            e = env
        try:
            rc, out, err = w.backy(*args, env=e, timeout=60)
        finally:
            if missing:
                os.rename(d + ".gone", d)
        c.count("evaluations")
        got = calls(d)
        info = dict(args=args, outcomes=outs, called=got, rc=rc, log=w.log_tail(2000))
        c.distinct("stub", cmd, missing, tuple(sorted(set(outs))) if n < 2
                   else (n, len(set(outs))), rc)
        if missing:
            c.count("stub_missing")
            if rc == 0:
                raise Violation("exit status 0 though the worker could not be "
                                "started", **info)
            continue
        worst = [o for o in outs if o != "0"]
        ran = outs[: len(got)]
        if n > 1:
            c.count("multi_verify")
        for o in ran:
            c.count("stub_ok" if o == "0" else "stub_signal" if o[0] == "k"
                    else "stub_status")
        if rc == 0 and any(o != "0" for o in ran):
            raise Violation("exit status 0 though the worker %s" % (
                "was killed" if any(o[0] == "k" for o in ran) else "failed"), **info)
        if rc == 0 and len(got) != n:
            raise Violation("exit status 0 but the worker was started %d times "
                            "for %d tasks" % (len(got), n), **info)
        if rc == 0:
            if cmd == "verify" and sorted(g[-1] for g in got) != sorted(ids):
                raise Violation("exit status 0 but something else was verified", **info)
            if cmd == "restore" and args[2] not in got[0]:
                raise Violation("exit status 0 but something else was restored", **info)
        if rc != 0 and not worst:
            raise Violation("a failure is reported though all went well", **info)
        c.sample(dict(args=args[:2], outcomes=outs, rc=rc))
        # the stand-in makes no backups, so nothing new may have come to stay
        if cmd == "backup" and {r["uuid"] for r in w.revs()} - set(revs):
            raise Violation("a backup that was not made has a revision", **info)
        if len(w.revs()) < 2:
            for _ in range(3):
                w.backup("daily,weekly")


def do_extract(c):
    """backy-extract does the restore."""
    rng = c.rng
    w = world(c)
    w.backup()
    d = os.path.join(c.dir, "stub")
    os.makedirs(d)
    p = os.path.join(d, "backy-extract")
    u = newest(w)["uuid"]
    for i in range(c.spec["n"]):
        o = outcome(rng)
        with open(p, "w") as f:
            f.write("#!/bin/sh\nif [ \"$1\" = --version ]; then echo backy-extract "
                    "1.1.0; exit 0; fi\necho \"$@\" > %s/calls\n%s\n" % (
                        d, "kill -%s $$; sleep 60" % o[1:] if o[0] == "k" else "exit " + o))
        os.chmod(p, 0o755)
        if os.path.exists(d + "/calls"):
            os.unlink(d + "/calls")
        how = rng.choice([["rbd"], ["rbd", "--backend", "rust"]])
        t = os.path.join(c.dir, "target%d" % i)
        env = {"PATH": d + ":" + w.z.bin + BASEPATH}
        if rng.random() < 0.5:
            rc, _, _ = w.backy("restore", "-r", u, *how, t, env=env, timeout=60)
        else:
            rc, _, _ = w.worker("restore", *how[1:], u, t, env=env, timeout=60)
        c.count("evaluations")
        c.distinct("extract", o, tuple(how), rc)
        used = os.path.exists(d + "/calls")
        info = dict(outcome=o, rc=rc, how=how, log=w.log_tail(1500))
        if used:
            c.count("extract_ok" if o == "0" else "extract_signal" if o[0] == "k"
                    else "extract_status")
            if rc == 0 and o != "0":
                raise Violation("exit status 0 though backy-extract failed", **info)
            if rc and o == "0":
                raise Violation("a failure is reported though all went well", **info)
        elif rc == 0:
            # it restored by itself: then it has to be right
            from vf.repo import diff_files
            x = diff_files(t, w.truth_file(u)) if os.path.exists(t) else "no file"
            if x:
                raise Violation("exit status 0 but the data differs", diff=x, **info)


# -- real workers that die or cannot


def effect(w, cmd, args, before):
    """None if what a command was asked to do has been done, or what is missing."""
    now = {r["uuid"]: r for r in w.revs()}
    if cmd == "backup":
        new = [u for u in now if u not in before and w.complete(now[u])]
        if len(new) != 1:
            return "no complete revision"
        w.check_restore(new[0], what="(exit status 0)")
    elif cmd == "verify":
        u = args[2]
        if u in now and now[u]["trust"] != "verified":
            return "not verified"
    elif cmd == "rm":
        if args[2] in now:
            return "still there"
    elif cmd == "distrust":
        if now[args[2]]["trust"] != "distrusted":
            return "not distrusted"
    elif cmd == "tags":
        if now[args[4]]["tags"] != [args[5]]:
            return "tags not set"
    elif cmd == "gc":
        used = set()
        for u in now:
            used |= set(w.map_of(u)["mapping"].values())
        if w.chunks() - used:
            return "unused chunks are left"
    elif cmd == "restore":
        from vf.repo import diff_files

        t = args[-1]
        if not os.path.exists(t):
            return "nothing restored"
        d = diff_files(t, w.truth_file(args[2]))
        if d:
            return "restored data differs: " + d
    return None


def command(w, rng, cmd, c):
    revs = [r["uuid"] for r in w.revs() if w.complete(r)]
    u = rng.choice(revs)
    return {"backup": ["backup", "-f", "daily"], "verify": ["verify", "-r", u],
            "rm": ["rm", "-r", u], "distrust": ["distrust", "-r", u],
            "tags": ["tags", "-f", "set", "-r", u, "manual:zz"],
            "gc": ["gc"],
            "restore": ["restore", "-r", u, "rbd", os.path.join(c.dir, "target")]}[cmd]


def garbage_chunk(w, rng):
    h = rng.randbytes(16).hex()
    p = w.chunk_file(h)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(b"x")


def judge(c, w, cmd, args, rc, before, what, never=False):
    c.count("evaluations")
    info = dict(args=args, rc=rc, log=w.log_tail(2500))
    if rc == 0 and never:
        raise Violation("exit status 0 of %s %s" % (cmd, what), **info)
    if rc == 0:
        e = effect(w, cmd, args, before)
        if e:
            raise Violation("exit status 0 of %s but %s %s" % (cmd, e, what), **info)
    c.sample("%s %s -> exit %s" % (cmd, what, rc))


def do_crash(c):
    rng = c.rng
    w = world(c)
    for _ in range(3):
        w.backup("daily")
        w.rbd.write(w.spec, rng.randrange(9000), blob(rng, 700, "rand"))
    w.backy("rm", "-r", "first")
    saved = save(w)
    lengths = {}
    for i in range(c.spec["n"]):
        load(w, saved)
        w.faults()
        t = os.path.join(c.dir, "target")
        if os.path.isdir(t):
            shutil.rmtree(t)
        elif os.path.exists(t):
            os.unlink(t)
        garbage_chunk(w, rng)
        cmd = rng.choice(["backup", "verify", "gc", "restore"])
        args = command(w, rng, cmd, c)
        before = {r["uuid"]: r for r in w.revs()}
        argv = ("backy", "-C", w.path, *args)
        k = rng.random()
        if k < 0.5:
            # killed before one of its operations
            if cmd not in lengths:
                rc, evs, _ = sched.trace(w, argv, ("backy-rbd",))
                if rc or not evs:
                    raise Violation("an undisturbed %s fails" % cmd, log=w.log_tail())
                lengths[cmd] = max(map(len, evs.values()))
                continue
            m = lengths[cmd]
            p = rng.choice([rng.randrange(1, m + 1), rng.randrange(1, m + 1),
                            m, m - 1, max(1, m - 3)])
            rc, _, _ = w.run(*argv, env=sched.shim(w, "backy-rbd", kill=p))
            c.count("worker_killed")
            if p > m - 4:
                c.count("late_kill")
            c.distinct("kill", cmd, p * 8 // m, rc)
            # (a run may have fewer operations than the one counted)
            judge(c, w, cmd, args, rc, before, "(worker killed at %d of %d)" % (p, m))
        elif k < 0.68 and cmd == "backup":
            n = rng.randrange(1, 9)
            w.faults({"match": ".", "nth": n,
                      "killparent": rng.choice(["before", "after"])})
            rc, _, _ = w.run(*argv)
            w.faults()
            c.count("worker_killed")
            c.distinct("killparent", n, rc)
            judge(c, w, cmd, args, rc, before, "(worker killed by rbd call %d)" % n,
                  never=True)
        else:
            # cannot be done
            never = True
            if cmd == "restore":
                x = rng.choice(["dir", "missing-dir", "chunk", "map"])
                u = args[2]
                if x == "dir":
                    os.mkdir(t)
                elif x == "missing-dir":
                    args[-1] = os.path.join(c.dir, "no", "such", "target")
                elif x == "chunk":
                    m = list(w.map_of(u)["mapping"].values())
                    os.unlink(w.chunk_file(rng.choice(m)))
                else:
                    os.unlink(os.path.join(w.path, u))
            elif cmd == "backup":
                x = rng.choice(["image", "config", "type"])
                if x == "image":
                    shutil.rmtree(w.rbd.idir(w.spec))
                elif x == "config":
                    os.unlink(os.path.join(w.path, "config"))
                else:
                    w.faults({"match": "^snap create", "before": 1, "rc": 1})
            elif cmd == "verify":
                x = rng.choice(["nosuch", "map"])
                if x == "nosuch":
                    args[2] = "nosuchrevision"
                else:
                    os.unlink(os.path.join(w.path, args[2]))
            else:
                # gc of a repository whose data cannot be scanned
                x = "map"
                u = newest(w)["uuid"]
                with open(os.path.join(w.path, u), "w") as f:
                    f.write("{not json")
                never = True
            rc, _, _ = w.backy(*args)
            w.faults()
            c.count("cannot")
            c.distinct("cannot", cmd, x, rc)
            judge(c, w, cmd, args, rc, before, "(%s)" % x, never=never)


def do_locked(c):
    rng = c.rng
    w = world(c)
    for _ in range(3):
        w.backup("daily")
        w.rbd.write(w.spec, rng.randrange(9000), blob(rng, 700, "rand"))
    w.backy("distrust", "-r", "first")
    saved = save(w)
    for i in range(c.spec["n"]):
        load(w, saved)
        garbage_chunk(w, rng)
        cmd = rng.choice(["backup", "verify", "gc", "rm", "distrust", "tags", "verify"])
        args = command(w, rng, cmd, c)
        before = {r["uuid"]: r for r in w.revs()}
        mode = fcntl.LOCK_SH if cmd == "gc" else fcntl.LOCK_EX
        name = ".purge" if cmd == "gc" else ".backup"
        with open(os.path.join(w.path, name), "a") as f:
            hold = rng.random() < 0.8
            if hold:
                fcntl.flock(f, mode)
                c.count("locked")
            rc, _, _ = w.backy(*args, timeout=60)
        c.distinct("locked", cmd, hold, rc)
        judge(c, w, cmd, args, rc, before, "(%s%s held)" % (name, "" if hold else " not"))
        if rc and hold:
            c.count("refused")
        if rc and not hold:
            raise Violation("an undisturbed %s fails" % cmd, log=w.log_tail())


# -- mismatches and their reports


def reports(w):
    d = os.path.join(w.path, "quarantine")
    if not os.path.isdir(d):
        return {}
    return {n[:-7]: open(os.path.join(d, n), "rb").read()
            for n in os.listdir(d) if n.endswith(".report")}


def do_mismatch(c):
    rng = c.rng
    size = rng.choice([CHUNK, CHUNK, 2 * CHUNK, 3 * CHUNK, 4096, CHUNK + 777])
    w = world(c, image_size=size)
    if c.spec["i"] % 3 == 0:
        w.source["full-always"] = True
        w.write_config()
    if c.spec["i"] % 2:
        w.backup()
    for i in range(c.spec["n"]):
        w.rbd.write(w.spec, rng.randrange(max(1, size - 5000)), blob(rng, 900, "rand"))
        before = {r["uuid"]: r for r in w.revs()}
        old = reports(w)
        edits = []
        for b in range(0, max(1, size // CHUNK)):
            o = b * CHUNK + rng.choice([0, rng.randrange(min(size, CHUNK) - 4)])
            edits.append([o, rng.randbytes(rng.choice([1, 2, 4])).hex()])
        nlog = len(w.rbd.read_log())
        w.set_conf(tamper=edits)
        w.tick(minutes=1)
        rc, _, err = w.backy("backup", "-f", "daily")
        w.set_conf(tamper=None)
        evs = w.rbd.read_log()[nlog:]
        kind = {e["cmd"][0] for e in evs if e["ev"] == "call"}
        snap = [e["cmd"][2] for e in evs if e["ev"] == "call"
                and e["cmd"][:2] == ["snap", "create"]]
        truth = open(w.rbd.truth(w.spec, snap[0].split("@")[1]), "rb").read()
        dev = bytearray(truth)
        for o, hx in edits:
            dev[o : o + len(hx) // 2] = bytes.fromhex(hx)
        if all(dev[b * CHUNK : (b + 1) * CHUNK] != truth[b * CHUNK : (b + 1) * CHUNK]
               for b in range(max(1, size // CHUNK))):
            must = True
        else:
            must = False  # a random byte that was the same
        c.count("evaluations")
        now = {r["uuid"]: r for r in w.revs()}
        rep = reports(w)
        new = [n for n in rep if n not in old]
        info = dict(rc=rc, edits=edits, log=w.log_tail(2500), reports=new)
        if not must:
            c.count("not_different")
            continue
        c.count("mismatch")
        c.count("mismatch_incremental" if "export-diff" in kind else "mismatch_full")
        if rc == 0:
            raise Violation("exit status 0 though source and backup differ", **info)
        if set(now) - set(before):
            raise Violation("a backup that differs from its source is kept", **info)
        if set(before) - set(now):
            raise Violation("other revisions are gone after a mismatch", **info)
        if any(rep.get(n) != v for n, v in old.items()):
            raise Violation("other reports changed", **info)
        if not new:
            raise Violation("a difference leaves no problem report", **info)
        for n in new:
            r = yaml.safe_load(rep[n])
            off = r.get("offset")
            if not isinstance(off, int) or not 0 <= off < max(1, size):
                raise Violation("a report names no offset", report=r, **info)
            q = os.path.join(w.path, "quarantine", "chunks")
            for key, data in (("source_hash", dev), ("target_hash", truth)):
                h = r.get(key)
                try:
                    with open(os.path.join(q, str(h)), "rb") as f:
                        got = f.read()
                except OSError as e:
                    raise Violation("a report's data is missing", which=key,
                                    report=r, **info)
                want = bytes(data[off : off + len(got)])
                if not got or got != want:
                    raise Violation("a report has wrong data", which=key,
                                    report=r, **info)
                if hashlib.md5(got).hexdigest() != h:
                    raise Violation("a report's data has another hash", **info)
            a, b = r["source_hash"], r["target_hash"]
            if a == b:
                raise Violation("both versions of a report are the same", **info)
            out = w.backy("reports-show", n)[1].decode()
            if str(off) not in out or a not in out or b not in out:
                raise Violation("a report is not shown", out=out[:500], **info)
            c.count("report_shown")
            if w.backy("check")[0] == 0:
                raise Violation("check is content with problem reports", **info)
        listed = w.backy("reports-list")[1].decode().split()
        if sorted(listed) != sorted(rep):
            raise Violation("reports-list is wrong", listed=listed, **info)
        c.count("report_listed")
        c.distinct("mismatch", len(edits), tuple(sorted(kind)), len(rep), rc)
        for r in before:
            w.check_restore(r, what="after a mismatch")
        k = rng.random()
        if k < 0.4:
            w.backup()
        elif k < 0.6:
            x = rng.choice(sorted(rep))
            delete(c, w, [x], rng)


def delete(c, w, ids, rng):
    old = reports(w)
    state = tree_state(w.path)
    rc, out, err = w.backy("reports-delete", ",".join(ids))
    now = reports(w)
    c.count("evaluations")
    info = dict(ids=ids, rc=rc, before=sorted(old), after=sorted(now), err=err[-500:])
    if rc == 0 and any(i in now for i in ids):
        raise Violation("exit status 0 but a report is not deleted", **info)
    if rc == 0 and any(i not in old for i in ids):
        raise Violation("exit status 0 of deleting a report that does not exist", **info)
    if {n: v for n, v in old.items() if n not in ids} != \
            {n: v for n, v in now.items() if n not in ids}:
        raise Violation("deleting reports touched others", **info)
    if all(i in old for i in ids):
        if rc:
            raise Violation("deleting reports fails", **info)
        c.count("report_deleted")
        if len(now):
            c.count("report_subset")
    else:
        c.count("report_unknown")
    # revisions and chunks are not reports
    a = {k: v for k, v in state.items() if not k.startswith("quarantine")}
    b = {k: v for k, v in tree_state(w.path).items() if not k.startswith("quarantine")}
    if a != b:
        raise Violation("deleting reports changed something else", **info)
    c.distinct("delete", len(ids), len(old), len(now), rc)


def do_reports(c):
    rng = c.rng
    w = world(c, image_size=4096)
    w.backup()
    q = os.path.join(w.path, "quarantine")
    for i in range(c.spec["n"]):
        have = sorted(reports(w))
        k = rng.random()
        if k < 0.3 or not have:
            for _ in range(rng.randrange(1, 4)):
                n = rng.choice(["abcDEF123", "x", "bBHGDmHhPznFWsJNUCFnBJ",
                                "long" * 9]) + str(rng.randrange(1000))
                with open(os.path.join(q, n + ".report"), "w") as f:
                    yaml.safe_dump({"uuid": n, "timestamp": w.clock,
                                    "offset": rng.randrange(10**9)}, f)
            if rng.random() < 0.3:
                open(os.path.join(q, "notareport"), "w").close()
                os.makedirs(os.path.join(q, "chunks"), exist_ok=True)
        elif k < 0.4:
            w.rbd.write(w.spec, 0, blob(rng, 300, "rand"))
            w.set_conf(tamper=[[rng.randrange(4000), rng.randbytes(8).hex()]])
            w.tick(minutes=1)
            rc = w.backy("backup", "-f", "daily")[0]
            w.set_conf(tamper=None)
            if rc == 0 or len(reports(w)) != len(have) + 1:
                raise Violation("a mismatch leaves no new report", rc=rc,
                                before=len(have), after=len(reports(w)))
        elif k < 0.55:
            rc, out, _ = w.backy("reports-list")
            c.count("evaluations")
            if rc or sorted(out.decode().split()) != have:
                raise Violation("reports-list is wrong", rc=rc, out=out.decode(),
                                have=have)
            c.count("report_listed")
            c.distinct("list", len(have))
        elif k < 0.7:
            ids = rng.sample(have, rng.randrange(0, len(have) + 1))
            bogus = rng.random() < 0.25
            ask = ids + (["nosuchreport"] if bogus else [])
            rng.shuffle(ask)
            rc, out, _ = w.backy("reports-show", *([",".join(ask)] if ask else []))
            c.count("evaluations")
            if bogus and rc == 0:
                raise Violation("exit status 0 of showing a report that does not exist",
                                out=out.decode()[:500])
            text = out.decode()
            shown = [n for n in have if "uuid: " + n + "\n" in text]
            if not bogus and (rc or sorted(shown) != sorted(ids or have)):
                raise Violation("reports-show shows something else", rc=rc, asked=ids,
                                shown=shown, have=have)
            c.count("report_shown")
            c.distinct("show", len(ids), bogus, rc)
        elif k < 0.93:
            ids = rng.sample(have, rng.randrange(1, min(4, len(have)) + 1))
            if rng.random() < 0.25:
                ids.insert(rng.randrange(len(ids) + 1), "nosuchreport")
            delete(c, w, ids, rng)
        else:
            rc, out, err = w.backy("reports-delete", "--all-reports")
            c.count("evaluations")
            if rc or reports(w):
                raise Violation("deleting all reports", rc=rc, left=sorted(reports(w)),
                                err=err[-500:])
            c.count("report_deleted")
            c.distinct("all", len(have))
        rc = w.backy("check")[0]
        n = len(reports(w))
        if n and rc == 0 or not n and rc != 0:
            raise Violation("check with %d reports exits %s" % (n, rc))
        c.sample("reports: %s -> %d left" % (k, n))


# -- backups by the daemon


def several(c, s, backy):
    """One command for both jobs, that fails for some of them."""
    rng = c.rng
    ids = {}
    for n in ("a", "b"):
        ids[n] = "Oldone" + n * 16
        with open(os.path.join(s.base, n, ids[n] + ".rev"), "w") as f:
            yaml.safe_dump({
                "uuid": ids[n], "timestamp": datetime.datetime(
                    2020, 1, 1, tzinfo=datetime.timezone.utc), "parent": "",
                "stats": {"duration": 1.0}, "trust": "trusted",
                "tags": [rng.choice(["manual:p", "manual:q"])], "orig_tags": [], "server": ""}, f)

    def tags(n):
        with open(os.path.join(s.base, n, ids[n] + ".rev")) as f:
            return yaml.safe_load(f)["tags"]

    old = {n: tags(n) for n in ids}
    rc = backy("-a", "tags", "set", "-f", "-r", "first", "--expect", "manual:p", "manual:n")
    now = {n: tags(n) for n in ids}
    c.count("several")
    c.distinct("several", str(old), rc)
    if rc == 0 and any(t != ["manual:n"] for t in now.values()):
        raise Violation("exit status 0 although the tags of a job are not those expected",
                        before=old, after=now)
    if any(now[n] not in (old[n], ["manual:n"]) or
           now[n] != old[n] and old[n] != ["manual:p"] for n in ids):
        raise Violation("tags changed against expectations", before=old, after=now)
    hit = [n for n in ids if rng.random() < 0.5]
    for n in ids:
        d = os.path.join(s.base, n, "quarantine")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "xy.report"), "w") as f:
            f.write("x")
        if n not in hit:
            os.unlink(os.path.join(d, "xy.report"))
    rc = backy("-a", "check")
    if hit and rc == 0:
        raise Violation("check of all jobs is happy although one has reports",
                        jobs=str(hit))
    if not hit and rc == 1:
        raise Violation("check of all jobs reports problems that do not exist")
    c.distinct("several-check", str(hit), rc)


def stubbed(c, s, backy):
    """A daemon that answers as told."""
    import http.server
    import threading

    rng = c.rng
    answers, got = [], []

    class H(http.server.BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"

        def log_message(self, *a):
            pass

        def send(self, code, data=b""):
            self.send_response(code)
            self.send_header("Content-Type", "application/json")
            self.send_header("Content-Length", str(len(data)))
            self.send_header("Connection", "close")
            self.end_headers()
            self.wfile.write(data)
            self.close_connection = True

        def do_GET(self):
            self.send(200, json.dumps([
                {"name": n, "path": os.path.join(s.base, n),
                 "schedule": s.conf["schedules"]["default"]} for n in ("a", "b", "x")
            ]).encode())

        def do_POST(self):
            code = answers[len(got)] if len(got) < len(answers) else 202
            got.append((self.path, code))
            if code is None:
                self.close_connection = True
            else:
                self.send(code)

    for n in ("a", "b", "x"):
        os.makedirs(os.path.join(s.base, n), exist_ok=True)
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    th = threading.Thread(target=srv.serve_forever, daemon=True)
    th.start()
    conf = json.loads(json.dumps(s.conf))
    conf["api"]["cli-default"]["url"] = "http://127.0.0.1:%d" % srv.server_port
    cf = os.path.join(c.dir, "stubbed.conf")
    with open(cf, "w") as f:
        yaml.safe_dump(conf, f)
    try:
        for i in range(5):
            flt, names = rng.choice([(".*", "abx"), ("^a$", "a"), ("a|x", "ax")])
            answers[:] = [rng.choice([202, 202, 202, 404, 500, 401, 503, None])
                          for n in names]
            got.clear()
            rc = backy("--jobs", flt, "backup", "--bg", "x", cf=cf)
            want = ["/v1/jobs/%s/run" % n for n in names]
            ok = [p for p, code in got if code == 202]
            c.distinct("stubbed", str(got), rc)
            c.count("daemon_stub")
            if rc == 0 and ok != want:
                raise Violation("backup --bg exits 0 although not all jobs were "
                                "triggered", got=str(got))
            if rc != 0 and ok == want:
                raise Violation("backup --bg fails although all jobs were triggered",
                                got=str(got), rc=rc)
    finally:
        srv.shutdown()
        srv.server_close()


def do_bg(c):
    import time

    from vf.live import Live

    rng = c.rng
    sched_ = {"default": {"daily": {"interval": "1d", "keep": 3}}}
    src = os.path.join(c.dir, "src")
    with open(src, "wb") as f:
        f.write(b"data" * 99)
    s = Live(c, jobs={n: {"source": {"type": "file", "filename": src},
                          "schedule": "default"} for n in ("a", "b")})

    def backy(*a, cf=None):
        rc, out, err = s.z.run("backy", "-c", cf or s.cf, *a, env=s.env, cwd=s.base)
        c.count("evaluations")
        return rc

    def revs(n):
        d = os.path.join(s.base, n)
        out = []
        for x in os.listdir(d) if os.path.isdir(d) else []:
            if x.endswith(".rev"):
                try:
                    with open(os.path.join(d, x)) as f:
                        r = yaml.safe_load(f)
                except OSError:
                    continue
                if r and "duration" in (r.get("stats") or {}):
                    out.append(x)
        return out

    stubbed(c, s, backy)
    # no daemon
    rc = backy("--jobs", "^a$", "backup", "--bg", "x")
    if rc == 0:
        raise Violation("exit status 0 without a daemon")
    c.distinct("bg", "no daemon", rc)
    c.count("bg")
    s.start()
    try:
        bad = os.path.join(c.dir, "bad.conf")
        conf = json.loads(json.dumps(s.conf))
        conf["api"]["cli-default"]["token"] = "wrong"
        with open(bad, "w") as f:
            yaml.safe_dump(conf, f)
        for i in range(c.spec["n"]):
            k = rng.random()
            if k < 0.2:
                rc = backy("-a", *rng.choice([("backup", "--bg", "x"), ("check",),
                                              ("show-jobs",), ("reports-list",)]), cf=bad)
                if rc == 0:
                    raise Violation("exit status 0 with a token that is refused")
                c.distinct("bg", "token", rc)
            elif k < 0.4:
                rc = backy("--jobs", "^nosuch$", rng.choice(["check", "reports-list", "log"]))
                if rc == 0:
                    raise Violation("exit status 0 for jobs that do not exist")
                c.distinct("bg", "unknown", rc)
            elif k < 0.75:
                several(c, s, backy)
            else:
                flt, names = rng.choice([("^a$", ["a"]), ("^b$", ["b"]), (".*", ["a", "b"])])
                old = {n: len(revs(n)) for n in names}
                rc = backy("--jobs", flt, "backup", "--bg", "x")
                c.distinct("bg", flt, rc)
                if rc:
                    raise Violation("triggering a backup fails", rc=rc, log=s.tail())
                end = time.monotonic() + 60
                # (the run may be one that was due anyway)
                while any(len(revs(n)) <= 0 for n in names):
                    if time.monotonic() > end:
                        raise Violation("exit status 0 but the daemon makes no backup",
                                        log=s.tail())
                    time.sleep(0.02)
                c.count("bg_ran")
            c.count("bg")
    finally:
        s.kill()
