"""C11: concurrent commands are serializable."""
import itertools
import os

from vf import sched
from vf.core import Inconclusive, Violation
from vf.repo import CHUNK, World, blob, load, save

PROPERTY = "C11"
LEVEL = "exploration"
TECHNIQUE = (
    "one real command is suspended at a chosen file system event while another "
    "one runs; the final state is compared with those that serial executions of "
    "the same real commands give"
)
NOTE = (
    "One preemption per execution, at sampled events of every kind; preferably "
    "right before locks are taken and while metadata is being read."
)
RULE = (
    "one evaluation = one interleaved execution of two commands; distinct = "
    "(commands, program and event where suspended, exit codes, serial order "
    "that explains it)"
)
MUST_SEE = ["A_before_B", "B_before_A", "listed_meanwhile", "before_lock",
            "one_failed"]
# who is run against whom; the first ones are found against all others
ONLY_B = ["rmgc"]
OPS = ["backup", "tags", "settags", "autoremove", "distrust", "rm", "verify",
       "expire", "gc", "list"]


def cases(tier, rng):
    out = []
    for i in range(2 if tier == "quick" else 10):
        for a in OPS:
            out.append({"a": a, "i": i, "n": 2 if tier == "quick" else 6,
                        "m": 5 if tier == "quick" and a != "backup" else 11})
        out.append({"a": "backup", "i": i, "n": 4, "m": 1, "hurt": True})
    # commands that take long first
    out.sort(key=lambda c: (c["a"] not in ("backup", "verify", "expire"), c["i"]))
    return out


class Op:
    """A command, and the steps it consists of."""

    def __init__(self, c, w, kind, who, uu, fake):
        self.w, self.kind, self.who, self.uu, self.fake = w, kind, who, uu, fake
        u = uu[0], uu[1]
        self.targets = self.first = None
        if kind == "backup":
            self.argv = ("backup", "-f", "daily,manual:bk" + who)
        elif kind == "tags":
            self.argv = ("tags", "add", "-f", "-r", "all", "manual:tg" + who)
        elif kind == "settags":
            self.argv = ("tags", "set", "-f", "-r", uu[1], "weekly,manual:st" + who)
        elif kind == "autoremove":
            self.argv = ("tags", "remove", "--autoremove", "-r", "all", "daily")
        elif kind in ("distrust", "rm", "verify"):
            self.targets = list(uu[:2]) if kind != "verify" else [uu[-1]]
            if who == "B" and kind == "rm":
                self.targets = [uu[1], uu[2]]
            if c.spec.get("hurt"):
                self.targets = list(uu)
            self.argv = (kind, "-r", ",".join(self.targets))
        elif kind == "expire":
            self.argv = ("gc", "--expire", "--local")
        elif kind == "gc":
            self.argv = ("gc",)
        elif kind == "rmgc":
            # the newest, and all its data
            self.argv = ("gc",)
            self.first = ("rm", "-r", uu[-1])
            self.targets = [uu[-1]]
        elif kind == "list":
            self.argv = ("log", "-r", "all") if who == "A" else (
                "rev-parse", "-r", "all")
        self.full = ("backy", "-C", w.path) + self.argv
        self.steps = {"backup": ["start", "work", "clean"],
                      "expire": ["expire", "gc"],
                      "rmgc": ["rm", "gc"], "list": []}.get(kind, [kind])

    def step(self, s):
        """Executes one step by itself with the real code."""
        w = self.w
        path = self.fake + ":" + w.z.base_env["PATH"]
        if s == "start":
            self.uuid = None
            before = {r["uuid"] for r in w.revs()}
            w.run(*self.full, env={"PATH": path, "FAKE": "kill"})
            new = [r["uuid"] for r in w.revs() if r["uuid"] not in before]
            if len(new) == 1:
                self.uuid = new[0]
        elif s == "work":
            if self.uuid and w.rev(self.uuid):
                w.worker("backup", self.uuid)
        elif s == "clean":
            w.run(*self.full, env={"PATH": path, "FAKE": "fail"})
        elif s == "expire":
            w.run(*self.full, env={"PATH": path, "FAKE": "ok"})
        elif s == "gc":
            w.worker("gc")
        elif self.targets:
            t = [u for u in self.targets if w.rev(u)]
            if t:
                w.run("backy", "-C", w.path, s, "-r", ",".join(t))
        else:
            w.run(*self.full)


def state(w, restorable=False):
    out = {}
    for r in w.revs():
        u = r["uuid"]
        for t in r["tags"]:
            if t.startswith("manual:bk"):
                u = t
        out[u] = (tuple(r["tags"]), r["trust"], w.complete(r), r.get("server", ""))
        if restorable and w.complete(r) and not r.get("server"):
            out[u] += (w.check_restore(r["uuid"], must=False),)
    return out


def setup(c, rng):
    w = World(c, image_size=(6 if c.spec.get("hurt") else 2) * CHUNK,
              schedule={"daily": {"interval": "1d", "keep": 2},
                        "weekly": {"interval": "7d", "keep": 2}})
    w.rbd.write(w.spec, 0, blob(rng, CHUNK + 99, "rand"))
    w.backup("daily,weekly")
    if c.spec.get("hurt"):
        w.rbd.write(w.spec, 3 * CHUNK, blob(rng, CHUNK, "rand"))
    w.rbd.write(w.spec, CHUNK + 5, b"second")
    w.tick(days=10)
    w.backup("daily")
    w.rbd.write(w.spec, 5, b"third")
    w.tick(days=10)
    w.backup("daily,weekly")
    w.rbd.write(w.spec, CHUNK + 77, b"fourth")
    w.tick(days=10)
    w.backup("daily,manual:x")
    uu = [r["uuid"] for r in w.revs()]
    w.rbd.write(w.spec, 78, b"fifth")
    w.tick(days=2)
    extra = []
    w.env["VF_RANDSEED"] = str(rng.randrange(10**6))
    if c.spec.get("hurt"):
        p = w.chunk_file(w.map_of(uu[-1])["mapping"]["3"])
        os.chmod(p, 0o600)
        with open(p, "r+b") as f:
            f.write(b"damage" * 9)
        extra.append("hurt")
    elif rng.random() < 0.3:
        w.backy("distrust", "-r", rng.choice(uu))
        extra.append("distrusted")
    if rng.random() < 0.3:
        from vf.checks.c03 import foreign
        foreign(w, rng)
        extra.append("foreign")
    for i in range(2):
        h = "%032x" % rng.getrandbits(128)
        with open(w.chunk_file(h), "w") as f:
            f.write("orphan")
    w.tick(hours=1)
    return w, uu, extra


def fakebin(c):
    d = os.path.join(c.dir, "fakebin")
    os.makedirs(d)
    p = os.path.join(d, "backy-rbd")
    with open(p, "w") as f:
        f.write('#!/bin/sh\ncase $FAKE in kill) kill -9 $PPID; sleep 5;; '
                'fail) exit 1;; esac\nexit 0\n')
    os.chmod(p, 0o755)
    return d


def run(c):
    rng = c.rng
    w, uu, extra = setup(c, rng)
    fake = fakebin(c)
    saved = save(w)
    kind = c.spec["a"]
    # where can it be suspended
    a = Op(c, w, kind, "A", uu, fake)
    rc, tr, err = sched.trace(w, a.full)
    if rc:
        raise Violation("%s fails undisturbed" % kind, err=err[-1500:],
                        log=w.log_tail(2000))
    places = {}
    for name, evs in tr.items():
        if evs:
            prog = "backy-rbd" if any(
                e["path"].endswith("/chunks") for e in evs) else "backy"
            if prog in places:
                # the command itself lists fewer events
                continue
            places[prog] = evs
    if "backy" not in places or kind in ("backup", "gc", "verify", "expire") \
            and "backy-rbd" not in places:
        raise Inconclusive("programs not recognised: %s" % sorted(
            (n, len(v)) for n, v in tr.items()))
    others = OPS + ONLY_B
    rng.shuffle(others)
    others = others[:c.spec["m"]]
    if c.spec.get("hurt"):
        others = ["distrust"]
    c.sample([kind, others, extra])
    for other in others:
        pos = []
        for prog, evs in places.items():
            for p in sched.choose(rng, evs, 10**6):
                e = evs[p - 1]
                k = sched.category(e)
                pri = (3 if e["kind"] == "flock" else
                       2 if k[1] == "rev" and e["kind"].startswith("open") else
                       1 if e["kind"] in sched.MUTATING else 0)
                if pri == 3 and prog == "backy-rbd" and not any(
                        x["kind"] == "flock" for x in evs[:p - 1]):
                    pri = 5
                if "chunkdir" in k:
                    pri = -1
                pos.append((pri + rng.random() * 3.5, prog, p, e["kind"]))
        pos.sort(reverse=True)
        for _, prog, p, ev in pos[:c.spec["n"]]:
            load(w, saved)
            interleave(c, w, saved, kind, other, uu, fake, prog, p, ev, extra)


def interleave(c, w, saved, ka, kb, uu, fake, prog, p, ev, extra):
    a = Op(c, w, ka, "A", uu, fake)
    b = Op(c, w, kb, "B", uu, fake)
    st = sched.Stopped(w, a.full, prog, stop=p)
    if not st.stopped:
        st.p.close()
        c.count("not_stopped")
        return
    rc1 = 0
    if b.first:
        rc1 = w.run("backy", "-C", w.path, *b.first)[0]
    rca, rcb, waited = sched.overlap(st, w, b.full, patience=1.0)
    rcb = rcb or rc1
    c.count("evaluations")
    hurt = bool(c.spec.get("hurt"))
    final = state(w, hurt)
    info = dict(A=a.argv, B=b.argv, suspended=[prog, p, ev], rc=[rca, rcb],
                waited=waited, final=final, extra=extra,
                before=None, errA=st.err[-1500:], errB=sched.overlap.err[-1500:])
    for k, rc in ((ka, rca), (kb, rcb)):
        if k == "list":
            if rc:
                raise Violation("listing revisions failed beside %s"
                                % (kb if k == ka else ka), **info)
            c.count("listed_meanwhile")
    if ev == "flock":
        c.count("before_lock")
    if rca or rcb:
        c.count("one_failed")
    for r in [] if hurt else w.revs():
        if w.complete(r) and not r.get("server"):
            w.check_restore(r["uuid"], what="after %s beside %s" % (kb, ka))
    log = w.log_tail(3000)
    how = explain(w, saved, a, b, rca, rcb, final, info, hurt)
    if how is None:
        raise Violation(
            "no serial order of %s and %s gives the same result" % (ka, kb),
            log=log, **info)
    c.distinct(ka, kb, prog, ev, rca, rcb, how, waited)
    na, nb = how.count("A"), how.count("B")
    if na and nb:
        if how == "A" * na + "B" * nb:
            c.count("A_before_B")
        elif how == "B" * nb + "A" * na:
            c.count("B_before_A")
        else:
            c.count("B_amid_A")


def explain(w, saved, a, b, rca, rcb, final, info, hurt):
    """-> the serial order of steps that gives the final state, or None"""
    la, lb = len(a.steps), len(b.steps)
    seen = {}
    alternatives = []
    for pa in range(la, -1, -1) if rca else [la]:
        for pb in range(lb, -1, -1) if rcb else [lb]:
            for where in itertools.combinations(range(pa + pb), pa):
                o = "".join("A" if i in where else "B" for i in range(pa + pb))
                runs = sum(x != y for x, y in zip(o, o[1:]))
                # dropped steps are the least likely
                alternatives.append((la + lb - pa - pb, runs, o))
    alternatives.sort()
    if rca and not rcb:
        alternatives.sort(key=lambda x: "A" in x[2])
    if rcb and not rca:
        alternatives.sort(key=lambda x: "B" in x[2])
    for _, _, o in alternatives:
        if o in seen:
            continue
        load(w, saved)
        n = {"A": 0, "B": 0}
        for x in o:
            op = a if x == "A" else b
            op.step(op.steps[n[x]])
            n[x] += 1
        seen[o] = state(w, hurt)
        if seen[o] == final:
            return o
    info["serial"] = seen
    return None
