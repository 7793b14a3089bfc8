"""Check context: scratch space, seeds, parallel cases, evidence, verdicts."""
import hashlib
import json
import multiprocessing
import os
import queue
import random
import re
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MiB = 1 << 20


class Violation(Exception):
    """The property is broken.  `what` is one line, `detail` a JSON value."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Inconclusive(Exception):
    """This case proved nothing (e.g. its set-up did not come about)."""


class Result:
    """What one case observed."""

    def __init__(self):
        self.counts = {}
        self.keys = set()
        self.sample = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, *key):
        self.keys.add(
            hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        )


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


_known = None


def known_findings():
    """[(property, regex, text)] of committed, unrepaired findings."""
    global _known
    if _known is None:
        _known = []
        p = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) /(.*)/ (.*)$", line.strip())
                if m:
                    _known.append((m[1], re.compile(m[2]), m[3]))
    return _known


def _worker(mod, fn, tier, seed, work, q, out, deadline):
    import importlib

    os.environ["VF_WORKER"] = work
    os.makedirs(work, exist_ok=True)
    f = getattr(importlib.import_module(mod), fn)
    zyg = None
    try:
        from vf import cmd

        zyg = cmd.Zygote(work)
    except Exception:
        out.put(("fatal", None, traceback.format_exc()))
        return
    try:
        while True:
            try:
                case = q.get_nowait()
            except queue.Empty:
                break
            if case is None:
                break
            if time.monotonic() > deadline:
                out.put(("skipped", case, None))
                continue
            res = Result()
            d = os.path.join(work, "case")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            t0 = time.monotonic()
            try:
                f(Case(case, tier, seed, d, zyg, res))
                kind, info = "ok", None
            except Violation as v:
                kind = "violation"
                info = (v.what, v.detail)
            except cmd.Hang as e:
                # a hundred times what it usually takes
                kind = "violation"
                info = ("a command does not come to its end: %s" % e,
                        {"traceback": traceback.format_exc()[-3000:]})
            except Inconclusive as e:
                kind, info = "inconclusive", str(e)
            except Exception:
                kind, info = "error", traceback.format_exc()
            out.put(
                (
                    kind,
                    case,
                    info,
                    res.counts,
                    list(res.keys),
                    res.sample,
                    time.monotonic() - t0,
                )
            )
    finally:
        zyg.close()
        shutil.rmtree(work, ignore_errors=True)
        out.put(("done", None, None))


class Case:
    def __init__(self, spec, tier, seed, dir, zyg, res):
        self.spec, self.tier, self.seed = spec, tier, seed
        self.dir, self.z, self.res = dir, zyg, res
        self.rng = random.Random("%s/%s" % (seed, json.dumps(spec, sort_keys=True)))

    def count(self, *a, **k):
        self.res.count(*a, **k)

    def distinct(self, *a):
        self.res.distinct(*a)

    def sample(self, v):
        if self.res.sample is None:
            self.res.sample = v


class Check:
    """Runs cases in parallel and reports.  A check module defines
    PROPERTY, LEVEL, RULE, cases(tier, rng) and run(case)."""

    def __init__(self, mod):
        self.mod = mod
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"

    def main(self, replay=None):
        m = self.mod
        t0 = time.monotonic()
        pid = m.PROPERTY
        rng = random.Random("%s/%s/%s" % (self.seed, pid, self.tier))
        cases = (
            [replay] if replay is not None else list(m.cases(self.tier, rng))
        )
        budget = getattr(m, "BUDGET", {"quick": 150, "thorough": 780})[self.tier]
        nproc = min(
            len(cases),
            int(os.environ.get("VF_JOBS", 0))
            or getattr(m, "JOBS", min(8, os.cpu_count() or 8)),
        )
        ctx = multiprocessing.get_context("fork")
        root = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=scratch_root())
        q, out = ctx.Queue(), ctx.Queue()
        for c in cases:
            q.put(c)
        for _ in range(nproc):
            q.put(None)
        deadline = time.monotonic() + budget
        ps = []
        for i in range(nproc):
            p = ctx.Process(
                target=_worker,
                args=(m.__name__, "run", self.tier, self.seed,
                      os.path.join(root, "w%d" % i), q, out, deadline),
            )
            p.start()
            ps.append(p)
        counts, keys, samples = {}, set(), []
        tally = {"ok": 0, "violation": 0, "inconclusive": 0, "error": 0, "skipped": 0}
        violations, errors, fatal, incon = [], [], [], []
        slow = []
        alive = nproc
        hard = deadline + 200
        try:
            while alive:
                try:
                    msg = out.get(timeout=1)
                except queue.Empty:
                    if not any(p.is_alive() for p in ps):
                        try:
                            msg = out.get(timeout=0.5)
                        except queue.Empty:
                            break
                    elif time.monotonic() > hard:
                        fatal.append("hard time limit; workers stuck")
                        break
                    else:
                        continue
                k = msg[0]
                if k == "done":
                    alive -= 1
                    continue
                if k == "fatal":
                    fatal.append(msg[2])
                    alive -= 1
                    continue
                tally[k] += 1
                if k == "skipped":
                    continue
                for a, b in msg[3].items():
                    counts[a] = counts.get(a, 0) + b
                keys.update(msg[4])
                slow.append((msg[6], msg[1]))
                if msg[5] is not None and len(samples) < 6:
                    samples.append(msg[5])
                if k == "violation":
                    violations.append((msg[1], msg[2]))
                elif k == "error":
                    errors.append((msg[1], msg[2]))
                elif k == "inconclusive":
                    incon.append((msg[1], msg[2]))
        finally:
            for p in ps:
                p.join(timeout=3)
                if p.is_alive():
                    p.kill()
                    p.join()
            shutil.rmtree(root, ignore_errors=True)
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        reported, known = [], []
        for case, (what, detail) in violations:
            for p_, rx, txt in known_findings():
                if p_ == pid and rx.search(what):
                    known.append(txt)
                    break
            else:
                reported.append((case, what, detail))
        for txt in sorted(set(known)):
            print("KNOWN-FINDING: property=%s %s" % (pid, txt))
        for i, (case, what, detail) in enumerate(reported[:20]):
            rp = os.path.join(ev_dir, "replay-%s-%d.json" % (pid, i))
            with open(rp, "w") as f:
                json.dump(
                    dict(property=pid, seed=self.seed, tier=self.tier,
                         case=case, what=what, detail=detail),
                    f, indent=1, default=repr,
                )
            if i < 5:
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("   ", what)
        evaluations = counts.get("evaluations", tally["ok"] + tally["violation"])
        ev = dict(
            property=pid,
            tier=self.tier,
            seed=self.seed,
            level=m.LEVEL,
            coverage=dict(
                evaluations=evaluations,
                distinct_nontrivial=len(keys),
                rule=m.RULE,
                samples=samples,
                observed={k: v for k, v in sorted(counts.items())},
                cases=tally,
            ),
            assumptions=getattr(m, "ASSUMPTIONS", []),
            wall_s=round(time.monotonic() - t0, 2),
            violations=len(reported),
        )
        if replay is None:
            with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=repr)
        print(
            "%s %s seed=%s: %s; %d evaluations, %d distinct; observed %s; %.1fs"
            % (pid, self.tier, self.seed, tally, evaluations, len(keys),
               json.dumps(ev["coverage"]["observed"]), ev["wall_s"])
        )
        if os.environ.get("VF_SLOW"):
            for t, c in sorted(slow, key=lambda x: -x[0])[:8]:
                print("   %.1fs %s" % (t, c))
        if reported:
            return 1
        for case, tb in (errors[:3] if len(errors) else []):
            print("ERROR in case %s:\n%s" % (json.dumps(case), tb), file=sys.stderr)
        for x in fatal:
            print("FATAL: %s" % x, file=sys.stderr)
        for case, why in incon[:3]:
            print("inconclusive %s: %s" % (json.dumps(case), why), file=sys.stderr)
        if fatal or errors:
            return 2
        if replay is None:
            if len(keys) < getattr(m, "MIN_DISTINCT", 2) or not samples:
                print("observed too little to decide", file=sys.stderr)
                return 3
            for k in getattr(m, "MUST_SEE", []):
                if not counts.get(k):
                    print("never observed: %s" % k, file=sys.stderr)
                    return 3
            if tally["inconclusive"] > 0.5 * len(cases):
                print("mostly inconclusive", file=sys.stderr)
                return 3
        return 0
