"""Support for monitors that run inside the process of the code under test."""
import importlib
import json
import random
import sys
import traceback


class Report:
    def __init__(self):
        self.counts, self.keys, self.sample, self.violation = {}, set(), None, None

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def distinct(self, *k):
        self.keys.add(repr(k))


def entry(mod, fn, spec_file, out_file):
    """Program "py:vf.inproc:entry": runs mod.fn(spec, report)."""
    from vf.core import Violation

    quiet()
    with open(spec_file) as f:
        spec = json.load(f)
    rep = Report()
    try:
        getattr(importlib.import_module(mod), fn)(spec, rep)
    except Violation as v:
        rep.violation = [v.what, v.detail]
    except Exception as e:
        if not from_backy(e):
            raise
        rep.violation = ["unexpected %s in the code under test" % type(e).__name__,
                         {"traceback": traceback.format_exc()[-4000:]}]
    with open(out_file, "w") as f:
        json.dump(
            dict(counts=rep.counts, keys=sorted(rep.keys), sample=rep.sample,
                 violation=rep.violation), f, default=repr)
    return 0


def from_backy(e):
    """Did the code under test raise this (rather than a monitor)?"""
    import os

    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    repo = os.path.realpath(os.environ["VF_REPO"]) + os.sep
    last = None
    tb = e.__traceback__
    while tb:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(here):
            last = "monitor"
        elif f.startswith(repo):
            last = "backy"
        tb = tb.tb_next
    return last == "backy"


def quiet():
    """Structured logging without output (log calls still format)."""
    import logging

    import structlog

    logging.disable(logging.CRITICAL)
    structlog.configure(
        processors=[lambda *a: (_ for _ in ()).throw(structlog.DropEvent())],
        cache_logger_on_first_use=False,
    )


def call(case, mod, fn, spec, timeout=300, env=None):
    """Driver side."""
    import os

    from vf.core import Violation

    s = os.path.join(case.dir, "spec.json")
    o = os.path.join(case.dir, "result.json")
    with open(s, "w") as f:
        json.dump(spec, f)
    if os.path.exists(o):
        os.unlink(o)
    rc, out, err = case.z.run(
        "py:vf.inproc:entry", mod, fn, s, o, cwd=case.dir, timeout=timeout,
        env=env)
    if not os.path.exists(o):
        raise RuntimeError("inproc rc=%s\n%s\n%s" % (rc, out[-2000:], err[-5000:]))
    with open(o) as f:
        r = json.load(f)
    for k, n in r["counts"].items():
        case.count(k, n)
    for k in r["keys"]:
        case.res.distinct(k)
    if r["sample"] is not None:
        case.sample(r["sample"])
    if r["violation"]:
        raise Violation(r["violation"][0], **r["violation"][1])
    return r
