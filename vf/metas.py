"""Revision metadata written and read without the code under test."""
import datetime
import os

import yaml

UTC = datetime.timezone.utc
LOADER = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
DUMPER = getattr(yaml, "CSafeDumper", yaml.SafeDumper)
ALPHA = "23456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def new_uuid(rng):
    return "".join(rng.choice(ALPHA) for _ in range(22))


def write(path, r):
    """r: uuid, timestamp, tags; optional orig_tags, trust, server, stats"""
    d = dict(
        uuid=r["uuid"], timestamp=r["timestamp"], parent=r.get("parent", ""),
        stats=r.get("stats", {"bytes_written": 0, "duration": 1.5}),
        trust=r.get("trust", "trusted"), tags=sorted(r["tags"]),
        orig_tags=sorted(r.get("orig_tags", [])), server=r.get("server", ""))
    with open(os.path.join(path, r["uuid"] + ".rev"), "w", encoding="utf-8") as f:
        yaml.dump(d, f, Dumper=DUMPER, allow_unicode=True)


def read_file(p):
    with open(p, encoding="utf-8") as f:
        d = yaml.load(f, Loader=LOADER)
    ts = d["timestamp"]
    if isinstance(ts, str):
        ts = datetime.datetime.fromisoformat(ts)
    return dict(
        uuid=d["uuid"], timestamp=ts.astimezone(UTC), stats=d["stats"],
        trust=d["trust"], tags=set(d["tags"]), orig_tags=set(d["orig_tags"]),
        server=d["server"])


def read(path):
    """{uuid: metadata}; ignores links"""
    out = {}
    for n in sorted(os.listdir(path)):
        p = os.path.join(path, n)
        if n.endswith(".rev") and not os.path.islink(p):
            r = read_file(p)
            if r["uuid"] + ".rev" != n:
                raise ValueError("file %s holds %s" % (n, r["uuid"]))
            out[r["uuid"]] = r
    return out


def norm(r):
    return dict(
        uuid=r["uuid"], timestamp=r["timestamp"].astimezone(UTC),
        stats=r.get("stats", {"bytes_written": 0, "duration": 1.5}),
        trust=r.get("trust", "trusted"), tags=set(r["tags"]),
        orig_tags=set(r.get("orig_tags", [])), server=r.get("server", ""))


def show(r):
    return {k: (sorted(v) if isinstance(v, set) else str(v)) for k, v in r.items()}


def clear(path):
    for n in os.listdir(path):
        p = os.path.join(path, n)
        if os.path.isfile(p) or os.path.islink(p):
            os.unlink(p)


class Clock:
    """Replaces backy.utils.now."""

    def __init__(self, t):
        import backy.utils

        self.t = t
        backy.utils.now = lambda: self.t

    def tick(self, **kw):
        self.t += datetime.timedelta(**kw)
