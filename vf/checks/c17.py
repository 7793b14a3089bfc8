"""C17: metadata round trips."""
import asyncio
import datetime
import json
import os
import random

import yaml

from vf import inproc, metas
from vf.core import Inconclusive, Violation

PROPERTY = "C17"
LEVEL = "exploration"
TECHNIQUE = (
    "every revision stored by the real code is read back by an independent reader, by "
    "the code, by log --json and through a running daemon's API, and compared"
)
NOTE = "Tags are sequences of valid Unicode characters."
RULE = (
    "one evaluation = one revision compared on one way back; distinct = (way, kinds of "
    "tags, kind of time, kind of statistics, trust, local or remote, operation)"
)
MUST_SEE = ["stored", "code_read", "json_read", "api_read", "peer_read", "operations",
            "odd_tags", "removed", "cli_rewrites", "old_format"]
UTC = datetime.timezone.utc
ODD = ["yes", "no", "null", "~", "1", "0x1f", "1e3", ".inf", "2024-01-01", "a: b", "#x",
       "- x", "!!str x", "&a", "*a", "%d", "@x", "`x", "{a}", "[a]", "a]b", "\"q\"", "'",
       "''", "|", ">", "?", ":", "-", "<<", "=", "a#b", "a #b", "x:y", "ü", "日本語",
       "😀", "\u2028", "\x7f", "\x01", "\ufeff", "a\tb", "12:30:45", "0o17", "True",
       "manual:ä ö", "é" * 40, "x" * 300, "on", "y", "\\", "\\n", "a\\u0041", "\x85"]


def cases(tier, rng):
    n = 140 if tier == "quick" else 700
    return [{"i": i, "n": 60 if tier == "quick" else 250,
             "kind": ["store", "store", "ops", "cli", "api"][i % 5]} for i in range(n)]


def run(c):
    k = c.spec["kind"]
    if k in ("cli", "api"):
        return {"cli": cli, "api": api}[k](c)
    inproc.call(c, __name__, k,
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


def tag(rng, spaces=True):
    r = rng.random()
    if r < 0.3:
        return rng.choice(["daily", "weekly", "manual:a", "manual:b"])
    if r < 0.7:
        return rng.choice(ODD)
    while True:
        n = rng.choice([1, 2, 3, 8, 30])
        s = "".join(chr(rng.choice([
            rng.randrange(32, 127), rng.randrange(32, 127), rng.randrange(160, 0x2000),
            rng.randrange(0xe000, 0x10000), rng.randrange(0x10000, 0x11000),
            rng.randrange(0, 32)])) for _ in range(n))
        # what YAML cannot contain, not even escaped
        if "\ufffe" in s or "\uffff" in s:
            continue
        return s


def stats(rng):
    s = {"bytes_written": rng.choice([0, 1, rng.randrange(10**15), 2**63])}
    if rng.random() < 0.7:
        s["duration"] = rng.choice([
            0.0, 1, 1e-05, 0.1 + 0.2, rng.random() * 1e6, 1e20, 123456.789012345])
    if rng.random() < 0.2:
        s["ceph-verification"] = rng.choice(["full", "partial", "none"])
    return s


def time(rng):
    t = datetime.datetime(rng.choice([1999, 2020, 2024, 2037, 2100]), rng.randrange(1, 13),
                          rng.randrange(1, 29), tzinfo=UTC)
    r = rng.random()
    if r < 0.2:
        return t
    t += datetime.timedelta(seconds=rng.randrange(86400))
    if r < 0.4:
        return t
    return t.replace(microsecond=rng.choice([1, 999999, 100000, 10, rng.randrange(10**6)]))


def revision(rng):
    r = dict(uuid=metas.new_uuid(rng), timestamp=time(rng),
             tags={tag(rng) for _ in range(rng.choice([0, 1, 2, 5]))},
             trust=rng.choice(["trusted", "distrusted", "verified"]),
             server=rng.choice(["", "", "Other", "sérver:1", "yes", "1", "Backy-2.Example"]),
             stats=stats(rng))
    r["orig_tags"] = set(r["tags"]) if rng.random() < 0.5 else {
        tag(rng) for _ in range(rng.choice([0, 1, 3]))}
    return r


def of_code(r):
    return dict(uuid=r.uuid, timestamp=r.timestamp, stats=r.stats, trust=r.trust.value,
                tags=set(r.tags), orig_tags=set(r.orig_tags), server=r.server)


def of_json(r):
    return dict(
        uuid=r["uuid"], timestamp=datetime.datetime.fromisoformat(r["timestamp"]),
        stats=r["stats"], trust=r["trust"], tags=set(r["tags"]),
        orig_tags=set(r["orig_tags"]), server=r["server"])


def compare(got, want, how):
    if got != want:
        if isinstance(got, dict) and isinstance(want, dict) and set(got) == set(want):
            d = {k: (repr(got[k])[:500], repr(want[k])[:500]) for k in want
                 if got[k] != want[k]}
        else:
            d = (repr(got)[:1000], repr(want)[:1000])
        raise Violation("a revision changed: %s" % how, difference=d)
    for k in want:
        if type(got[k]) is not type(want[k]):
            raise Violation("a revision changed: %s: type of %s" % (how, k),
                            got=repr(got[k]), want=repr(want[k]))


def key(r, how):
    kinds = set()
    for t in r["tags"]:
        kinds.add("odd" if t in ODD else "plain" if t.isascii() and t.isprintable()
                  else "control" if any(ord(x) < 32 for x in t) else "unicode")
    return (how, sorted(kinds), r["timestamp"].microsecond != 0,
            sorted((k, type(v).__name__) for k, v in r["stats"].items()), r["trust"],
            bool(r["server"]), r["tags"] == r["orig_tags"])


def repository(path):
    import structlog
    from pathlib import Path

    from backy.repository import Repository
    from backy.schedule import Schedule

    os.makedirs(path, exist_ok=True)
    repo = Repository(Path(path), Schedule(), structlog.stdlib.get_logger())
    repo.connect()
    return repo


def make(repo, r):
    """Stores a revision through the code."""
    from backy.revision import Revision, Trust

    x = Revision.create(repo, set(r["tags"]), repo.log, uuid=r["uuid"])
    x.timestamp, x.stats = r["timestamp"], dict(r["stats"])
    x.orig_tags, x.server = set(r["orig_tags"]), r["server"]
    x.trust = Trust(r["trust"])
    x.materialize()
    return x


def ordered(repo, model):
    got = [r.uuid for r in repo.history]
    times = [r.timestamp for r in repo.history]
    if sorted(got) != sorted(model) or len(got) != len(model):
        raise Violation("the history lacks or repeats revisions", got=got,
                        want=sorted(model))
    if times != sorted(times):
        raise Violation("the history is not ordered", got=[str(t) for t in times])


def store(spec, rep):
    import backy.utils

    rng = random.Random(spec["seed"])
    for rnd in range(3):
        path = os.path.join(spec["dir"], "repo%d" % rnd)
        repo = repository(path)
        model = {}
        for k in range(spec["n"] // 3):
            r = revision(rng)
            if model and rng.random() < 0.1:
                r["timestamp"] = rng.choice(list(model.values()))["timestamp"]
            elif model and rng.random() < 0.1:
                # within the same second
                r["timestamp"] = rng.choice(list(model.values()))["timestamp"].replace(
                    microsecond=rng.randrange(10**6))
            make(repo, r)
            model[r["uuid"]] = r
            if any(t in ODD for t in r["tags"]):
                rep.count("odd_tags")
            if rng.random() < 0.05:
                # a link to it is no revision of its own
                os.symlink(r["uuid"] + ".rev", os.path.join(path, "last%d.rev" % k))
        disk = metas.read(path)
        repo.scan()
        ordered(repo, model)
        js = {r["uuid"]: r for r in json.loads(backy.utils.BackyJSONEncoder().encode(
            [r.to_dict() for r in repo.history]))}
        for u, r in model.items():
            want = metas.norm(r)
            compare(disk[u], want, "stored")
            compare(of_code(repo.find_by_uuid(u)), want, "read back")
            compare(of_json(js[u]), want, "as JSON")
            for w in ("stored", "code_read", "json_read"):
                rep.count(w)
                rep.count("evaluations")
                rep.distinct(*key(r, w))
        # writing what was read changes nothing
        for r in list(repo.history):
            if rng.random() < 0.3:
                r.write_info()
        for u, x in metas.read(path).items():
            compare(x, metas.norm(model[u]), "rewritten")
            rep.count("evaluations")
        # files of older versions
        u = metas.new_uuid(rng)
        t = time(rng)
        with open(os.path.join(path, u + ".rev"), "w") as f:
            f.write(yaml.dump({"uuid": u, "timestamp": t, "parent": "", "stats": {},
                               "tags": ["daily"]}, Dumper=metas.DUMPER))
        repo.scan()
        compare(of_code(repo.find_by_uuid(u)), dict(
            uuid=u, timestamp=t, stats={}, trust="trusted", tags={"daily"},
            orig_tags=set(), server=""), "of an older version")
        rep.count("old_format")
        rep.sample = rep.sample or metas.show(r.__dict__ and model[next(iter(model))])


def ops(spec, rep):
    """Sequences of changes through the repository's methods."""
    rng = random.Random(spec["seed"])
    path = os.path.join(spec["dir"], "repo")
    repo = repository(path)
    model = {}
    for step in range(spec["n"]):
        if not model or rng.random() < 0.2:
            r = revision(rng)
            if any(x["timestamp"] == r["timestamp"] for x in model.values()):
                continue
            make(repo, r)
            model[r["uuid"]] = metas.norm(r)
            repo.scan()
            op = "new"
        else:
            op = rng.choice(["tags", "tags", "distrust", "verify", "rm", "stats"])
            us = rng.sample(sorted(model), rng.randrange(1, min(4, len(model)) + 1))
            revs = [repo.find_by_uuid(u) for u in us]
            local = all(not model[u]["server"] for u in us)
            t = {tag(rng) for _ in range(rng.randrange(0, 3))}
            if op == "tags":
                act = rng.choice(["set", "add", "remove"])
                if not repo.tags(act, ",".join(us), set(t), force=True):
                    raise Violation("tags refused")
                for u in us:
                    m = model[u]
                    m["tags"] = (set(t) if act == "set" else m["tags"] | t
                                 if act == "add" else m["tags"] - t)
            elif op == "distrust":
                if not local:
                    continue
                repo.distrust(revs)
                for u in us:
                    model[u]["trust"] = "distrusted"
            elif op == "verify":
                if not local:
                    continue
                for r in revs:
                    r.verify()
                    r.write_info()
                    model[r.uuid]["trust"] = "verified"
            elif op == "stats":
                for r in revs:
                    r.stats = stats(rng)
                    r.write_info()
                    model[r.uuid]["stats"] = dict(r.stats)
            else:
                repo.rm(revs)
                for u in us:
                    if model[u]["server"]:
                        model[u]["tags"] = set()
                    else:
                        del model[u]
                        rep.count("removed")
                        try:
                            repo.find_by_uuid(u)
                        except (KeyError, IndexError):
                            continue
                        raise Violation("a removed revision is still found")
        ordered(repo, model)
        if rng.random() < 0.5:
            repo.scan()
            ordered(repo, model)
        disk = metas.read(path)
        if sorted(disk) != sorted(model):
            raise Violation("revisions on disk after %s" % op, got=sorted(disk),
                            want=sorted(model))
        for u, m in model.items():
            compare(disk[u], m, op)
            compare(of_code(repo.find_by_uuid(u)), m, op + " in memory")
            rep.count("evaluations")
        rep.count("operations")
        rep.distinct("op", op, len(model) > 3)
    left = [n for n in os.listdir(path) if n.startswith("tmp")]
    if left:
        raise Violation("temporary files are left", files=left)


def cli(c):
    """Rewriting through commands, judged on disk and by log --json."""
    from vf.repo import World

    rng = c.rng
    w = World(c, schedule={"daily": {"interval": "1d", "keep": 3}})
    model = {}
    for _ in range(rng.randrange(2, 7)):
        r = revision(rng)
        # incomplete ones and those without tags are cleaned up elsewhere
        metas.write(w.path, r)
        model[r["uuid"]] = metas.norm(r)
    for _ in range(8):
        u = rng.choice(sorted(model))
        m = model[u]
        op = rng.choice(["add", "remove", "set", "distrust"])
        if op == "distrust":
            if m["server"]:
                continue
            rc, out, err = w.backy("distrust", "-r", u)
            m["trust"] = "distrusted"
        else:
            while True:
                t = {tag(rng) for _ in range(rng.randrange(1, 3))}
                # as far as they can be given on a command line
                if not any("," in x or x != x.strip() or not x or "\0" in x
                           or x.startswith("-") for x in t):
                    break
            rc, out, err = w.backy("tags", "-f", "-r", u, op, ",".join(sorted(t)))
            m["tags"] = (t if op == "set" else m["tags"] | t if op == "add"
                         else m["tags"] - t)
        if rc:
            raise Violation("%s fails" % op, err=err[-1000:])
        c.count("cli_rewrites")
        disk = metas.read(w.path)
        rc, out, err = w.backy("log", "--json")
        js = {r["uuid"]: of_json(r) for r in json.loads(out)}
        if rc or sorted(js) != sorted(model):
            raise Violation("log --json shows other revisions", rc=rc, got=sorted(js))
        order = [r["timestamp"] for r in json.loads(out)]
        if [datetime.datetime.fromisoformat(x) for x in order] != sorted(
                datetime.datetime.fromisoformat(x) for x in order):
            raise Violation("log --json is not ordered", got=order)
        for x, m in model.items():
            compare(disk[x], m, "by " + op)
            compare(js[x], m, "by log --json")
            c.count("evaluations", 2)
            c.distinct(*key(m, "cli " + op))


async def peer(url, token, path):
    import structlog

    from backy.daemon.api import Client

    repo = repository(path)
    log = structlog.stdlib.get_logger()
    async with Client("peerä", url, token, "abcd", log) as cl:
        out = []
        for clean in (True, False):
            out.append([of_code(r) for r in await cl.get_revs(repo, only_clean=clean)])
        return out


def read_peer(spec, rep):
    with open(spec["model"]) as f:
        model = {u: r for u, r in yaml.load(f, Loader=metas.LOADER).items()}
    clean, everything = asyncio.run(peer(spec["url"], spec["token"], spec["local"]))
    for got, want in ((everything, set(model)),
                      (clean, {u for u, r in model.items() if "duration" in r["stats"]})):
        if sorted(r["uuid"] for r in got) != sorted(want):
            raise Violation("a peer reads other revisions", got=[r["uuid"] for r in got],
                            want=sorted(want))
        for r in got:
            m = model[r["uuid"]]
            w = dict(metas.norm(dict(m, timestamp=datetime.datetime.fromisoformat(
                m["timestamp"]))), server="peerä")
            w["orig_tags"] = set(w["tags"])
            compare(r, w, "read by a peer")
            rep.count("peer_read")
            rep.count("evaluations")
            rep.distinct(*key(w, "peer"))


def api(c):
    from vf.live import Live

    rng = c.rng
    L = Live(c)
    path = os.path.join(L.base, "vm")
    os.makedirs(path)
    model = {}
    for _ in range(rng.randrange(3, 20)):
        r = revision(rng)
        metas.write(path, r)
        model[r["uuid"]] = metas.norm(r)
    local = {u: r for u, r in model.items() if not r["server"]}
    L.start()
    try:
        for q, sel in (("", local),
                       ("?only_clean=1", {u: r for u, r in local.items()
                                          if "duration" in r["stats"]})):
            st, js = L.http("GET", "/v1/backups/vm/revs" + q)
            if st != 200 or sorted(r["uuid"] for r in js) != sorted(sel):
                raise Violation("the API lists other revisions", status=st, got=js,
                                want=sorted(sel))
            times = [r["timestamp"] for r in js]
            if times != sorted(times, key=datetime.datetime.fromisoformat):
                raise Violation("the API lists revisions without order")
            for r in js:
                compare(of_json(r), model[r["uuid"]], "through the API")
                c.count("api_read")
                c.count("evaluations")
                c.distinct(*key(model[r["uuid"]], "api"))
        mf = os.path.join(c.dir, "model.yaml")
        with open(mf, "w") as f:
            yaml.dump({u: dict(r, timestamp=r["timestamp"].isoformat(),
                               tags=sorted(r["tags"]), orig_tags=sorted(r["orig_tags"]))
                       for u, r in local.items()}, f, Dumper=metas.DUMPER)
        # a peer knows it by the same name
        inproc.call(c, __name__, "read_peer", dict(
            url=L.url, token="secret-srv", model=mf,
            local=os.path.join(c.dir, "peer", "vm")) if not os.makedirs(
                os.path.join(c.dir, "peer")) else {})
        c.sample(dict(revisions=len(model)))
    finally:
        L.kill()
