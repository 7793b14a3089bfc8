"""C16: revision specifications."""
import datetime
import json
import os
import random

from vf import inproc, metas
from vf.core import Inconclusive, Violation

PROPERTY = "C16"
LEVEL = "exploration"
TECHNIQUE = (
    "every selection of the real code is compared, while it runs, with an independent "
    "evaluator of the documented language over generated histories and specifications"
)
NOTE = (
    "Specifications not derived from the documented language are only generated from "
    "its tokens; revisions have distinct times."
)
RULE = (
    "one evaluation = one specification compared; distinct = (forms used in it, "
    "nesting depth, rejected or number of results class)"
)
MUST_SEE = ["selected", "empty", "rejected", "dates", "dates_local", "ranges",
            "functions", "lists", "intersections", "malformed", "cli", "cli_json",
            "cli_rejected", "single", "empty_history", "date_before", "date_exact",
            "date_between", "date_after"]
UTC = datetime.timezone.utc


def cases(tier, rng):
    n = 32 if tier == "quick" else 160
    return [{"i": i, "n": 300 if tier == "quick" else 1500,
             "kind": "cli" if i % 4 == 3 else "find"} for i in range(n)]


def run(c):
    if c.spec["kind"] == "cli":
        return cli(c)
    inproc.call(c, __name__, "find",
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


class Rejected(Exception):
    pass


# -- the evaluator: a recursive descent parser over tokens


class Model:
    def __init__(self, revs, tz):
        self.h = sorted(revs, key=lambda r: r["timestamp"])
        self.tz = tz
        self.used = set()
        self.depth = 0

    def tokens(self, spec):
        out, cur = [], ""
        i = 0
        while i < len(spec):
            if spec[i] in "(),&":
                out += [cur, spec[i]]
                cur = ""
                i += 1
            elif spec[i:i + 2] == "..":
                out += [cur, ".."]
                cur = ""
                i += 2
            else:
                cur += spec[i]
                i += 1
        out.append(cur)
        return [t.strip() for t in out if t.strip()]

    def select(self, spec):
        """-> list of uuids"""
        t = self.tokens(spec)
        v, rest = self.expr(t, 0)
        if rest != len(t):
            raise Rejected("trailing")
        return [self.h[i]["uuid"] for i in v]

    def expr(self, t, p):
        v, p = self.inter(t, p)
        out = list(v)
        while p < len(t) and t[p] == ",":
            self.used.add("list")
            v, p = self.inter(t, p + 1)
            out += v
        seen = []
        for i in out:
            if i not in seen:
                seen.append(i)
        return seen, p

    def inter(self, t, p):
        v, p = self.item(t, p)
        while p < len(t) and t[p] == "&":
            self.used.add("intersection")
            w, p = self.item(t, p + 1)
            v = [i for i in v if i in w]
        return v, p

    def item(self, t, p):
        left = None
        if p < len(t) and t[p] != "..":
            left, p, single = self.atom(t, p)
            if p >= len(t) or t[p] != "..":
                if single == "date":
                    raise Rejected("a date is no revision")
                return left, p
            if not single:
                raise Rejected("range of many")
        if p >= len(t):
            raise Rejected("nothing")
        # a range
        self.used.add("range")
        p += 1
        right = None
        if p < len(t) and t[p] not in (",", "&", ")", ".."):
            right, p, single = self.atom(t, p)
            if not single:
                raise Rejected("range of many")
        if left is None:
            left = self.word("first")
        if right is None:
            right = self.word("last")
        a, b = sorted([left[0], right[0]])
        return [i for i in range(len(self.h)) if a <= i <= b], p

    def atom(self, t, p):
        """-> (indices, position, is it a single revision)"""
        if t[p] == "(":
            v, p = self.paren(t, p)
            return v, p, False
        if t[p] in (")", ",", "&", ".."):
            raise Rejected("nothing")
        w = t[p]
        if p + 1 < len(t) and t[p + 1] == "(":
            v, q = self.paren(t, p + 1)
            self.used.add(w)
            if w in ("first", "last"):
                if not v:
                    raise Rejected("of nothing")
                return [v[0 if w == "first" else -1]], q, True
            if w == "not":
                return [i for i in range(len(self.h)) if i not in v], q, False
            if w == "reverse":
                return v[::-1], q, False
            raise Rejected("function")
        multi = self.multi(w)
        if multi is not None:
            return multi, p + 1, False
        # dates are only meaningful within ranges
        near = (p > 0 and t[p - 1] == "..") or (p + 1 < len(t) and t[p + 1] == "..")
        if near:
            d = self.date(w)
            if d is not None:
                return [d], p + 1, "date"
        return self.word(w), p + 1, True

    def paren(self, t, p):
        self.depth += 1
        v, p = self.expr(t, p + 1)
        if p >= len(t) or t[p] != ")":
            raise Rejected("unbalanced")
        return v, p + 1

    def where(self, f):
        return [i for i, r in enumerate(self.h) if f(r)]

    def multi(self, w):
        for prefix, f in (
                ("tag:", lambda r: w[4:] in r["tags"]),
                ("server:", lambda r: r["server"] == w[7:])):
            if w.startswith(prefix):
                self.used.add(prefix)
                return self.where(f)
        if w.startswith("trust:"):
            s = w[6:].lower()
            if s not in ("trusted", "distrusted", "verified"):
                raise Rejected("trust")
            self.used.add("trust:")
            return self.where(lambda r: r.get("trust", "trusted") == s)
        if w == "all":
            return self.where(lambda r: True)
        if w == "clean":
            return self.where(lambda r: "duration" in r["stats"])
        if w == "local":
            return self.where(lambda r: not r["server"])
        if w == "remote":
            return self.where(lambda r: r["server"])
        return None

    def date(self, w):
        try:
            d = datetime.datetime.fromisoformat(w)
        except ValueError:
            return None
        kind = "date"
        if d.tzinfo is None:
            d = d.replace(tzinfo=self.tz)
            kind = "date_local"
        self.used.add(kind)
        before = sum(1 for r in self.h if r["timestamp"] < d)
        same = [i for i, r in enumerate(self.h) if r["timestamp"] == d]
        self.used.add("exact" if same else "before" if not before
                      else "after" if before == len(self.h) else "between")
        return same[0] if same else before - 0.5

    def word(self, w):
        n = len(self.h)
        if not n:
            raise Rejected("no revisions")
        if w in ("last", "latest"):
            return [n - 1]
        if w == "first":
            return [0]
        if w.lstrip("-").isdigit() and w.isascii():
            k = int(w)
            if 0 <= k < n:
                self.used.add("number")
                return [n - 1 - k]
            raise Rejected("number")
        for i, r in enumerate(self.h):
            if r["uuid"] == w:
                self.used.add("uuid")
                return [i]
        raise Rejected("unknown")


# -- generating


def make(rng, n):
    now = datetime.datetime(2020, 1, 1, tzinfo=UTC) + datetime.timedelta(
        seconds=rng.randrange(10**8))
    revs, t = [], now
    for _ in range(n):
        # also at local and UTC midnight
        t += rng.choice([
            datetime.timedelta(seconds=rng.randrange(1, 10**6)),
            datetime.timedelta(microseconds=rng.randrange(1, 10**6)),
            datetime.timedelta(seconds=86400 - (t - now).total_seconds() % 86400)])
        if rng.random() < 0.3:
            t = t.replace(hour=rng.choice([0, 22, 23]), minute=0, second=0,
                          microsecond=0) + datetime.timedelta(days=1)
        r = dict(uuid=metas.new_uuid(rng), timestamp=t,
                 tags={x for x in ("daily", "weekly", "manual:x y", "a-b")
                       if rng.random() < 0.5},
                 server=rng.choice(["", "", "", "other", "s2"]),
                 trust=rng.choice(["trusted", "distrusted", "verified"]))
        r["stats"] = {"bytes_written": 1}
        if rng.random() < 0.7:
            r["stats"]["duration"] = 4.5
        revs.append(r)
    return revs


class Gen:
    def __init__(self, rng, revs, tz):
        self.rng, self.revs, self.tz = rng, revs, tz

    def word(self):
        rng = self.rng
        n = len(self.revs)
        k = [lambda: "first", lambda: "last", lambda: "latest",
             lambda: str(rng.randrange(n + 2))]
        if n:
            k += [lambda: rng.choice(self.revs)["uuid"]] * 2
            k += [lambda: str(rng.randrange(n))] * 2
        k.append(lambda: rng.choice(["-1", metas.new_uuid(rng), "nope", "99"]))
        return rng.choice(k[:7] if rng.random() < 0.97 else k)()

    def date(self):
        rng = self.rng
        if self.revs and rng.random() < 0.9:
            t = rng.choice(self.revs)["timestamp"]
        else:
            t = datetime.datetime(2021, 1, 1, tzinfo=UTC)
        t += rng.choice([0, 0, 0, 1, -1, 10**9, -10**9, -10**14, 10**14]) * \
            datetime.timedelta(microseconds=1)
        r = rng.random()
        if r < 0.3:
            return t.isoformat()
        local = t.astimezone(self.tz)
        if r < 0.5:
            return local.isoformat()
        if r < 0.7:
            # the hour that exists twice
            if local.replace(tzinfo=None).replace(tzinfo=self.tz) == local:
                return local.replace(tzinfo=None).isoformat()
        if r < 0.85:
            return t.astimezone(datetime.timezone(
                datetime.timedelta(minutes=rng.randrange(-700, 700)))).isoformat()
        return local.date().isoformat()

    def atom(self, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.25:
            return [self.word()]
        if r < 0.55:
            return [rng.choice([
                "all", "clean", "local", "remote", "tag:daily", "tag:weekly", "tag:a-b",
                "tag:manual:x y", "tag:none", "server:", "server:other", "server:s2",
                "server:none", "trust:trusted", "trust:Distrusted", "trust:VERIFIED"])]
        if r < 0.65:
            return ["("] + self.expr(d - 1) + [")"]
        if r < 0.85:
            return [rng.choice(["not", "reverse", "first", "last"]), "("] + \
                self.expr(d - 1) + [")"]
        return self.range(d)

    def end(self, d):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            return []
        if r < 0.5:
            return [self.date()]
        if r < 0.85 or d <= 0:
            return [self.word()]
        return [rng.choice(["first", "last"]), "("] + self.expr(d - 1) + [")"]

    def range(self, d):
        return self.end(d) + [".."] + self.end(d)

    def expr(self, d):
        out = self.inter(d)
        while self.rng.random() < 0.25:
            out += [","] + self.inter(d)
        return out

    def inter(self, d):
        out = self.atom(d)
        while self.rng.random() < 0.2:
            out += ["&"] + self.atom(d)
        return out

    def spec(self):
        rng = self.rng
        t = self.expr(rng.randrange(0, 4))
        bad = rng.random() < 0.25
        if bad:
            for _ in range(rng.randrange(1, 3)):
                i = rng.randrange(len(t) + 1)
                if rng.random() < 0.4 and t:
                    del t[min(i, len(t) - 1)]
                elif rng.random() < 0.5:
                    t.insert(i, rng.choice(["(", ")", ",", "&", "..", "first", "not",
                                            "all", "reverse", "0", "-1", "trust:no",
                                            "2021-01-01"]))
                elif len(t) > 1:
                    j = rng.randrange(len(t))
                    i = min(i, len(t) - 1)
                    t[i], t[j] = t[j], t[i]
        glue = rng.choice(["", "", " ", "  "])
        # words side by side stay apart
        s = ""
        for x in t:
            if s and (s[-1] not in "(),&." or s[-1] == "." and not s.endswith("..")) \
                    and x not in ("(", ")", ",", "&", ".."):
                s += " "
            # keep dots of different tokens apart
            if s.endswith("..") and x.startswith("."):
                s += " "
            s += x
            if rng.random() < 0.5:
                s += glue
        return s, bad


def answer(model, spec):
    model.used, model.depth = set(), 0
    try:
        return model.select(spec)
    except Rejected:
        return None


def zone():
    from zoneinfo import ZoneInfo

    return ZoneInfo("Europe/Berlin")


def observe(rep, model, spec, bad, want):
    rep.count("evaluations")
    rep.count("rejected" if want is None else "selected" if want else "empty")
    if bad:
        rep.count("malformed")
    u = model.used
    for k, n in (("date", "dates"), ("date_local", "dates_local"), ("range", "ranges"),
                 ("list", "lists"), ("intersection", "intersections"),
                 ("before", "date_before"), ("exact", "date_exact"),
                 ("between", "date_between"), ("after", "date_after")):
        if k in u:
            rep.count(n)
    if u & {"not", "reverse", "first", "last"}:
        rep.count("functions")
    rep.distinct(sorted(u), min(model.depth, 3),
                 None if want is None else min(len(want), 2))


def find(spec, rep):
    import structlog
    import tzlocal
    from pathlib import Path

    from backy.repository import Repository
    from backy.schedule import Schedule

    tz = zone()
    tzlocal.get_localzone = lambda: tz
    rng = random.Random(spec["seed"])
    path = os.path.join(spec["dir"], "repo")
    os.makedirs(path)
    for rnd in range(8):
        for x in os.listdir(path):
            if x.endswith(".rev"):
                os.unlink(os.path.join(path, x))
        revs = make(rng, rng.choice([0, 1, 2, 3, 5, 9]))
        for r in revs:
            metas.write(path, r)
        repo = Repository(Path(path), Schedule(), structlog.stdlib.get_logger())
        repo.connect()
        if not revs:
            rep.count("empty_history")
        g, m = Gen(rng, revs, tz), Model(revs, tz)
        for _ in range(spec["n"]):
            s, bad = g.spec()
            want = answer(m, s)
            try:
                got = [r.uuid for r in repo.find_revisions(s)]
            except Exception as e:
                got = None
                why = repr(e)
            if got != want:
                raise Violation(
                    "wrong selection", spec=s, got=got if got is not None else why,
                    want=want, revisions=[metas.show(r) for r in m.h])
            observe(rep, m, s, bad, want)
            rep.sample = rep.sample or dict(spec=s, selected=got, of=len(revs))
        if [r.uuid for r in repo.history] != [r["uuid"] for r in m.h]:
            raise Violation("selecting changed the history")
        for _ in range(spec["n"] // 3):
            s = rng.choice([[g.word()], [rng.choice(["first", "last"]), "("] +
                            g.expr(2) + [")"]])
            s = "".join(s)
            want = answer(m, s)
            try:
                got = [repo.find(s).uuid]
            except Exception as e:
                got = None
            if got != want:
                raise Violation("wrong single selection", spec=s, got=got, want=want,
                                revisions=[metas.show(r) for r in m.h])
            rep.count("single")
            observe(rep, m, s, False, want)


def cli(c):
    from vf.repo import World

    rng = c.rng
    w = World(c)
    revs = make(rng, rng.choice([1, 3, 6]))
    for r in revs:
        metas.write(w.path, r)
    m = Model(revs, UTC)
    g = Gen(rng, revs, UTC)
    by = {r["uuid"]: r for r in revs}
    for _ in range(25):
        s, bad = g.spec()
        if s.startswith("-"):
            continue
        want = answer(m, s)
        form = rng.choice(["uuid", "path", "json", "table"])
        a = {"uuid": ["rev-parse", "--uuid"], "path": ["rev-parse"],
             "json": ["log", "--json"], "table": ["log"]}[form]
        rc, out, err = w.backy(*a, "-r", s)
        out = out.decode()
        info = dict(spec=s, form=form, rc=rc, out=out[-1500:], want=want, err=err[-800:])
        if want is None:
            if rc == 0 or out:
                raise Violation("a specification without an answer is not rejected",
                                **info)
            c.count("cli_rejected")
        else:
            if rc:
                raise Violation("%s fails" % a[0], **info)
            if form == "uuid":
                ok = out == "".join(u + "\n" for u in want)
            elif form == "path":
                ok = out == "".join("%s.rev\n" % os.path.join(w.path, u) for u in want)
            elif form == "json":
                try:
                    v = json.loads(out)
                except ValueError:
                    raise Violation("log --json prints something else", **info)
                ok = [r["uuid"] for r in v] == want
                for r in v:
                    e = metas.norm(by[r["uuid"]])
                    got = dict(
                        uuid=r["uuid"],
                        timestamp=datetime.datetime.fromisoformat(r["timestamp"]),
                        stats=r["stats"], trust=r["trust"], tags=set(r["tags"]),
                        orig_tags=set(r["orig_tags"]), server=r["server"])
                    if got != e:
                        raise Violation("log --json shows something else", got=got,
                                        stored=e)
                c.count("cli_json")
            else:
                pos = [out.find(u[:4]) for u in want]
                ok = ("%d revisions" % len(want)) in out
            if not ok:
                raise Violation("%s prints the wrong revisions" % " ".join(a), **info)
        c.count("cli")
        observe(c, m, s, bad, want)
    c.sample(dict(spec=s, answer=want))
