"""C09: durable before complete."""
import os

from vf import sched
from vf.core import Violation
from vf.repo import CHUNK, World, blob, mutate_image

PROPERTY = "C09"
LEVEL = "exploration"
TECHNIQUE = (
    "offline checker over the recorded write, sync and rename calls of real "
    "backups and metadata changes (a model of the page cache)"
)
NOTE = (
    "The page cache model: data is durable after fsync of the file or sync() "
    "that follow the write; a renamed file's name after fsync of its directory "
    "or sync(). Whether the kernel keeps its promises is not examined."
)
RULE = (
    "one evaluation = one metadata file put in place, judged against the page "
    "cache model; distinct = (kind of source, command, kind of backup, number "
    "of chunks written, first or later completion)"
)
MUST_SEE = ["completions", "metadata_renames", "chunks_written", "file_copies",
            "syncs"]


def cases(tier, rng):
    n = 24 if tier == "quick" else 120
    out = [{"i": i, "src": "rbd"} for i in range(n)]
    out += [{"i": i, "src": "file"} for i in range(8 if tier == "quick" else 40)]
    return out


class PageCache:
    def __init__(self):
        self.data = {}  # path -> True if dirty
        self.name = {}  # path -> True if its directory entry is not durable

    def apply(self, e):
        k, p, p2 = e["kind"], e["path"], e["path2"]
        if e["ret"] < 0:
            return
        if k in ("write", "sendfile", "fallocate", "truncate"):
            self.data[p] = True
        elif k == "open-w":
            flags = int(e["info"], 16)
            if flags & os.O_TRUNC or p not in self.data:
                self.data.setdefault(p, False)
            if flags & os.O_TRUNC:
                self.data[p] = True
        elif k == "fsync":
            self.data[p] = False
            self.name.pop(p, None)
            for q in list(self.name):
                if os.path.dirname(q) == p:
                    del self.name[q]
        elif k == "sync":
            self.data.clear()
            self.name.clear()
        elif k in ("rename", "link"):
            self.data[p2] = self.data.get(p, False)
            self.name[p2] = True
            if k == "rename":
                self.data.pop(p, None)
        elif k == "unlink":
            self.data.pop(p, None)
            self.name.pop(p, None)


def judge(c, w, argv, label, src):
    rc, evs, err = sched.trace(w, argv, ("backy", "backy-" + src))
    if rc:
        raise Violation("%s failed" % label, err=err[-800:], log=w.log_tail())
    every = sorted((e for x in evs.values() for e in x), key=lambda e: e["t"])
    base = os.path.realpath(w.path)
    cache = PageCache()
    done = set()
    wrote = 0
    for e in every:
        if e["kind"] == "sync":
            c.count("syncs")
        if e["kind"] == "rename" and e["ret"] >= 0 and e["path2"].endswith(".rev"):
            c.count("evaluations")
            c.count("metadata_renames")
            name = os.path.basename(e["path2"])[:-4]
            if cache.data.get(e["path"]):
                raise Violation(
                    "metadata replaced before the new version was flushed (%s)"
                    % label, event=e, trace=tail(every, e))
            if e["info"] == "complete" and name not in done:
                done.add(name)
                if label.startswith("backup"):
                    c.count("completions")
                    need = [os.path.join(base, name)]
                    if src == "rbd":
                        m = w.map_of(name)["mapping"]
                        need += [os.path.realpath(w.chunk_file(h))
                                 for h in set(m.values())]
                    for p in need:
                        if cache.data.get(p) or cache.name.get(p):
                            raise Violation(
                                "revision complete before its data is durable "
                                "(%s, %s)" % (label, "file" if src == "file"
                                              else "map" if p == need[0]
                                              else "chunk"),
                                path=p, trace=tail(every, e))
                    c.distinct(src, label, wrote, len(need))
        if e["kind"] == "rename" and "/chunks/" in e["path2"]:
            wrote += 1
            c.count("chunks_written")
        if src == "file" and e["kind"] in ("sendfile", "write") and (
                len(os.path.basename(e["path"])) == 22):
            c.count("file_copies")
        cache.apply(e)
    if label.startswith("backup"):
        for r in w.revs():
            if w.complete(r) and r["uuid"] not in c.known and r["uuid"] not in done:
                raise Violation("a revision became complete in place, not by "
                                "replacing its metadata (%s)" % label, rev=r)
        c.known |= {r["uuid"] for r in w.revs()}
    else:
        c.distinct(src, label, len(done))
    c.sample(dict(command=label, source=src, events=len(every), chunks=wrote))


def tail(every, e):
    i = every.index(e)
    return ["%s %s %s" % (x["kind"], x["path"][-50:], x["path2"][-40:])
            for x in every[max(0, i - 12):i + 1]]


def run(c):
    rng = c.rng
    c.known = set()
    src = c.spec["src"]
    if src == "file":
        f = os.path.join(c.dir, "plain")
        with open(f, "wb") as g:
            g.write(blob(rng, 3000, "rand"))
        w = World(c, source={"type": "file", "filename": f})
    else:
        w = World(c, image_size=rng.choice([CHUNK, 3 * CHUNK, 2 * CHUNK + 512,
                                            25 * CHUNK]),
                  conf={"gran": 65536, "whole": rng.choice([True, False])})
        big = w.rbd.meta(w.spec)["size"] > 20 * CHUNK
        for o in range(0, w.rbd.meta(w.spec)["size"] - 100, CHUNK):
            w.rbd.write(w.spec, o + rng.randrange(90), rng.randbytes(
                rng.choice([10, 60])))
    backy = ("backy", "-C", w.path)
    for step in range(6 if c.tier == "quick" else 10):
        w.tick(hours=3)
        k = rng.random()
        label = "backup"
        if src == "file":
            with open(f, "wb") as g:
                g.write(blob(rng, rng.choice([0, 1, 4096, 1 << 20, 9 << 20])))
            if rng.random() < 0.3:
                w.run(*backy, "distrust", "-r", "local")
        else:
            mutate_image(w, rng, 3, resize=not big)
            if step and k < 0.2:
                w.backy("distrust", "-r", "local")
                label = "backup distrusted"
            elif step and k < 0.35:
                w.run(*backy, "backup", "-f", "daily", env=sched.shim(
                    w, "backy-rbd", kill=rng.randrange(265, 280)))
                c.known |= {r["uuid"] for r in w.revs() if w.complete(r)}
                label = "backup after crash"
            elif step and k < 0.5:
                w.source["full-always"] = not w.source.get("full-always")
                w.write_config()
                label = "backup full"
        judge(c, w, backy + ("backup", "-f", "daily,manual:x"), label, src)
        if rng.random() < 0.5:
            op = rng.choice([
                ("tags", "-r", "all", "add", "-f", "manual:%d" % step),
                ("distrust", "-r", "local"), ("verify", "-r", "last"),
                ("tags", "-r", "all", "remove", "manual:x"),
                ("gc", "--expire", "--local"),
            ])
            judge(c, w, backy + op, op[0], src)
