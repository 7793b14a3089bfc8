"""C25: a diff stream is applied exactly or rejected."""
import io
import os
import random
import struct

from vf import inproc
from vf.core import Inconclusive, Violation

PROPERTY = "C25"
LEVEL = "exploration"
TECHNIQUE = (
    "comparison with an independent strict reader of the rbd diff v1 format: "
    "generated, rearranged, split and damaged streams applied by the real "
    "reader to real chunked files, in-process and through whole backups"
)
NOTE = (
    "Streams are sampled: valid ones in every arrangement of extents and "
    "damage of single bytes, fields, records and ends. Extents reaching beyond "
    "the image and sizes above 64 MiB are not judged."
)
RULE = (
    "one evaluation = one stream applied and judged; distinct = (arrangement, "
    "kinds of damage, verdict of the reference reader, reaction)"
)
MUST_SEE = ["must", "may", "bad", "rejected", "applied", "equivalent", "grown",
            "shrunk", "grid", "file", "e2e_bad", "e2e_must", "short_reads",
            "cut_in_data", "cut_in_field", "bad_name", "bad_header", "bad_type",
            "misplaced", "bogus_length"]
MIN_DISTINCT = 60
MiB = 1 << 20
CHUNK = 4 * MiB
HEADER = b"rbd diff v1\n"


def cases(tier, rng):
    q = tier == "quick"
    out = [{"what": "fuzz", "i": i, "n": 420 if q else 3000}
           for i in range(40 if q else 240)]
    out += [{"what": "grid", "i": i, "n": 10 if q else 40}
            for i in range(16 if q else 80)]
    out += [{"what": "e2e", "i": i, "n": 10 if q else 30}
            for i in range(8 if q else 60)]
    rng.shuffle(out)
    return out


# -- reference


class Bad(Exception):
    pass


class Undefined(Exception):
    pass


def reference(stream, base, frm, to):
    """-> (verdict, contents); verdict: must, may (apply or reject)."""
    r = io.BytesIO(stream)

    def take(n, what):
        b = r.read(n)
        if len(b) != n:
            raise Bad("ends within %s" % what)
        return b

    if r.read(len(HEADER)) != HEADER:
        raise Bad("header")
    data = bytearray(base)
    verdict = "must"
    meta = []
    seen = []
    in_data = False
    size = None
    while True:
        t = r.read(1)
        if not t:
            raise Bad("no end record")
        if t == b"e":
            break
        if t in (b"f", b"t", b"s"):
            if t == b"s":
                n, = struct.unpack("<Q", take(8, "a size"))
                if in_data:
                    raise Bad("metadata after data")
                if n > 64 * MiB:
                    # still has to end properly, but nobody wants to wait
                    raise Undefined("size")
                size = n
                if n <= len(data):
                    del data[n:]
                else:
                    data += bytes(n - len(data))
            else:
                n, = struct.unpack("<i", take(4, "a length"))
                if n < 0:
                    raise Bad("negative length")
                name = take(n, "a name")
                if in_data:
                    raise Bad("metadata after data")
                if name != (frm if t == b"f" else to).encode():
                    raise Bad("wrong snapshot")
            meta.append(t)
        elif t in (b"w", b"z"):
            in_data = True
            o, n = struct.unpack("<QQ", take(16, "an extent"))
            if o > len(data):
                raise Undefined("beyond the end")
            if t == b"w":
                d = r.read(min(n, 1 << 27))
                if len(d) != n:
                    raise Bad("ends within data")
            else:
                d = None
            if o + n > len(data):
                raise Undefined("beyond the end")
            data[o : o + n] = bytes(n) if d is None else d
            if t == b"z" and n == 0:
                verdict = "may"
            if n:
                seen.append((o, o + n))
        else:
            raise Bad("record type")
    if meta != [b"f", b"t", b"s"]:
        verdict = "may"
    if r.read(1):
        verdict = "may"
    seen.sort()
    if any(a[1] > b[0] for a, b in zip(seen, seen[1:])):
        verdict = "may"
    return verdict, bytes(data)


# -- generation


def meta_records(frm, to, size):
    return [b"f" + struct.pack("<i", len(frm)) + frm.encode(),
            b"t" + struct.pack("<i", len(to)) + to.encode(),
            b"s" + struct.pack("<Q", size)]


def rec(kind, off, data):
    if kind == "w":
        return b"w" + struct.pack("<QQ", off, len(data)) + data
    return b"z" + struct.pack("<QQ", off, len(data))


def arrange(rng, exts, how):
    """[(kind, off, data)] disjoint extents -> equivalent list."""
    out = list(exts)
    if "split" in how:
        new = []
        for k, o, d in out:
            cuts = sorted({0, len(d)} | {rng.randrange(len(d) + 1)
                                         for _ in range(rng.randrange(4))})
            for a, b in zip(cuts, cuts[1:]):
                new.append((k, o + a, d[a:b]))
        out = new
    if "zeros_as_data" in how:
        out = [("w", o, bytes(len(d))) if k == "z" and rng.random() < 0.6
               else (k, o, d) for k, o, d in out]
    if "merge" in how:
        out.sort(key=lambda x: x[1])
        new = []
        for k, o, d in out:
            if new and new[-1][0] == k and new[-1][1] + len(new[-1][2]) == o:
                new[-1] = (k, new[-1][1], new[-1][2] + d)
            else:
                new.append((k, o, d))
        out = new
    if "empty" in how:
        end = max([o + len(d) for k, o, d in out] or [0])
        for _ in range(rng.randrange(1, 3)):
            out.insert(rng.randrange(len(out) + 1), ("w", rng.randrange(end + 1), b""))
    if "shuffle" in how:
        rng.shuffle(out)
    if "reverse" in how:
        out.sort(key=lambda x: -x[1])
    return out


HOWS = ["split", "merge", "empty", "shuffle", "reverse", "zeros_as_data"]


def name(rng):
    return "backy-" + "".join(rng.choice("abcdefXYZ0123456789-_.") for _ in
                              range(rng.choice([0, 1, 5, 22, 36])))


def points(rng, size, n, grid):
    out = set()
    for _ in range(n):
        k = rng.random()
        if grid and k < 0.6:
            p = rng.randrange(size // CHUNK + 1) * CHUNK + rng.choice(
                [0, 0, 1, -1, 4096, -4096])
        elif k < 0.75:
            p = rng.choice([0, size, size - 1, 1])
        else:
            p = rng.randrange(size + 1)
        out.add(max(0, min(size, p)))
    return sorted(out)


def material(rng, grid):
    """base, [(kind, off, data)], new size"""
    if grid:
        size = rng.choice([CHUNK, 2 * CHUNK, 3 * CHUNK - 512, CHUNK + 1, 2 * CHUNK + 77])
        new = rng.choice([size, size, CHUNK, 2 * CHUNK, 3 * CHUNK, size + 4096,
                          size - 512, 3 * CHUNK + 9])
        u = rng.randbytes(65521)
        base = (u * (size // len(u) + 1))[:size]
    else:
        size = rng.choice([0, 1, 10, 300, 2000, rng.randrange(3000)])
        new = rng.choice([size, size, 0, size // 2, size + 5, rng.randrange(4000)])
        base = rng.randbytes(size)
    ps = points(rng, new, rng.choice([0, 2, 2, 4, 8, 14]), grid)
    exts = []
    for a, b in zip(ps, ps[1:]):
        k = rng.random()
        if k < 0.35:
            continue
        if k < 0.6:
            exts.append(("z", a, bytes(b - a)))
        else:
            d = rng.randbytes(min(b - a, 5000))
            exts.append(("w", a, (d * ((b - a) // max(1, len(d)) + 1))[: b - a]))
    return base, exts, new


def damage(rng, recs, frm, to, counts):
    """Damages a list of records -> (bytes, kinds)."""
    recs = list(recs)
    kinds = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.choice(["cut", "cut", "cut_record", "byte", "byte", "drop", "dup",
                        "swap", "name", "header", "type", "length", "insert",
                        "noend", "trailing", "misplaced", "bogus", "concat"])
        if k == "cut":
            s = b"".join(recs)
            recs = [s[: rng.randrange(len(s) + 1)]]
        elif k == "cut_record" and len(recs) > 1:
            i = rng.randrange(len(recs))
            r = recs[i]
            recs = recs[:i] + [r[: rng.choice([0, 1, 2, len(r) // 2, max(0, len(r) - 1)])]]
        elif k == "byte":
            s = bytearray(b"".join(recs))
            if s:
                p = rng.randrange(min(len(s), rng.choice([40, 120, len(s)])))
                s[p] = rng.choice([0, 255, s[p] ^ (1 << rng.randrange(8)),
                                   rng.randrange(256), ord("e"), ord("w"), ord("z")])
            recs = [bytes(s)]
        elif k == "drop" and recs:
            recs.pop(rng.randrange(len(recs)))
        elif k == "dup" and recs:
            i = rng.randrange(len(recs))
            recs.insert(rng.randrange(i, len(recs) + 1), recs[i])
        elif k == "swap" and len(recs) > 1:
            i, j = rng.sample(range(len(recs)), 2)
            recs[i], recs[j] = recs[j], recs[i]
        elif k == "name":
            idx = [i for i, r in enumerate(recs) if r[:1] in (b"f", b"t") and len(r) < 60]
            if idx:
                i = rng.choice(idx)
                n = rng.choice([frm[:-1], frm + "x", to, frm, frm[::-1], "", "é",
                                to.upper(), "backy-", frm + "\0"])
                n = n.encode()
                recs[i] = recs[i][:1] + struct.pack("<i", len(n)) + n
                kinds.append("bad_name")
        elif k == "header":
            recs[0:1] = [rng.choice([b"rbd diff v2\n", b"", b"rbd diff v1", b"rbd diff v1\r\n",
                                     b"RBD diff v1\n", b"\0" + HEADER, HEADER * 2])]
        elif k == "type" and len(recs) > 1:
            i = rng.randrange(1, len(recs))
            recs[i] = rng.choice([b"x", b"E", b"\0", b"\xff", b"F", b"w", b"z", b"s",
                                  b"\n", b"l"]) + recs[i][1:]
        elif k == "length":
            idx = [i for i, r in enumerate(recs) if r[:1] in (b"w", b"z") and len(r) >= 17]
            if idx:
                i = rng.choice(idx)
                o, n = struct.unpack("<QQ", recs[i][1:17])
                n = max(0, n + rng.choice([-1, 1, -n, 16, 256])) & ((1 << 64) - 1)
                recs[i] = recs[i][:1] + struct.pack("<QQ", o, n) + recs[i][17:]
        elif k == "bogus":
            # as long as one likes: the stream ends before
            idx = [i for i, r in enumerate(recs) if r[:1] == b"w" and len(r) >= 17]
            if idx:
                i = rng.choice(idx)
                o, n = struct.unpack("<QQ", recs[i][1:17])
                n = rng.choice([1 << 32, 1 << 40, 1 << 62, (1 << 64) - 1, 1 << 63,
                                (n + (1 << 56)) & ((1 << 64) - 1)])
                recs[i] = b"w" + struct.pack("<QQ", o, n) + recs[i][17:]
                kinds.append("bogus_length")
        elif k == "insert":
            s = bytearray(b"".join(recs))
            p = rng.randrange(len(s) + 1)
            s[p:p] = rng.randbytes(rng.choice([1, 1, 2, 8]))
            recs = [bytes(s)]
        elif k == "noend":
            recs = recs[:-1]
        elif k == "trailing":
            recs.append(rng.choice([b"e", b"junk", b"\0", HEADER]))
        elif k == "misplaced" and len(recs) > 1:
            i = rng.randrange(len(recs))
            recs.insert(rng.randrange(len(recs)), recs[i])
            x = rng.choice(meta_records(frm, to, rng.randrange(3000)))
            recs.insert(rng.randrange(1, len(recs)), x)
        elif k == "concat":
            recs = recs[:-1] + recs
        kinds.append(k)
    return b"".join(recs), kinds


def stream_for(rng, frm, to, base, exts, new, counts):
    how = [h for h in HOWS if rng.random() < 0.3]
    recs = [HEADER] + meta_records(frm, to, new)
    recs += [rec(*x) for x in arrange(rng, exts, how)] + [b"e"]
    kinds = []
    if rng.random() < 0.65:
        s, kinds = damage(rng, recs, frm, to, counts)
    else:
        s = b"".join(recs)
    return s, how, kinds


# -- in-process


class Short(io.RawIOBase):
    """A pipe-like thing: reads give as much as it likes."""

    def __init__(self, data, rng):
        self.data, self.pos, self.rng = data, 0, rng

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos,
                self.rng.choice([1, 2, 7, 100, 65536]))
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n


def judge_name(why):
    return why.replace(" ", "_")


def inside(spec, rep):
    from pathlib import Path

    import structlog

    from backy.rbd.chunked import File, Store
    from backy.rbd.rbd import RBDDiffV1

    log = structlog.stdlib.get_logger()
    rng = random.Random(spec["seed"])
    grid = spec["what"] == "grid"
    root = Path(spec["dir"])
    store = Store(root / "chunks", log)
    for i in range(spec["n"]):
        base, exts, new = material(rng, grid)
        frm, to = name(rng), name(rng)
        s, how, kinds = stream_for(rng, frm, to, base, exts, new, None)
        try:
            verdict, want = reference(s, base, frm, to)
            why = None
        except Bad as e:
            verdict, want, why = "bad", None, str(e)
        except Undefined as e:
            rep.count("undefined")
            continue
        plain = not kinds
        if plain:
            # the reference and the way it was made have to agree
            model = bytearray(base[:new] + bytes(max(0, new - len(base))))
            for k, o, d in exts:
                model[o : o + len(d)] = d
            assert want == bytes(model) and verdict == "must", (verdict, how)
        rep.count("evaluations")
        rep.count(verdict)
        # a real file with the base, like one of a backup
        path = root / ("f%d" % i)
        with File(path, store, "wb") as f:
            f.write(base)
        keep = None
        if rng.random() < 0.5:
            keep = root / ("k%d" % i)
            keep.write_bytes(path.read_bytes())
        if rng.random() < 0.5:
            store = Store(root / "chunks", log)
        if rng.random() < 0.4:
            fh = io.BufferedReader(Short(s, rng), rng.choice([1, 16, 4096]))
            rep.count("short_reads")
        else:
            fh = io.BytesIO(s)
        error = None
        f = File(path, store, "wb")
        try:
            RBDDiffV1(fh).integrate(f, frm, to)
        except Exception as e:
            error = e
        f.close()
        rep.count("rejected" if error else "applied")
        rep.distinct(tuple(sorted(how)) if plain else None, tuple(sorted(kinds)),
                     verdict, why, type(error).__name__)
        rep.count("grid" if grid else "file")
        if why == "ends within data":
            rep.count("cut_in_data")
            if "bogus_length" in kinds:
                rep.count("bogus_length")
        elif why and why.startswith("ends within"):
            rep.count("cut_in_field")
        elif why:
            rep.count({"wrong snapshot": "bad_name", "header": "bad_header",
                       "record type": "bad_type", "no end record": "no_end",
                       "metadata after data": "misplaced"}.get(why, "otherwise"))
        info = dict(how=how, damage=kinds, why=why, stream=s[:400].hex(),
                    length=len(s), base=len(base), new=new, error=repr(error),
                    frm=frm, to=to)
        if verdict == "bad" and not error:
            raise Violation("a malformed diff is accepted (%s)" % why, **info)
        if verdict == "must" and error:
            raise Violation("a valid diff is rejected", **info)
        if not error:
            with File(path, store, "rb") as f:
                got = f.read()
            if got != want:
                d = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b),
                         min(len(got), len(want)))
                raise Violation("a diff is not applied exactly", at=d,
                                sizes=(len(got), len(want)), **info)
            if plain and how:
                rep.count("equivalent")
            if len(want) > len(base):
                rep.count("grown")
            elif len(want) < len(base):
                rep.count("shrunk")
        if keep:
            # the base stays what it was
            with File(keep, store, "rb") as f:
                if f.read() != base:
                    raise Violation("applying a diff changed the revision it is "
                                    "based on", **info)
            keep.unlink()
        path.unlink()
        if rep.sample is None and not plain:
            rep.sample = dict(how=how, damage=kinds, verdict=verdict, why=why,
                              reaction=repr(error)[:80])


# -- whole backups


def forge(old, new, frm, to, arg):
    """Called by the stand-in for rbd to make the diff stream."""
    from vf.rbdfake import extents

    rng = random.Random(arg["seed"])
    exts = []
    for k, o, n in extents(old, new, 65536, rng, {"trim": True, "zero": True}):
        exts.append((k, o, new[o : o + n]))
    how = [h for h in HOWS if rng.random() < 0.3]
    recs = [HEADER] + meta_records(frm, to, len(new))
    recs += [rec(*x) for x in arrange(rng, exts, how)] + [b"e"]
    kinds = []
    if arg["damage"]:
        s, kinds = damage(rng, recs, frm, to, None)
    else:
        s = b"".join(recs)
    try:
        v, got = reference(s, old, frm, to)
        why = None
        if got != new:
            v = "other"  # a valid diff of something else
    except Bad as e:
        v, why = "bad", str(e)
    except Undefined as e:
        v, why = "undefined", str(e)
    if v in ("undefined", "other"):
        s, v, why = b"".join(recs), "must", None
    import json

    with open(arg["out"], "w") as f:
        json.dump([v, why, how, kinds], f)
    return s


def e2e(c):
    import json

    from vf.repo import World, blob, mutate_image

    rng, spec = c.rng, c.spec
    w = World(c, image_size=rng.choice([CHUNK, 2 * CHUNK, 2 * CHUNK + 4096]))
    w.rbd.write(w.spec, 0, blob(rng, CHUNK, "mix"))
    w.backup()
    out = os.path.join(c.dir, "verdict")
    for i in range(spec["n"]):
        mutate_image(w, rng, 3, max_size=3 * CHUNK)
        if w.rbd.meta(w.spec)["size"] == 0:
            w.rbd.resize(w.spec, 4096)
        bad = rng.random() < 0.7
        w.set_conf(rawdiff=["vf.checks.c25", "forge",
                            {"seed": rng.random(), "damage": bad, "out": out}],
                   piece=rng.choice([None, 1 << 16, 4097, 333333]))
        if os.path.exists(out):
            os.unlink(out)
        before = {r["uuid"] for r in w.revs()}
        rc, new, err = w.backup(expect_ok=False)
        w.set_conf(rawdiff=None, piece=None)
        if not os.path.exists(out):
            c.count("not_incremental")
            if rc:
                raise Violation("an undisturbed backup failed", log=w.log_tail())
            continue
        with open(out) as f:
            v, why, how, kinds = json.load(f)
        good = [r for r in new if w.complete(r)]
        info = dict(verdict=v, why=why, how=how, damage=kinds, log=w.log_tail(2500))
        c.count("evaluations")
        c.distinct("e2e", v, why, tuple(sorted(kinds)), rc)
        if v == "bad":
            c.count("e2e_bad")
            if rc == 0 or good:
                raise Violation("a backup from a malformed diff succeeds (%s)" % why,
                                rc=rc, **info)
        elif v == "must" or good:
            c.count("e2e_" + v)
            if v == "must" and (rc or len(good) != 1):
                raise Violation("a backup from a valid diff fails", rc=rc, **info)
            for r in good:
                w.check_restore(r["uuid"], what="made from %s" % how)
        for u in sorted(before)[-2:]:
            r = w.rev(u)
            if r and w.complete(r):
                w.check_restore(u, what="after a diff that is %s" % v)
        if rc:
            w.backup()
        c.sample(dict(verdict=v, why=why, how=how, damage=kinds, rc=rc))


def run(c):
    if c.spec["what"] == "e2e":
        return e2e(c)
    inproc.call(c, __name__, "inside",
                dict(seed="%s/%s/%s" % (c.seed, c.spec["what"], c.spec["i"]),
                     dir=c.dir, **c.spec), timeout=150)
