"""C02: the chunked file is a flat byte array."""
import os
import random
import traceback

from vf import inproc
from vf.core import Violation

PROPERTY = "C02"
LEVEL = "exploration"
TECHNIQUE = "online model comparison (shadow byte array) of the real file class"
NOTE = (
    "Every operation's result is compared with a shadow byte array, final "
    "contents are re-read through fresh objects. Operation sequences are "
    "sampled, not exhausted."
)
RULE = (
    "one evaluation = one operation compared with the shadow array; distinct = "
    "(operation, position relative to the chunk grid, length class, number of "
    "chunks in memory class, mode)"
)
MUST_SEE = ["reopen", "evictions", "cross-chunk", "fill", "truncate", "shared"]
MiB = 1 << 20
CHUNK = 4 * MiB


def cases(tier, rng):
    n = 150 if tier == "quick" else 400
    return [{"i": i, "ops": 160 if tier == "quick" else 260,
             "big": i % 4 == 0} for i in range(n)]


def run(c):
    inproc.call(c, __name__, "inside",
                dict(seed="%s/%s" % (c.seed, c.spec["i"]), dir=c.dir, **c.spec))


def cls(n):
    return n if n < 3 else n.bit_length() + 10


def inside(spec, rep):
    from pathlib import Path

    import structlog

    from backy.rbd.chunked import File, Store

    from vf.repo import blob

    rng = random.Random(spec["seed"])
    log = structlog.stdlib.get_logger()
    root = Path(spec["dir"]) / "chunks"
    store = Store(root, log)
    limit = (34 if spec["big"] else 6) * CHUNK
    names = ["f%d" % i for i in range(1 if spec["big"] else 3)]
    ref = {n: None for n in names}  # None: does not exist
    trace = []
    cur = None

    def fail(what, **kw):
        raise Violation(what, trace=trace[-40:], **kw)

    def opened(n, mode):
        return File(Path(spec["dir"]) / n, store, mode)

    f = None
    pos = 0
    data = None
    mode = None
    name = None

    def grid(p):
        r = p % CHUNK
        return "0" if r == 0 else "-" if r > CHUNK - 5000 else "+" if r < 5000 else "m"

    def point(size):
        k = rng.random()
        if spec["big"] and rng.random() < 0.5:
            p = rng.randrange(limit // CHUNK) * CHUNK + rng.choice([0, 5, 4096, CHUNK - 9])
        elif k < 0.5:
            p = rng.randrange(size // CHUNK + 2) * CHUNK + rng.choice(
                [0, 0, -1, 1, 4095, -4096, 77])
        elif k < 0.7:
            p = size + rng.choice([-1, 0, 0, 1, 100, -100, CHUNK])
        else:
            p = rng.randrange(size + 1)
        return max(0, min(p, limit))

    for step in range(spec["ops"]):
        try:
            if f is None:
                if rng.random() < 0.4:
                    store = Store(root, log)
                name = rng.choice(names)
                mode = rng.choice(["rw", "rw", "r+b", "wb", "ab", "a+b", "rb", "rb+"])
                if ref[name] is None:
                    if "w" not in mode and "+" not in mode and "a" not in mode:
                        try:
                            opened(name, mode)
                        except FileNotFoundError:
                            rep.count("missing")
                            continue
                        fail("opening a missing file for reading succeeded")
                    if rng.random() < 0.4 and "f0" in names and any(
                        ref[x] is not None for x in names
                    ):
                        # clone: what an incremental backup does
                        src = rng.choice([x for x in names if ref[x] is not None])
                        (Path(spec["dir"]) / name).write_bytes(
                            (Path(spec["dir"]) / src).read_bytes())
                        ref[name] = bytearray(ref[src])
                        trace.append(("clone", src, name))
                        rep.count("shared")
                    else:
                        ref[name] = bytearray()
                data = ref[name]
                f = opened(name, mode)
                rep.count("reopen")
                touched = set()
                trace.append(("open", name, mode, len(data)))
                pos = len(data) if "a" in mode else 0
                canw = "w" in mode or "+" in mode or "a" in mode
                canr = "r" in mode or "+" in mode and "r" in mode
                if f.tell() != pos:
                    fail("position after open", got=f.tell(), want=pos)
                if bool(f.writable()) != canw or bool(f.readable()) != canr:
                    fail("readable/writable wrong for mode " + mode)
                continue
            op = rng.choice(
                ["write"] * (6 if canw else 0)
                + ["read"] * (6 if canr else 0)
                + ["seek"] * 6
                + ["flush", "truncate"] * (1 if canw else 0)
                + ["close", "tell"] * (1 if not spec["big"] or rng.random() < 0.15 else 0)
                + ["tell"]
            )
            size = len(data)
            p0 = pos
            n = 0
            if op == "seek":
                p = point(size)
                if not canw:
                    p = min(p, size)
                how = rng.randrange(3)
                trace.append(("seek", p, how))
                if how == 0:
                    r = f.seek(p)
                elif how == 1:
                    r = f.seek(p - pos, 1)
                elif p <= size:
                    p = size
                    r = f.seek(0, 2)
                else:
                    r = f.seek(p)
                if p > size:
                    data.extend(b"\0" * (p - size))
                    rep.count("fill")
                pos = p
                n = max(0, p - size)
                if r != pos:
                    fail("seek returned a wrong position", got=r, want=pos)
            elif op == "write":
                n = rng.choice([0, 1, 100, 4096, CHUNK - 1, CHUNK, CHUNK + 1,
                                2 * CHUNK, rng.randrange(1, CHUNK),
                                CHUNK - pos % CHUNK])
                if spec["big"] and rng.random() < 0.7:
                    n = min(n, 5000)
                n = max(0, min(n, limit - pos))
                b = blob(rng, n)
                trace.append(("write", n))
                f.write(b)
                data[pos : pos + n] = b
                pos += n
                if p0 // CHUNK != (pos - 1) // CHUNK and n:
                    rep.count("cross-chunk")
            elif op == "read":
                n = rng.choice([-1, 0, 1, 100, 4096, CHUNK, CHUNK + 1,
                                CHUNK - pos % CHUNK, 3 * CHUNK])
                if n == -1 and len(data) > 12 * CHUNK and rng.random() < 0.8:
                    n = 100
                trace.append(("read", n))
                r = f.read(n)
                w = bytes(data[pos:] if n == -1 else data[pos : pos + n])
                if r != w:
                    i = next((i for i, (a, b) in enumerate(zip(r, w)) if a != b),
                             min(len(r), len(w)))
                    fail("read returned wrong data", at=pos + i,
                         got_len=len(r), want_len=len(w))
                pos += len(w)
                n = len(w)
            elif op == "truncate":
                if rng.random() < 0.5:
                    trace.append(("truncate()", pos))
                    f.truncate()
                    del data[pos:]
                else:
                    p = min(point(size), size)
                    if pos > p:
                        f.seek(p)
                        pos = p
                    trace.append(("truncate", p))
                    f.truncate(p)
                    del data[p:]
                rep.count("truncate")
                if f.size != len(data):
                    fail("size after truncate", got=f.size, want=len(data))
            elif op == "flush":
                trace.append(("flush",))
                f.flush()
            elif op == "tell":
                pass
            elif op == "close":
                trace.append(("close",))
                f.close()
                # the closed file as another process would see it
                g = File(Path(spec["dir"]) / name, Store(root, log), "rb")
                if g.size != len(data):
                    fail("size after close and reopen", got=g.size, want=len(data))
                h = 0
                while h < len(data):
                    b = g.read(CHUNK)
                    if b != data[h : h + CHUNK]:
                        fail("content after close and reopen differs", around=h)
                    h += len(b)
                if g.read(1) != b"":
                    fail("data after the end")
                g.close()
                f = None
            rep.count("evaluations")
            rep.distinct(op, grid(p0), cls(abs(n)), mode,
                         (len(data) // CHUNK > 20, p0 >= size))
            if f is not None:
                touched.update(range(p0 // CHUNK, max(p0, pos - 1) // CHUNK + 1))
                if len(touched) > 20:
                    rep.count("evictions")
                if f.tell() != pos:
                    fail("position after " + op, got=f.tell(), want=pos)
                if f.size != len(data):
                    fail("size after " + op, got=f.size, want=len(data))
        except Violation:
            raise
        except Exception as e:
            if "missing" in str(e) and False:
                raise
            fail("operation failed: %s" % type(e).__name__,
                 tb=traceback.format_exc()[-1500:])
    rep.sample = trace[:10]
