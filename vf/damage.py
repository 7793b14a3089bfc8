"""Ways of damaging stored data."""
import os


def compress(data):
    import sys

    for p in ("/opt/venv/lib/python3.12/site-packages",):
        if p not in sys.path:
            sys.path.append(p)
    import lzo

    return lzo.compress(data)


KINDS = ["flip", "flip", "flip-head", "flip-many", "trunc", "trunc-1", "empty",
         "extend", "zero-tail", "swap", "other-valid", "valid-short",
         "valid-long", "missing"]


def harm(rng, path, kind, others):
    """Damages one chunk file in place; returns a description or None if
    nothing changed."""
    with open(path, "rb") as f:
        old = f.read()
    new = old
    if kind == "flip":
        b = bytearray(old)
        i = rng.randrange(len(b))
        b[i] ^= 1 << rng.randrange(8)
        new = bytes(b)
    elif kind == "flip-head":
        b = bytearray(old)
        i = rng.randrange(min(8, len(b)))
        b[i] ^= 1 << rng.randrange(8)
        new = bytes(b)
    elif kind == "flip-many":
        b = bytearray(old)
        for _ in range(rng.randrange(2, 40)):
            b[rng.randrange(len(b))] = rng.randrange(256)
        new = bytes(b)
    elif kind == "trunc":
        new = old[: rng.randrange(len(old))]
    elif kind == "trunc-1":
        new = old[:-1]
    elif kind == "empty":
        new = b""
    elif kind == "extend":
        new = old + rng.randbytes(rng.randrange(1, 200))
    elif kind == "zero-tail":
        n = rng.randrange(1, len(old))
        new = old[:-n] + b"\0" * n
    elif kind == "swap":
        if not others:
            return None
        with open(rng.choice(others), "rb") as f:
            new = f.read()
    elif kind == "other-valid":
        new = compress(b"\0" * (4 << 20))
    elif kind == "valid-short":
        new = compress(b"x" * rng.randrange(1, 4096))
    elif kind == "valid-long":
        new = compress(b"y" * (5 << 20))
    elif kind == "missing":
        os.unlink(path)
        return kind
    if new == old:
        return None
    os.unlink(path)
    with open(path, "wb") as f:
        f.write(new)
    return kind
