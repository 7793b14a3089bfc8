"""C05: the verdict of verification."""
import os

import lzo
import mmh3

from vf import damage
from vf.core import Violation
from vf.repo import CHUNK, World, blob, load, mutate_image, save, tree_state

PROPERTY = "C05"
LEVEL = "exploration"
TECHNIQUE = (
    "independent oracle (own decompression and hashing, own vouching rule) over "
    "the repository before and after real verifications of damaged stores"
)
NOTE = "Histories, trust states and damage are sampled."
RULE = (
    "one evaluation = one verification judged; distinct = (trust states, "
    "verdicts per verified revision, kinds of damage, damaged chunk shared, "
    "caller)"
)
MUST_SEE = ["marked", "removed", "vouched_damage", "damaged_shared", "multi"]


def cases(tier, rng):
    n = 24 if tier == "quick" else 160
    return [{"i": i, "rounds": 14 if tier == "quick" else 40} for i in range(n)]


def intact(w, h):
    try:
        with open(w.chunk_file(h), "rb") as f:
            data = lzo.decompress(f.read())
    except (OSError, lzo.error):
        return False
    return mmh3.hash_bytes(data).hex() == h


def raw(w):
    """{uuid: bytes of the metadata file}"""
    out = {}
    for r in w.revs():
        with open(os.path.join(w.path, r["file"]), "rb") as f:
            out[r["uuid"]] = f.read()
    return out


def run(c):
    rng = c.rng
    w = World(c, image_size=rng.choice([2 * CHUNK, 3 * CHUNK + 512, 5 * CHUNK]),
              conf={"gran": 65536, "whole": rng.choice([True, False])})
    w.rbd.write(w.spec, 0, blob(rng, 2 * CHUNK, rng.choice(["rand", "mix"])))
    size = w.rbd.meta(w.spec)["size"]
    if rng.random() < 0.7:
        w.rbd.write(w.spec, size // 2, blob(rng, size // 2, "rand"))
    for _ in range(rng.randrange(2, 5)):
        w.backup("daily")
        mutate_image(w, rng, 3, resize=rng.random() < 0.3)
    saved = save(w)
    for _ in range(c.spec["rounds"]):
        load(w, saved)
        round_(c, w, rng)


def round_(c, w, rng):
    uu = [r["uuid"] for r in w.revs()]
    for u in uu:
        k = rng.random()
        if k < 0.3:
            w.backy("verify", "-r", u)
        elif k < 0.5:
            w.backy("distrust", "-r", u)
    before = {r["uuid"]: r for r in w.revs()}
    maps = {u: set(w.map_of(u)["mapping"].values()) for u in before}
    if set(before) != set(uu):
        raise Violation("verifying an intact revision removed a revision",
                        before=uu, after=sorted(before), log=w.log_tail())
    ch = sorted(w.chunks())
    kinds = []
    for h in rng.sample(ch, min(len(ch), rng.choice([0, 1, 1, 1, 2, 3, 20]))):
        others = [w.chunk_file(x) for x in ch if x != h
                  and os.path.isfile(w.chunk_file(x))]
        k = damage.harm(rng, w.chunk_file(h), rng.choice(damage.KINDS), others)
        if k:
            kinds.append(k)
            if sum(h in m for m in maps.values()) > 1:
                c.count("damaged_shared")
    bad = {h for m in maps.values() for h in m if not intact(w, h)}
    files = tree_state(os.path.join(w.path, "chunks"))
    text = raw(w)
    # the model
    state = {u: r["trust"] for u, r in before.items()}
    alive = dict(maps)
    todo = rng.choice([[rng.choice(uu)], [rng.choice(uu)], uu, "seq"])
    if todo == "seq":
        todo = rng.sample(uu, rng.randrange(1, len(uu) + 1))
        calls = [[u] for u in todo]
    elif len(todo) == 1:
        calls = [todo]
    else:
        calls = ["all"]
        c.count("multi")
    # The command runs one worker per revision, oldest first
    verdicts = []
    for u in todo:
        vouched = set()
        for x, t in state.items():
            if x in alive and t == "verified":
                vouched |= alive[x]
        broken = (maps[u] - vouched) & bad
        if maps[u] & vouched & bad:
            c.count("vouched_damage")
        verdicts.append((u, not broken))
        if broken:
            del alive[u]
        else:
            state[u] = "verified"
        c.count("removed" if broken else "marked")
    how = rng.choice(["cli", "worker"])
    for call in calls:
        if call == "all":
            how = "cli"
            w.backy("verify", "-r", "all")
        elif how == "cli":
            w.backy("verify", "-r", call[0])
        else:
            w.worker("verify", call[0])
    c.count("evaluations")
    after = {r["uuid"]: r for r in w.revs()}
    info = dict(trust_before={u: r["trust"] for u, r in before.items()},
                verified=todo, damaged=sorted(bad), kinds=kinds,
                maps={u: sorted(m) for u, m in maps.items()},
                expected={u: state[u] for u in alive},
                actual={u: r["trust"] for u, r in after.items()},
                log=w.log_tail(2000))
    for u in before:
        if (u in alive) != (u in after):
            raise Violation(
                "verification %s a revision %s" % (
                    ("removed", "that it should keep") if u in alive
                    else ("kept", "with a damaged chunk")), uuid=u, **info)
    if set(after) - set(before):
        raise Violation("verification created a revision", **info)
    for u, r in after.items():
        if r["trust"] != state[u]:
            raise Violation("trust is %s instead of %s after verification"
                            % (r["trust"], state[u]), uuid=u, **info)
        exp = dict(before[u], trust=state[u])
        if {**r, "parent": 0} != {**exp, "parent": 0}:
            raise Violation("verification changed other metadata", uuid=u,
                            before=before[u], after=r)
        if u not in todo and raw(w)[u] != text[u]:
            raise Violation("verification rewrote another revision", uuid=u, **info)
    # the store
    now = tree_state(os.path.join(w.path, "chunks"))
    need = set()
    for m in alive.values():
        need |= m
    for rel, st in now.items():
        if files.get(rel) != st:
            raise Violation("verification changed or added a stored file",
                            file=rel, **info)
    for h in need - bad:
        if not os.path.exists(w.chunk_file(h)):
            raise Violation("verification deleted an intact, needed chunk",
                            chunk=h, **info)
    have = w.chunks()
    for u, good in verdicts:
        m = maps[u] & bad
        if not good and not any(h not in have for h in m):
            raise Violation("the damaged chunk is still in the store", **info)
    c.distinct(tuple(sorted(r["trust"] for r in before.values())),
               tuple(v for _, v in verdicts), tuple(sorted(set(kinds))), how)
    c.sample(dict(before=[r["trust"] for r in before.values()], kinds=kinds,
                  verdicts=[v for _, v in verdicts]))
    # intact revisions still restore
    for u in after:
        if not maps[u] & bad:
            w.check_restore(u, what="after verification")
