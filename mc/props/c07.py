"""C07: written level files are well-formed Dustforce containers."""
import math

from mc import levelcases, ref
from mc.core import Prop, Violated, require

PROP = Prop("C07")
PROP.assumptions = [
    "contents are within the ranges of the format",
    "the per-segment tile surface total is not constrained",
    "a position that the format cannot store exactly may count as the exact or the stored position when choosing its segment",
]


def homes(x, y, xs, ys):
    """Admissible (region x, region y, segment x, segment y) of a point."""
    out = set()
    for px in (x, xs):
        for py in (y, ys):
            tx, ty = math.floor(px / 48), math.floor(py / 48)
            out.add((tx // 256, ty // 256, tx // 16 % 16, ty // 16 % 16))
    return out


def check(ctx, spec, data):
    want = ref.stored_level(spec)
    try:
        got, info = ref.decode_level(data)
    except ref.FormatError as e:
        raise Violated(f"file is not well formed: {e}") from e
    ref.diff_levels(got, want, "decoded file")
    for pid, (_, x, y, _) in spec["props"].items():
        ok = homes(x, y, *want["props"][pid][1:3])
        require(info["place"][("p", pid)] in ok, "prop", pid, "at", (x, y), "stored in region/segment", info["place"][("p", pid)], "expected", ok)
    for eid, (x, y, _) in spec["ents"].items():
        ok = homes(x, y, *want["ents"][eid][:2])
        require(info["place"][("e", eid)] in ok, "entity", eid, "at", (x, y), "stored in region/segment", info["place"][("e", eid)], "expected", ok)
    for pid, (_, x, y, _) in spec["bd_props"].items():
        ok = {h[:2] for h in homes(x, y, *want["bd_props"][pid][1:3])}
        require(info["place"][("bp", pid)][:2] in ok, "backdrop prop", pid, "at", (x, y), "stored in region", info["place"][("bp", pid)], "expected", ok)
    ids = list(spec["props"]) + list(spec["ents"]) + list(spec["bd_props"])
    require(info["next"][0] > max(ids, default=0), "stored next id", info["next"], "not above", max(ids, default=0))
    ctx.state(data)


def _mk(gen, rule):
    def fam(ctx, case):
        from dustmaker import write_level

        spec = levelcases.make(case)
        data = write_level(ref.build_level(spec))
        ctx.step()
        check(ctx, spec, data)

    fam.__name__ = gen.__name__[2:]
    PROP.family(gen, rule)(fam)


for _g, _r in levelcases.GENERATORS:
    _mk(_g, _r)


def g_totals(tier):
    for name in sorted(ref.FILTH):
        for n in (1, 2, 7, 120):
            yield ("enemy", name, n)
    for n in (255, 256, 257, 7000):
        yield ("enemy", "enemy_bear", n)
    for n in (63, 64, 65, 128, 255, 256):
        yield ("dirty", n)
    for k in range(0, 5):
        for s in range(16):
            yield ("dust", k, s)
    for s in range(8):
        for t in (0, 1, 2, 6, 9, 13, 21):
            yield ("block", s, t)


@PROP.family(g_totals, "filth totals: every enemy type with up to 120 (bears: 7000) copies over two segments, every mask of dust and spikes, up to 256 tiles full of filth or dustblocks, every dustblock sprite on every layer")
def totals(ctx, case):
    from dustmaker import write_level

    spec = ref.empty_level()
    if case[0] == "enemy":
        _, name, n = case
        for i in range(n):
            e = (name, ("S", ()), 0, 18, False, False, True)
            spec["ents"][100 + i] = (10.0 + i, 20.0, e)
            spec["ents"][10000 + i] = (-10.0 + 900 * (i % 2), 20.0, ("enemy_book",) + e[1:])
    elif case[0] == "dust":
        _, k, spikes = case
        for i in range(16):
            edges = tuple(
                (True, True) + ref.BLANK_EDGE[2:4] + ((k + s) % 8 if i >> s & 1 else 0, bool(spikes >> s & 1) and bool(i >> s & 1)) + ref.BLANK_EDGE[6:]
                for s in range(4)
            )
            spec["tiles"][(19, i, -1)] = (0, 4, 2, 3, 0, edges)
            spec["tiles"][(19, i - 8, 40)] = (i, 4, 2, 3, 0, edges)
    elif case[0] == "dirty":
        for i in range(case[1]):
            edges = tuple((True, True) + ref.BLANK_EDGE[2:4] + (1 + (i + s) % 5, i % 16 == 15 and s == 2) + ref.BLANK_EDGE[6:] for s in range(4))
            spec["tiles"][(19, i % 16, -1 - i // 16)] = (0, 4, 2, 3, 0, edges)
            spec["tiles"][(19, i % 16 + 16, i // 16)] = (0, 4, 3, 6, 1, edges)
            spec["tiles"][(19, i % 16 + 32, i // 16)] = (0, 4, 1, 21, 1, (ref.BLANK_EDGE,) * 4)
    else:
        _, s, t = case
        for layer in (18, 19, 20):
            for i in range(3):
                spec["tiles"][(layer, i * 15 - 15, 3)] = (0, 4, s, t, 1, (ref.BLANK_EDGE,) * 4)
        spec["bd_tiles"][(19, 0, 0)] = (0, 4, s, t, 1, (ref.BLANK_EDGE,) * 4)
    data = write_level(ref.build_level(spec))
    ctx.step()
    check(ctx, spec, data)


OWN = {"own_foe": ("Enemy", None), "own_foe_4": ("Enemy", 4), "z_own_foe": ("Enemy", 7), "own_big_bear": ("EnemyBear", None), "own_bear_0": ("EnemyBear", 0), "own_bear_300": ("EnemyBear", 300)}


def g_own(tier):
    for name in OWN:
        for n in (1, 2, 9):
            yield (name, n)


@PROP.family(g_own, "filth totals with enemy classes a user defines: own, inherited and changed FILTH")
def own_enemies(ctx, case):
    from dustmaker import entity, write_level

    name, n = case
    base, filth = OWN[name]
    base = getattr(entity, base)
    body = {"TYPE_IDENTIFIER": name}
    if filth is not None:
        body["FILTH"] = filth
    cls = type("Own", (base,), body)
    spec = ref.empty_level()
    level = ref.build_level(spec)
    for i in range(n):
        e = cls()
        level.add_entity(30.0 * i, 20.0, e, 100 + i)
        level.add_entity(900.0, 20.0, entity.EnemyBear(), 200 + i)
        spec["ents"][100 + i] = (30.0 * i, 20.0, (name, ("S", ()), 0, 18, False, False, True))
        spec["ents"][200 + i] = (900.0, 20.0, ("enemy_bear", ("S", ()), 0, 18, False, False, True))
    data = write_level(level)
    ctx.step()
    ref.FILTH[name] = ref.FILTH["enemy_bear"] if filth is None and base is entity.EnemyBear else 1 if filth is None else filth
    try:
        check(ctx, spec, data)
    finally:
        del ref.FILTH[name]


def g_near(tier):
    vals = [0.0, 0.25, 0.9921875, 1.0, 47.0, 47.5, 47.9921875, 48.0, 767.9921875, 768.0, 12287.5, 12288.0, 12335.9921875, 24576.0]
    vals = sorted({s * v for v in vals for s in (1, -1)})
    for k in "peq":
        for x in vals:
            for y in vals:
                if tier == "quick" and abs(x) > 50 and abs(y) > 50 and abs(x) != abs(y):
                    continue
                yield (k, x, y)


@PROP.family(g_near, "props, entities and backdrop props at every pair of coordinates on, just before and just behind tile, segment and region borders, both signs")
def borders(ctx, case):
    from dustmaker import write_level

    k, x, y = case
    spec = ref.empty_level()
    if k == "e":
        spec["ents"][300] = (x, y, levelcases.ENTV)
    else:
        spec["props" if k == "p" else "bd_props"][300] = (4, x, y, levelcases.PROPV)
    data = write_level(ref.build_level(spec))
    ctx.step()
    check(ctx, spec, data)


def g_bulk(tier):
    for n in levelcases.BULK:
        yield n


@PROP.family(g_bulk, "levels with 130 KB, 1.1 MB and 16.9 MB of incompressible contents in the first of three regions: size fields, directory and the chain of regions")
def bulk(ctx, n):
    import zlib

    from dustmaker import write_level

    lv, _ = levelcases.bulk(n)
    data = write_level(lv)
    ctx.step()

    def u(at, size=4):
        return int.from_bytes(data[at : at + size], "little")

    require(data[:6] == b"DF_LVL" and data[16:22] == b"DF_MTD", "magic numbers")
    require(u(8) == len(data), "stored file size", u(8), "of", len(data), "bytes")
    nreg = u(12)
    require(nreg == 3, "number of regions", nreg)
    # header 20 + metadata 28 bytes, no image, 4 bits of variables, directory, padding
    at = 48
    bits = int.from_bytes(data[at : at + 13], "little") >> 4
    offs = [bits >> 32 * i & 0xFFFFFFFF for i in range(nreg)]
    start = pos = at + 13
    seen = []
    for i in range(nreg):
        require(offs[i] == pos - start, f"offset of region {i}:", offs[i], "but it starts at", pos - start)
        size, raw = u(pos), u(pos + 4)
        body = zlib.decompress(data[pos + 17 : pos + size])
        require(len(body) == raw, f"uncompressed size of region {i}:", raw, "stored,", len(body), "real")
        segs, q = u(pos + 14, 2), 0
        seen.append((u(pos + 8, 2), u(pos + 10, 2), segs))
        for _ in range(segs):
            q += int.from_bytes(body[q : q + 4], "little")
        require(q == raw, f"segments of region {i} end at", q, "of", raw)
        pos += size
    require(pos == len(data), "regions end at", pos, "of", len(data), "bytes")
    require([x[:2] for x in seen] == [(0, 0), (1, 1), (2, 0)], "regions", seen)
    ctx.state(n, tuple(offs))
