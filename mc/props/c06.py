"""C06: levels survive write and read."""
from mc import levelcases, ref
from mc.core import Prop, require

PROP = Prop("C06")
PROP.assumptions = [
    "contents are within the ranges of the format (layers 0..20, ids 0..2**31-2, 27 bit prop pixels, 16 bit region coordinates)",
    "filth exists on the collision layer 19 only",
]


def check(ctx, spec):
    from dustmaker import read_level, write_level

    lv = ref.build_level(spec)
    data = write_level(lv)
    back = read_level(data)
    ctx.step(2)
    got = ref.snap_level(back)
    ref.diff_levels(got, ref.stored_level(spec), "level read back")
    require(back.backdrop is not None and back.backdrop.parent is back, "backdrop parent link")
    for _, _, e in back.entities.values():
        cls = ref.entity_classes().get(e.etype)
        require(type(e) is (cls or type_entity()), "entity class", e.etype, type(e))
    ctx.state(data)


def type_entity():
    from dustmaker import Entity

    return Entity


def _mk(gen, rule):
    def fam(ctx, case):
        check(ctx, levelcases.make(case))

    fam.__name__ = gen.__name__[2:]
    PROP.family(gen, rule)(fam)


for _g, _r in levelcases.GENERATORS:
    _mk(_g, _r)


def g_inexact(tier):
    for i in range(0, 40):
        yield i


@PROP.family(g_inexact, "positions and scales between the stored steps come back within the stored resolution")
def inexact(ctx, case):
    from dustmaker import read_level, write_level

    spec = ref.empty_level()
    offs = (0.1, 0.5, 0.9, 1 / 3, 0.999)
    base = (0, 1, 47, 767, 12287, 100000, -1, -48, -769, -12288)[case % 10]
    want_p, want_e = {}, {}
    for i, o in enumerate(offs):
        for sx in (1, -1):
            x, y = sx * (base + o), -(base + o / 2)
            k = 0.3 + ((case * 5 + i) % 54)
            sc = pow(50.0, (k - 32) / 24.0)
            pid = 100 + 2 * i + (sx > 0)
            spec["props"][pid] = (3, x, y, levelcases.PROPV[:4] + (sc,) + levelcases.PROPV[5:])
            want_p[pid] = (x, y, k)
            spec["ents"][pid] = (x / 3, y / 3, levelcases.ENTV)
            want_e[pid] = (x / 3, y / 3)
    back = read_level(write_level(ref.build_level(spec)))
    ctx.step(2)
    require(set(back.props) == set(want_p) and set(back.entities) == set(want_e), "objects lost")
    import math

    for pid, (x, y, k) in want_p.items():
        _, gx, gy, p = back.props[pid]
        require(abs(gx - x) < 1 and abs(gy - y) < 1, "prop moved by a pixel or more", (x, y), (gx, gy))
        gk = math.log(p.scale) / math.log(50.0) * 24 + 32
        require(abs(gk - round(k)) < 1e-6, "prop scale is not the nearest step", k, gk)
    for pid, (x, y) in want_e.items():
        gx, gy, _ = back.entities[pid]
        require(abs(gx - x) < 1 / 128 and abs(gy - y) < 1 / 128, "entity moved", (x, y), (gx, gy))


def g_twice(tier):
    for gen, _ in (levelcases.GENERATORS[2], levelcases.GENERATORS[5]):
        yield from gen(tier)


@PROP.family(g_twice, "write, read, write again, read again, with a second level following in the same stream and the reader placed behind the first")
def streams(ctx, case):
    import io
    from dustmaker import DFReader, DFWriter

    spec = levelcases.make(case)
    other = levelcases.make(("subset", "tpe", 1))
    f = io.BytesIO()
    w = DFWriter(f, noclose=True)
    lv = ref.build_level(spec)
    w.write_level(lv)
    end1 = w.bit_tell()
    w.write_level(ref.build_level(other))
    w.write_level(lv)
    w.close()
    f.seek(0)
    r = DFReader(f)
    ref.diff_levels(ref.snap_level(r.read_level()), ref.stored_level(spec), "first level")
    require(r.bit_tell() == end1, "reader is not at the end of the level", r.bit_tell(), end1)
    ref.diff_levels(ref.snap_level(r.read_level()), ref.stored_level(other), "second level")
    ref.diff_levels(ref.snap_level(r.read_level()), ref.stored_level(spec), "third level")
    ctx.step(6)


def g_raw(tier):
    for n in ("tests/downhill",):
        yield n


@PROP.family(g_raw, "the shipped level: read, write, read gives the same contents")
def shipped(ctx, case):
    import os
    from dustmaker import read_level, write_level
    from mc.core import REPO

    path = os.path.join(REPO, case)
    if not os.path.exists(path):
        return
    with open(path, "rb") as fh:
        data = fh.read()
    a = read_level(data)
    snap = ref.snap_level(a)
    ref.diff_levels(ref.snap_level(read_level(write_level(a))), ref.stored_level(snap), "level read back")
    ctx.step(3)


def g_bulk(tier):
    for n in levelcases.BULK:
        yield n


@PROP.family(g_bulk, "levels with 130 KB, 1.1 MB and 16.9 MB of incompressible contents in the first of three regions come back equal")
def bulk(ctx, n):
    from dustmaker import read_level, write_level

    lv, data = levelcases.bulk(n)
    back = read_level(write_level(lv))
    ctx.step(2)
    require(sorted(back.tiles) == sorted(lv.tiles), "tiles", sorted(back.tiles))
    require(list(back.entities) == [200] and back.entities[200][:2] == (100.0, 50.0), "entities", list(back.entities))
    e = back.entities[200][2]
    require(list(e.variables) == list(lv.entities[200][2].variables), "variables of the entity")
    require(b"".join(v.value for k, v in e.variables.items() if k != "bool") == data, "contents of the variables")
    ctx.state(n)
