"""C14: upscaling enlarges tiles and levels exactly."""
import itertools

from mc import geom as G
from mc import ref
from mc.core import Prop, require, same
from mc.props.c13 import VARIANTS, base_tile

PROP = Prop("C14")
PROP.assumptions = [
    "edges that do not exist for a shape carry no data",
    "translations passed along are whole tiles (of the backdrop for backdrop tiles)",
]
NEG = (True, True, (True, True), (-127, 127), 6, True, (True, True), (89, -89))
FULL_E = (True, True, (True, True), (11, -12), 3, True, (True, True), (13, -14))


def collect(ctx, tile, f):
    out = {}
    for dx, dy, nt in tile.upscale(f):
        require(isinstance(dx, int) and isinstance(dy, int), "position", (dx, dy), "is not integral")
        require((dx, dy) not in out, "position", (dx, dy), "is used twice")
        out[(dx, dy)] = nt
        ctx.step()
    return out


def compare(got, want, what):
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            same(got.get(k, "nothing"), want.get(k, "nothing"), f"{what}: tile at {k}")


def g_tiles(tier):
    fs = list(range(1, 9)) + [13, 16, 33] if tier == "quick" else list(range(1, 41)) + [65]
    for shape in range(21):
        for f in fs:
            for v in range(4 if f <= 8 else 1):
                yield (shape, f, v)


@PROP.family(g_tiles, "21 shapes x factors 1-8, 13, 16, 33 (thorough 1-40, 65) x 4 edge data sets: positions, shapes, flags, sprites and every edge of every sub tile equal the geometric enlargement")
def tiles(ctx, case):
    shape, f, v = case
    t = base_tile(shape, 5 * v + 2, flags=(4, 0, 7, 3)[v])
    if v == 3:
        t = t[:5] + ((FULL_E, NEG, FULL_E, NEG),)
    t = G.blank_missing(t)
    tile = ref.build_tile(t)
    got = collect(ctx, tile, f)
    same(ref.snap_tile(tile), t, "the tile itself")
    compare({k: ref.snap_tile(x) for k, x in got.items()}, G.upscale_tile(t, f), f"shape {shape} x {f}")
    ids = {id(e) for x in got.values() for e in x.edge_data} | {id(e) for e in tile.edge_data}
    require(len(ids) == 4 * len(got) + 4, "tiles share edge objects")
    ctx.state(shape, f)


def g_edges(tier):
    for shape in range(21):
        for side in range(4):
            for v in range(18):
                for f in (2, 3, 5):
                    yield (shape, side, v, f)


@PROP.family(g_edges, "every edge data variant alone on every side of every shape, factors 2, 3 and 5")
def single_edges(ctx, case):
    shape, side, v, f = case
    e = [ref.BLANK_EDGE] * 4
    e[side] = (VARIANTS + [FULL_E, NEG])[v]
    t = G.blank_missing((shape, v % 8, v % 8, v * 14, v % 16, tuple(e)))
    got = {k: ref.snap_tile(x) for k, x in collect(ctx, ref.build_tile(t), f).items()}
    compare(got, G.upscale_tile(t, f), f"shape {shape} side {side} x {f}")
    ctx.state(shape, side, v, f)


def g_twice(tier):
    for shape in range(21):
        for f, g in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
            yield (shape, f, g)


@PROP.family(g_twice, "upscaling twice equals upscaling by the product")
def twice(ctx, case):
    shape, f, g = case
    t = G.blank_missing(base_tile(shape, 7))
    got = {}
    for (dx, dy), nt in collect(ctx, ref.build_tile(t), f).items():
        for (ex, ey), mt in collect(ctx, nt, g).items():
            require((dx * g + ex, dy * g + ey) not in got, "position used twice")
            got[(dx * g + ex, dy * g + ey)] = ref.snap_tile(mt)
    compare(got, G.upscale_tile(t, f * g), f"shape {shape} x {f} x {g}")
    ctx.state(shape, f, g)


CELLS = ((0, 0), (1, 0), (0, 1), (-1, 0), (-1, -1), (5, -7), (16, 300), (-300, -17))
SHIFTS = ((0, 0), (1, 0), (0, -1), (-3, 5), (16, -32))


def level_spec(shape, k):
    spec = ref.empty_level()
    for i, (x, y) in enumerate(CELLS):
        spec["tiles"][((19, 0, 7)[i % 3], x, y)] = G.blank_missing(base_tile((shape + i * k) % 21, i, flags=i % 8))
        spec["bd_tiles"][((3, 12)[i % 2], y, x)] = G.blank_missing(base_tile((shape + 3 + i * k) % 21, 15 - i))
    return spec


def g_levels(tier):
    fs = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 8)
    for shape in range(21):
        for k in (1, 4):
            for f in fs:
                for m in range(8):
                    for s in range(len(SHIFTS)):
                        if tier == "quick" and m and (s + shape) % 5 > 1:
                            continue
                        yield (shape, k, f, m, s)


@PROP.family(g_levels, "levels with 8 tiles on several layers and 8 backdrop tiles x factors x all 8 symmetries x tile aligned translations passed along as mat; objects and starts move with them")
def levels(ctx, case):
    shape, k, f, mi, si = case
    spec = level_spec(shape, k)
    m = G.D4[mi]
    sx, sy = SHIFTS[si]
    # whole backdrop tiles, so that the level and the backdrop move alike
    ox, oy = sx * 768, sy * 768
    lv = ref.build_level(spec)
    objs = ((10.0, 20.0), (-5.5, 0.25))
    for i, (x, y) in enumerate(objs):
        lv.add_entity(x, y, ref.build_entity(("z_thing", ("S", ()), 0, 18, False, False, True)), 200 + i)
        lv.add_prop(3, x, y, ref.build_prop((1, 0, False, False, 1.0, 1, 2, 3, 4)), 300 + i)
        lv.backdrop.add_prop(3, x, y, ref.build_prop((1, 0, False, False, 1.0, 1, 2, 3, 4)), 400 + i)
    for p in range(1, 5):
        pos = lv.start_position(p)
        pos.x, pos.y = 100 * p, -7 * p
    if (mi, si) == (0, 0):
        lv.upscale(f)
    else:
        lv.upscale(f, mat=G.tx(m, ox, oy))
    ctx.step()
    got = {key: ref.snap_tile(t) for key, t in lv.tiles.items()}
    compare(got, G.level_tiles(spec["tiles"], m, f, sx * 16 * f, sy * 16 * f), f"level upscaled by {f} with {m} {ox, oy}")
    got = {key: ref.snap_tile(t) for key, t in lv.backdrop.tiles.items()}
    compare(got, G.level_tiles(spec["bd_tiles"], m, f, sx * f, sy * f), f"backdrop of level upscaled by {f} with {m} {ox, oy}")

    def img(x, y):
        u, v = G.lin(m, (x, y))
        return (f * (u + ox), f * (v + oy))

    for i, (x, y) in enumerate(objs):
        same(lv.entities[200 + i][:2], img(x, y), "entity position")
        same(lv.props[300 + i][1:3], img(x, y), "prop position")
        same(lv.backdrop.props[400 + i][1:3], img(x, y), "backdrop prop position")
    for p in range(1, 5):
        pos = lv.start_position(p)
        same((pos.x, pos.y), img(100 * p, -7 * p), f"start of player {p}")
    every = list(lv.tiles.values()) + list(lv.backdrop.tiles.values())
    require(len({id(e) for t in every for e in t.edge_data}) == 4 * len(every), "tiles share edge objects")
    ctx.state(shape, f, mi, si)


def g_shift(tier):
    for f in (1, 2, 3, 4):
        for sx, sy in itertools.product((-17, -1, 0, 1, 2, 5), repeat=2):
            yield (f, sx, sy)


@PROP.family(g_shift, "translations by single tiles passed along")
def shifts(ctx, case):
    f, sx, sy = case
    spec = level_spec(3, 1)
    lv = ref.build_level(spec)
    lv.backdrop.tiles.clear()
    lv.upscale(f, mat=G.tx(G.D4[0], sx * 48, sy * 48))
    ctx.step()
    got = {key: ref.snap_tile(t) for key, t in lv.tiles.items()}
    compare(got, G.level_tiles(spec["tiles"], G.D4[0], f, sx * f, sy * f), f"upscale {f} translate {sx, sy} tiles")
    ctx.state(case)


def g_alone(tier):
    for shape in range(21):
        for f in (1, 2, 3):
            for m in (0, 3, 6):
                yield (shape, f, m)


@PROP.family(g_alone, "upscaling only the backdrop: its tiles are enlarged, the level stays as it was")
def backdrop_alone(ctx, case):
    shape, f, mi = case
    spec = level_spec(shape, 1)
    lv = ref.build_level(spec)
    lv.backdrop.upscale(f, mat=G.tx(G.D4[mi]))
    ctx.step()
    compare({key: ref.snap_tile(t) for key, t in lv.tiles.items()}, spec["tiles"], "level")
    got = {key: ref.snap_tile(t) for key, t in lv.backdrop.tiles.items()}
    compare(got, G.level_tiles(spec["bd_tiles"], G.D4[mi], f), f"backdrop upscaled by {f}")
    same(ref.snap_map(lv.variables), ("S", ()), "variables of the level")
    ctx.state(case)


def g_indep(tier):
    for shape in range(21):
        for f in (1, 2, 3):
            yield (shape, f)


@PROP.family(g_indep, "changing one upscaled tile leaves the original and all other copies as they were")
def independent(ctx, case):
    shape, f = case
    t = G.blank_missing(base_tile(shape, 6))
    tile = ref.build_tile(t)
    got = collect(ctx, tile, f)
    snaps = {k: ref.snap_tile(x) for k, x in got.items()}
    for k in sorted(got):
        one = got[k]
        one.sprite_tile = (one.sprite_tile + 1) % 256
        for e in one.edge_data:
            e.solid = not e.solid
            e.angles = (1, 2)
        one.edge_data[1].filth_spike = not one.edge_data[1].filth_spike
        snaps[k] = ref.snap_tile(one)
        same({j: ref.snap_tile(x) for j, x in got.items()}, snaps, "other copies")
        ctx.step()
    same(ref.snap_tile(tile), t, "the original tile")
    ctx.state(case)
