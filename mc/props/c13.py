"""C13: tile flips and rotations are rigid motions."""
import itertools

from mc import geom as G
from mc import ref
from mc.core import Prop, require, same

PROP = Prop("C13")
PROP.assumptions = ["join angles are within -127..127; data on edges that do not exist for the shape is not constrained"]

# sixteen distinct edge data variants
VARIANTS = []
for _i in range(16):
    VARIANTS.append(
        (
            bool(_i & 1), bool(_i & 2), (bool(_i & 4), bool(_i & 8)), (_i * 7 - 50, 90 - _i * 11),
            _i % 8, bool(_i & 4) != bool(_i & 1), (bool(_i & 2), bool(_i & 1)), (-(_i * 5) - 1, _i * 3 + 2),
        )
    )
EXTREME = (True, True, (True, False), (-127, 127), 7, True, (False, True), (127, -127))
BLANK = ref.BLANK_EDGE


def base_tile(shape, v=0, flags=4):
    edges = tuple(VARIANTS[(v + 4 * s + s) % 16] for s in range(4))
    return (shape, flags, 1 + v % 7, (v * 17) % 256, v % 16, edges)


def transform(ctx, t, mat):
    tile = ref.build_tile(t)
    tile.transform(mat)
    ctx.step()
    return ref.snap_tile(tile)


def g_single(tier):
    for shape in range(21):
        for m in range(8):
            for v in range(16):
                yield (shape, m, v, None)
            for side in range(4):
                for v in list(range(16)) + [16, 17]:
                    yield (shape, m, v, side)


@PROP.family(g_single, "21 shapes x 8 symmetries x 16 assignments of distinct edge data, and every edge data variant on every single side")
def single(ctx, case):
    shape, mi, v, side = case
    m = G.D4[mi]
    t = base_tile(shape, v % 16, flags=v % 8)
    if side is not None:
        e = [BLANK] * 4
        e[side] = (VARIANTS + [EXTREME, BLANK])[v]
        t = t[:5] + (tuple(e),)
    got = transform(ctx, t, G.tx(m))
    ctx.state(got)
    same(G.blank_missing(got), G.image_tile(t, m), f"tile {t} moved by {m}")


SCALES = (1, 2, 3, 7, 16, 0.5, 1.5, 100)
OFFS = ((0, 0), (48, -96), (0.5, 1e6), (-7, -13))


def g_affine(tier):
    for shape in range(21):
        for m in range(8):
            for s in SCALES:
                for o in OFFS:
                    yield (shape, m, s, o)


@PROP.family(g_affine, "the same with every scale and translation in the matrix")
def affine(ctx, case):
    shape, mi, s, (ox, oy) = case
    m = G.D4[mi]
    t = base_tile(shape, shape)
    got = transform(ctx, t, G.tx(tuple(x * s for x in m), ox, oy))
    same(G.blank_missing(got), G.image_tile(t, m), f"tile {t} moved by {m} * {s} + {ox, oy}")
    got = transform(ctx, t, G.tx(tuple(float(x) * s for x in m), float(ox), float(oy)))
    same(G.blank_missing(got), G.image_tile(t, m), f"tile {t} moved by float {m} * {s} + {ox, oy}")
    ctx.state(got)


def g_seq(tier):
    n = 3 if tier == "quick" else 5
    for shape in range(21):
        for ln in range(0, n + 1):
            for seq in itertools.product(range(8), repeat=ln):
                yield (shape, seq)


@PROP.family(g_seq, "all sequences of up to 3 (thorough 5) symmetries, each step and the product compared; then undone in reverse order")
def sequences(ctx, case):
    shape, seq = case
    t = G.blank_missing(base_tile(shape, 3))
    tile = ref.build_tile(t)
    prod = G.D4[0]
    mat = G.tx(prod)
    for i in seq:
        m = G.tx(G.D4[i])
        tile.transform(m)
        prod = G.mul(G.D4[i], prod)
        mat = m * mat
        ctx.step()
    want = G.image_tile(t, prod)
    got = ref.snap_tile(tile)
    same(got, want, f"sequence {seq}")
    same(transform(ctx, t, mat), want, f"product of sequence {seq}")
    for i in reversed(seq):
        tile.transform(G.tx(G.inv(G.D4[i])))
        ctx.step()
    same(ref.snap_tile(tile), t, f"sequence {seq} undone")
    ctx.state(shape, got)


def g_named(tier):
    for shape in range(21):
        for k in range(8):
            yield (shape, k)


@PROP.family(g_named, "the named constants HFLIP, VFLIP, ROTATE[0..3], IDENTITY applied to every shape; the object identity of the tile's sprite data is kept")
def named(ctx, case):
    from dustmaker.transform import TxMatrix

    shape, k = case
    mat, m = [
        (TxMatrix.ROTATE[0], G.ROT[0]), (TxMatrix.ROTATE[1], G.ROT[1]), (TxMatrix.ROTATE[2], G.ROT[2]),
        (TxMatrix.ROTATE[3], G.ROT[3]), (TxMatrix.HFLIP, G.HFLIP), (TxMatrix.VFLIP, G.VFLIP),
        (TxMatrix.IDENTITY, G.ROT[0]), (TxMatrix.HFLIP * TxMatrix.ROTATE[1], G.mul(G.HFLIP, G.ROT[1])),
    ][k]
    t = base_tile(shape, 9)
    got = transform(ctx, t, mat)
    same(G.blank_missing(got), G.image_tile(t, m), "named matrix")
    tile = ref.build_tile(t)
    spr = tile.get_sprite_tuple()
    tile.transform(mat)
    require(tile.get_sprite_tuple() == spr and tile.tile_flags == t[1], "sprite or flags changed")
    require(len({id(e) for e in tile.edge_data}) == 4, "edges share an object")
    ctx.state(got)
