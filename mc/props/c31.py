"""C31: the sprite and filth helpers of a tile agree with its data."""
import itertools

from mc import ref
from mc.core import Prop, raises, require, same

PROP = Prop("C31")
PROP.assumptions = ["sprite sets are the eight documented ones, tile and palette numbers are those the format can store"]

DUSTBLOCK = (None, 21, 13, 6, 9, 2, None, None)
NAMES = ("none_0", "mansion", "forest", "city", "laboratory", "tutorial", "nexus", "none_7")
E1 = (True, False, (True, False), (3, -4), 2, True, (False, True), (5, 6))
E2 = (False, True, (False, True), (-7, 4), 0, True, (True, True), (15, -6))


def observe(ctx, tile, want, what):
    """want: the model tile (shape, flags, set, tile number, palette, edges)"""
    ctx.step(4)
    same(ref.snap_tile(tile), want, what)
    sset, num, pal = want[2:5]
    same(tuple(tile.get_sprite_tuple()), (sset, num, pal), f"{what}: sprite tuple")
    same(tile.sprite_path, f"area/{NAMES[sset]}/tiles/tile{num}_{pal + 1}_0001.png", f"{what}: sprite path")
    same(bool(tile.is_dustblock()), DUSTBLOCK[sset] is not None and DUSTBLOCK[sset] == num, f"{what}: is_dustblock")
    same(bool(tile.has_filth()), any(e[4] for e in want[5]), f"{what}: has_filth")
    same(ref.snap_tile(tile), want, f"{what}: after looking")


def g_all(tier):
    for sset in range(8):
        for num in range(256):
            yield (sset, num)


@PROP.family(g_all, "all 8 x 256 x 16 sprites: tuple, path, dustblock test; the tuple copied to another tile; turning it into a dustblock")
def sprites(ctx, case):
    sset, num = case
    for pal in range(16):
        m = (pal % 21, 4, sset, num, pal, (E1, E2, ref.BLANK_EDGE, E2))
        t = ref.build_tile(m)
        observe(ctx, t, m, "tile")
        other = ref.build_tile((3, 1, 1, 1, 1, (E2,) * 4))
        other.set_sprite_tuple(t.get_sprite_tuple())
        observe(ctx, other, (3, 1, sset, num, pal, (E2,) * 4), "copy of the sprite")
        observe(ctx, t, m, "the tile copied from")
        if DUSTBLOCK[sset] is None:
            raises(ValueError, t.set_dustblock)
            observe(ctx, t, m, "refused dustblock")
            ctx.outcome("no dustblock")
        else:
            t.set_dustblock()
            observe(ctx, t, m[:3] + (DUSTBLOCK[sset], 1) + m[5:], "dustblock")
        ctx.state(case, pal)


OPS = [("set", k) for k in range(8)] + [("num", n) for n in (0, 2, 6, 9, 13, 21)] + [("pal", p) for p in (0, 1, 15)] + [
    ("dust",), ("tuple", (5, 2, 0)), ("tuple", (7, 255, 3)), ("shape", 5)]


def g_hist(tier):
    for ln in range(1, 4 if tier == "quick" else 5):
        for seq in itertools.product(range(len(OPS)), repeat=ln):
            yield seq


@PROP.family(g_hist, "all histories of up to 3 (thorough 4) of 22 sprite changes: every observer after every step")
def histories(ctx, case):
    from dustmaker.tile import TileShape, TileSpriteSet

    m = [0, 4, 2, 77, 9, (E1, E2, E2, E1)]
    t = ref.build_tile(tuple(m))
    for i in case:
        op = OPS[i]
        if op[0] == "set":
            t.sprite_set = TileSpriteSet(op[1])
            m[2] = op[1]
        elif op[0] == "num":
            t.sprite_tile = m[3] = op[1]
        elif op[0] == "pal":
            t.sprite_palette = m[4] = op[1]
        elif op[0] == "shape":
            t.shape = TileShape(op[1])
            m[0] = op[1]
        elif op[0] == "tuple":
            t.set_sprite_tuple((TileSpriteSet(op[1][0]),) + op[1][1:])
            m[2:5] = op[1]
        elif DUSTBLOCK[m[2]] is None:
            raises(ValueError, t.set_dustblock)
        else:
            t.set_dustblock()
            m[3:5] = (DUSTBLOCK[m[2]], 1)
        observe(ctx, t, tuple(m), f"after {op}")
    ctx.state(tuple(m[:5]))


def g_filth(tier):
    for sides in itertools.product(range(8), repeat=4):
        yield sides


@PROP.family(g_filth, "every combination of filth on the four edges, with and without the spike flag")
def filth(ctx, case):
    for spike in (False, True):
        edges = tuple(E1[:4] + (s, spike) + E1[6:] for s in case)
        for shape in (0, 2, 17):
            m = (shape, 4, 5, 1, 0, edges)
            observe(ctx, ref.build_tile(m), m, "filth")
    ctx.state(sum(1 for s in case if s))


def g_default(tier):
    yield 0


@PROP.family(g_default, "newly constructed tiles of every shape have the documented defaults and equal edges of their own")
def defaults(ctx, case):
    from dustmaker.tile import Tile, TileShape, TileSpriteSet

    for shape in (None, *range(21)):
        t = Tile() if shape is None else Tile(TileShape(shape))
        observe(ctx, t, (shape or 0, 4, 5, 1, 0, (ref.BLANK_EDGE,) * 4), "new tile")
        same(len(t.edge_data), 4, "edges")
        require(len({id(e) for e in t.edge_data}) == 4, "edges are shared")
        for flags in range(8):
            t = Tile(TileShape(shape or 0), tile_flags=flags, sprite_set=TileSpriteSet(flags), sprite_tile=flags * 7, sprite_palette=flags)
            observe(ctx, t, (shape or 0, flags, flags, flags * 7, flags, (ref.BLANK_EDGE,) * 4), "new tile")
    ctx.state(0)
