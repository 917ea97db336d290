"""C18: edge visibility follows the documented rules for every neighbourhood."""
import itertools

from mc import geom as G
from mc import ref
from mc.core import Prop, Violated, require, same

PROP = Prop("C18")
DIRS = ((0, -1), (0, 1), (-1, 0), (1, 0))
PREV = (
    ref.BLANK_EDGE,
    (True, True, (True, True), (5, -6), 3, True, (True, True), (7, -8)),
    (True, False, (False, True), (1, 2), 0, False, (False, False), (0, 0)),
    (False, True, (True, False), (-3, 4), 7, False, (True, False), (0, 9)),
    (False, False, (True, True), (9, -9), 2, True, (False, True), (-1, 6)),
)
SPR = ((1, 2, 3), (2, 2, 3), (1, 5, 3), (1, 2, 0))


def mk(shape, spr=(1, 2, 3), prev=0):
    e = PREV[prev] if isinstance(prev, int) else None
    edges = (e,) * 4 if e is not None else tuple(PREV[p] for p in prev)
    return (shape, 4) + tuple(spr) + (edges,)


def expect(tiles, callback):
    """{key: tile}, set of (key, side, neighbour key) on which the callback decides."""
    out, calls = {}, set()
    for (l, x, y), t in tiles.items():
        edges = []
        for s in range(4):
            if not G.edge_exists(t[0], s):
                edges.append(ref.BLANK_EDGE)
                continue
            nk = (l, x + DIRS[s][0], y + DIRS[s][1])
            n = tiles.get(nk)
            if not G.edge_flush(t[0], s) or n is None or not (G.edge_exists(n[0], s ^ 1) and G.edge_flush(n[0], s ^ 1)):
                solid = visible = True
            else:
                solid = False
                if t[2:5] == n[2:5]:
                    visible = False
                elif callback is None:
                    visible = s in (1, 3)
                else:
                    visible = callback(x, y, s, t, n)
                    calls.add((x, y, s, l))
            edges.append((solid, visible) + t[5][s][2:])
        out[(l, x, y)] = t[:5] + (tuple(edges),)
    return out, calls


CALLBACKS = {
    "default": None,
    "never": lambda x, y, s, t, n: False,
    "always": lambda x, y, s, t, n: True,
    "topleft": lambda x, y, s, t, n: int(s) in (0, 2),
    "sprite": lambda x, y, s, t, n: t[2:5] < n[2:5],
    "place": lambda x, y, s, t, n: (x + y) % 2 == 0,
}


def run(ctx, tiles, cb="default", what=""):
    from dustmaker.level import Level
    from dustmaker.tile import Tile, TileSide

    lv = Level()
    for k, t in tiles.items():
        lv.tiles[k] = ref.build_tile(t)
    fn = CALLBACKS[cb]
    seen = set()
    if fn is None:
        lv.calculate_edge_visibility()
    else:
        objs = {id(t): k for k, t in lv.tiles.items()}

        def wrapped(x, y, side, tile, ntile):
            require(isinstance(tile, Tile) and isinstance(ntile, Tile), "callback arguments", tile, ntile)
            k, nk = objs.get(id(tile)), objs.get(id(ntile))
            require(k is not None and k[1:] == (x, y), "callback: position", (x, y), "does not match the tile at", k)
            side = TileSide(side)
            require(nk == (k[0], x + DIRS[side][0], y + DIRS[side][1]), "callback: wrong neighbour", k, side, nk)
            seen.add((x, y, int(side), k[0]))
            return fn(x, y, int(side), ref.snap_tile(tile), ref.snap_tile(ntile))

        lv.calculate_edge_visibility(visible_callback=wrapped)
    ctx.step()
    want, calls = expect(tiles, fn)
    same(sorted(lv.tiles), sorted(tiles), f"{what} tiles")
    for k in tiles:
        got = ref.snap_tile(lv.tiles[k])
        if got != want[k]:
            raise Violated(f"{what} tile {k} in {tiles}: got {got}, expected {want[k]}")
    same(seen, calls, f"{what} edges decided by the callback")
    return want


NONE = 21


def g_pairs(tier):
    for a in range(21):
        for b in range(22):
            for s in range(4):
                for cb in CALLBACKS:
                    yield (a, b, s, cb)


@PROP.family(g_pairs, "all 21 x 22 shapes (or nothing) next to each other in all 4 directions x equal and three kinds of different sprites x 6 callbacks x 5 previous edge states, in both insertion orders")
def pairs(ctx, case):
    a, b, s, cb = case
    for i, spr in enumerate(SPR):
        for prev in range(len(PREV)):
            tiles = {(19, 0, 0): mk(a, SPR[0], prev)}
            if b != NONE:
                tiles[(19,) + DIRS[s]] = mk(b, spr, (prev + i) % len(PREV))
            w = run(ctx, tiles, cb, f"{case}")
            if prev == 0:
                run(ctx, dict(reversed(list(tiles.items()))), cb, f"{case} reversed")
            ctx.state(tuple(w.items()))
        if b == NONE:
            break


def g_sprites(tier):
    for s in range(4):
        for a in range(16):
            yield (s, "palette", a)
        for a in range(len(list(_sets()))):
            yield (s, "set", a)
        for a in (0, 1, 2, 3, 15, 16, 127, 128, 254, 255):
            yield (s, "tile", a)


def _sets():
    from dustmaker.tile import TileSpriteSet

    return [int(x) for x in TileSpriteSet]


@PROP.family(g_sprites, "tiles differing in the sprite set, sprite index or palette: all pairs of sets, all pairs of palettes, 10 x 256 sprite indices, in all 4 directions")
def sprite_pairs(ctx, case):
    s, what, a = case
    sets = _sets()
    for b in range({"palette": 16, "set": len(sets), "tile": 256}[what]):
        if what == "palette":
            x, y = (1, 2, a), (1, 2, b)
        elif what == "set":
            x, y = (sets[a], 2, 3), (sets[b], 2, 3)
        else:
            x, y = (1, a, 3), (1, b, 3)
        run(ctx, {(19, 0, 0): mk(0, x, 0), (19,) + DIRS[s]: mk(0, y, 0)}, "default", f"{case} {b}")
    ctx.state(case)


def g_cross(tier):
    some = (NONE, 0, 1, 4, 8, 17, 19) if tier == "quick" else (NONE, 0, 1, 2, 4, 6, 8, 9, 14, 17, 18, 19, 20)
    for a in range(21):
        for n0 in some:
            for n1 in some:
                yield (a, n0, n1)


@PROP.family(g_cross, "every shape with every combination of 7 (thorough 13) neighbours on all four sides, with diagonal and farther tiles around")
def cross(ctx, case):
    a, n0, n1 = case
    some = (NONE, 0, 1, 4, 8, 17, 19)
    for n2, n3 in itertools.product(some, repeat=2):
        tiles = {(19, 5, -3): mk(a, prev=(0, 1, 2, 3))}
        for d, n in zip(DIRS, (n0, n1, n2, n3)):
            if n != NONE:
                tiles[(19, 5 + d[0], -3 + d[1])] = mk(n, SPR[n % 3], 1)
        for d in ((1, 1), (-1, -1), (2, 0), (0, -2)):
            tiles[(19, 5 + d[0], -3 + d[1])] = mk(0, SPR[1], 2)
        for d in DIRS:
            tiles[(18, 5 + d[0], -3 + d[1])] = mk(0)
            tiles[(20, 5 + d[0], -3 + d[1])] = mk(0)
        w = run(ctx, tiles, "default", f"{case}{n2, n3}")
        ctx.state(tuple(w[(19, 5, -3)]))


def g_layers(tier):
    for la in range(21):
        for lb in range(21):
            yield (la, lb)


@PROP.family(g_layers, "a tile on every layer with neighbours on every layer: only the own layer counts")
def layers(ctx, case):
    la, lb = case
    tiles = {(la, -1, 0): mk(0)}
    for d in DIRS:
        tiles[(lb, -1 + d[0], d[1])] = mk(0)
    run(ctx, tiles, "default", f"{case}")
    tiles = {(la, 0, 0): mk(3), (lb, 1, 0): mk(0, SPR[2]), (lb, 0, 1): mk(13)}
    run(ctx, tiles, "place", f"{case}")
    ctx.state(case)


def g_places(tier):
    vals = (-1, 0, 1, 15, 16, -16, 255, -257, 32766, -32769, 65534, 100000, 8388600, -8388610)
    for x in vals:
        for y in vals:
            yield (x, y)


@PROP.family(g_places, "3 x 3 blocks at positions around every border, calculated twice; a subset of tiles removed in between")
def places(ctx, case):
    x, y = case
    tiles = {}
    for i, (dx, dy) in enumerate(itertools.product(range(3), repeat=2)):
        tiles[(19, x + dx, y + dy)] = mk((0, 1, 17, 0, 4, 0, 12, 0, 20)[i], SPR[(0, 0, 1, 0, 2, 0, 0, 3, 0)[i]], i % 4)
    for cb in CALLBACKS:
        w = run(ctx, tiles, cb, f"{case}")
        w2 = run(ctx, w, cb, f"{case} again")
        same(w2, w, "calculated again")
        for k in list(w):
            rest = {j: t for j, t in w.items() if j != k}
            run(ctx, rest, cb, f"{case} without {k}")
    ctx.state(case)


def g_sizes(tier):
    yield (70, "default", "mixed")
    yield (70, "default", "checks")
    for n in (1, 2, 16, 17, 23, 32, 40) if tier == "quick" else (1, 2, 16, 17, 23, 32, 40, 64, 100):
        for cb in CALLBACKS:
            for kind in ("full", "mixed", "checks", "gaps"):
                yield (n, cb, kind)


@PROP.family(g_sizes, "filled, mixed, checkered and sparse n x n areas for n up to 40 (thorough 100) x 6 callbacks and up to 70 without, on several layers")
def sizes(ctx, case):
    n, cb, kind = case
    tiles = {}
    for x in range(n):
        for y in range(n):
            i = x * 7 + y * 3
            if kind == "gaps" and (x * y + x) % 5 == 0:
                continue
            shape = i % 21 if kind == "mixed" else 0
            spr = SPR[0] if kind == "full" else SPR[(x + y) % 2] if kind == "checks" else SPR[i % 4]
            tiles[(19 if i % 50 else 18, x - 8, y - 20)] = mk(shape, spr, i % 4)
    run(ctx, tiles, cb, f"{case}")
    ctx.state(case)


def g_flags(tier):
    for layer in (0, 5, 17, 18, 19, 20):
        for fa in range(8):
            yield (layer, fa)


@PROP.family(g_flags, "tile flags of two neighbours (8 x 8) on six layers in all directions, with neighbours on the adjoining layers: flags do not matter")
def flags(ctx, case):
    layer, fa = case
    for fb in range(8):
        for s in range(4):
            for cb in ("default", "always"):
                a, b = mk(0, SPR[0], 3), mk((0, 17)[s % 2], SPR[fb % 2], 1)
                tiles = {(layer, 0, 0): a[:1] + (fa,) + a[2:], (layer,) + DIRS[s]: b[:1] + (fb,) + b[2:]}
                for other in (layer - 1, layer + 1):
                    if 0 <= other <= 20:
                        for d in DIRS:
                            tiles[(other,) + d] = mk(0)
                w = run(ctx, tiles, cb, f"{case} {fb} {s}")
        ctx.state(tuple(w.items()))


def g_again(tier):
    for a in range(21):
        for b in range(0, 21, 1 if tier == "thorough" else 4):
            yield (a, b)


@PROP.family(g_again, "one level calculated again and again while its tiles change in place (shape, sprite), move, appear and disappear, and others are calculated in between: every result is that of the level as it is")
def again(ctx, case):
    from dustmaker.level import Level
    from dustmaker.tile import TileShape, TileSpriteSet

    a, b = case
    lv = Level()
    for i in range(9):
        lv.tiles[(19, i % 3, i // 3)] = ref.build_tile(mk((a, b, 0)[i % 3], SPR[i % 2], i % 4))

    def change(n):
        if n == 0:
            lv.tiles[(19, 1, 1)].shape = TileShape(b)
        elif n == 1:
            lv.tiles[(19, 0, 1)].sprite_palette ^= 1
        elif n == 2:
            lv.tiles[(19, 1, 0)].sprite_set = TileSpriteSet(4)
        elif n == 3:
            lv.tiles[(19, 2, 1)].sprite_tile += 1
        elif n == 4:
            del lv.tiles[(19, 1, 1)]
        elif n == 5:
            lv.tiles[(19, 1, 1)] = ref.build_tile(mk(a, SPR[2]))
        elif n == 6:
            lv.tiles[(19, 0, 0)], lv.tiles[(19, 2, 2)] = lv.tiles[(19, 2, 2)], lv.tiles[(19, 0, 0)]
        elif n == 7:
            lv.tiles = dict(reversed(list(lv.tiles.items())))
        elif n == 8:
            lv.tiles = {(18, x + 3, y): t for (_, x, y), t in lv.tiles.items()}
        elif n == 9:
            other = Level()
            other.tiles[(18, 3, 0)] = ref.build_tile(mk(0))
            other.calculate_edge_visibility()
        elif n == 10:
            for t in lv.tiles.values():
                t.set_sprite_tuple((2, 3, 4))

    for n in range(11):
        before = {k: ref.snap_tile(t) for k, t in lv.tiles.items()}
        lv.calculate_edge_visibility()
        ctx.step()
        want, _ = expect(before, None)
        for k in before:
            same(ref.snap_tile(lv.tiles[k]), want[k], f"{case} calculation {n}: tile {k}")
        change(n)
    ctx.state(case)
