"""C19: edge caps and join angles follow the documented rules."""
import itertools
import math

from mc import geom as G
from mc import ref
from mc.core import Prop, Violated

PROP = Prop("C19")
PROP.assumptions = ["only edges that exist for the shape of their tile are visible"]
NONE = 21


def turn(d, e):
    """Angle from direction d to e, clockwise positive (y down), in degrees."""
    return math.degrees(math.atan2(d[0] * e[1] - d[1] * e[0], d[0] * e[0] + d[1] * e[1]))


def half(deg):
    return int(math.copysign(math.floor(abs(deg) / 2 + 1e-9), deg))


_TURN = {}


def turn_c(d, e):
    k = (d, e)
    if k not in _TURN:
        _TURN[k] = turn(d, e)
    return _TURN[k]


def expect(tiles):
    """tiles {(layer, x, y): spec tile} -> the same with caps calculated."""
    # index of visible edges by (layer, side, sprite, orientation, start point)
    index = {}
    for (l, x, y), t in tiles.items():
        for s in range(4):
            if not t[5][s][1]:
                continue
            a, b = G.edge(t[0], s)
            a = (2 * x + a[0], 2 * y + a[1])
            b = (2 * x + b[0], 2 * y + b[1])
            index.setdefault((l, s, t[2:5], 1, a), []).append(((x, y), (b[0] - a[0], b[1] - a[1]), t[5][s]))
            index.setdefault((l, s, t[2:5], 0, b), []).append(((x, y), (a[0] - b[0], a[1] - b[1]), t[5][s]))
    out = {}
    for (l, x, y), t in tiles.items():
        edges = []
        for s in range(4):
            e = t[5][s]
            if not e[1]:
                edges.append((e[0], False) + ref.BLANK_EDGE[2:])
                continue
            caps, angs, fcaps, fangs = [False] * 2, [0] * 2, [False] * 2, [0] * 2
            first, second = G.edge(t[0], s)
            first = (2 * x + first[0], 2 * y + first[1])
            second = (2 * x + second[0], 2 * y + second[1])
            for end in range(2):
                p, q = (second, first) if end else (first, second)
                if p[0] % 2 or p[1] % 2:
                    continue
                d = (p[0] - q[0], p[1] - q[1])
                best = None
                for pos, nd, ne in index.get((l, s, t[2:5], end, p), ()):
                    if pos == (x, y):
                        continue
                    a = turn_c(d, nd)
                    # the tile lies to the right of a clockwise walk: outermost = most to the left
                    rank = -a if end else a
                    if best is None or rank > best[0]:
                        best = (rank, a, ne)
                if best is None:
                    caps[end] = True
                    fcaps[end] = e[4] != 0
                    continue
                angs[end] = half(best[1])
                if e[4]:
                    if (best[2][4], best[2][5]) == (e[4], e[5]):
                        fangs[end] = angs[end]
                    else:
                        fcaps[end] = True
            edges.append((e[0], True, tuple(caps), tuple(angs), e[4], e[5], tuple(fcaps), tuple(fangs)))
        out[(l, x, y)] = t[:5] + (tuple(edges),)
    return out


JUNK = (
    ref.BLANK_EDGE[2:],
    ((True, True), (11, -12), 0, False, (True, True), (13, -14)),
    ((False, True), (-1, 0), 3, True, (False, False), (5, 0)),
)


def mk(shape, spr=(1, 2, 3), visible=15, junk=0, filth=(0, False), solid=True):
    """Tile with the existing edges of the mask visible and left-over cap data."""
    edges = []
    for s in range(4):
        if not G.edge_exists(shape, s):
            edges.append(ref.BLANK_EDGE)
            continue
        j = JUNK[(junk + s) % 3 if junk else 0]
        edges.append((solid, bool(visible >> s & 1)) + j[:2] + (filth[0], filth[1]) + j[4:])
    return (shape, 4) + spr + (tuple(edges),)


def run(ctx, tiles, what):
    from dustmaker.level import Level

    lv = Level()
    for k, t in tiles.items():
        lv.tiles[k] = ref.build_tile(t)
    lv.calculate_edge_caps()
    ctx.step()
    want = expect(tiles)
    if len(lv.tiles) != len(tiles):
        raise Violated(f"{what}: number of tiles changed")
    for k in tiles:
        got = ref.snap_tile(lv.tiles[k])
        if got != want[k]:
            near = {j: t for j, t in tiles.items() if j[0] == k[0] and abs(j[1] - k[1]) <= 1 and abs(j[2] - k[2]) <= 1}
            raise Violated(f"{what}: tile {k}: got {got}, expected {want[k]}; tiles around: {near}")
    return want


QUAD = ((0, 0), (1, 0), (0, 1), (1, 1))


def g_corner(tier):
    for a in range(22):
        for b in range(22):
            yield (a, b)


@PROP.family(g_corner, "all 22^4 combinations of shapes (or nothing) of the four tiles around a corner, all edges visible: every end of every edge; the corner neighbourhood determines the result, so this is complete for full visibility")
def corners(ctx, case):
    a, b = case
    tiles = {}
    n = 0
    for c in range(22):
        for d in range(22):
            ox, oy = 5 * c - 50, 5 * d - 50
            for (dx, dy), s in zip(QUAD, (a, b, c, d)):
                if s != NONE:
                    tiles[(19, ox + dx, oy + dy)] = mk(s, junk=n % 3)
            n += 1
    w = run(ctx, tiles, f"shapes {case}")
    ctx.step(483)
    for t in w.values():
        ctx.state(t)


SHAPES_SOME = (0, 1, 2, 3, 4, 9, 10, 12, 13, 15, 17, 18, 19, 20)


def configs():
    """Corner neighbourhoods in which at least two different joiners compete or join."""
    seen = set()
    out = []
    for quad in itertools.product((NONE, 0, 1, 2, 5, 8, 10, 11, 14, 17, 18, 19, 20), repeat=4):
        # signature: for each tile and side, ends at the centre corner
        sig = []
        for (dx, dy), s in zip(QUAD, quad):
            if s == NONE:
                continue
            for side in range(4):
                if not G.edge_exists(s, side):
                    continue
                p, q = G.edge(s, side)
                for e, v in ((0, p), (1, q)):
                    if (2 * dx + v[0], 2 * dy + v[1]) == (2, 2):
                        o = q if e == 0 else p
                        sig.append((side, e, (o[0] - v[0], o[1] - v[1])))
        key = tuple(sorted(sig))
        groups = {}
        for side, e, d in sig:
            groups.setdefault(side, set()).add(e)
        if not any(len(g) == 2 for g in groups.values()):
            continue
        if key in seen:
            continue
        seen.add(key)
        out.append(quad)
    return out


def g_configs(tier):
    cs = configs()
    step = 17 if tier == "quick" else 1
    for i in range(0, len(cs), step):
        yield cs[i]


def place(tiles, quad, ox, oy, attrs):
    for i, ((dx, dy), s) in enumerate(zip(QUAD, quad)):
        if s != NONE:
            tiles[(19, ox + dx, oy + dy)] = mk(s, **attrs[i])


FILTHS = ((0, False), (2, False), (3, False), (2, True), (0, True))


@PROP.family(g_configs, "corner neighbourhoods with joining edges (every 17th, thorough: all) x 4^4 sprite assignments (equal, other set, other tile, other palette)")
def sprites(ctx, case):
    sp = ((1, 2, 3), (2, 2, 3), (1, 5, 3), (1, 2, 0))
    tiles = {}
    for n, mask in enumerate(itertools.product(range(4), repeat=4)):
        place(tiles, case, 5 * (n % 16), 5 * (n // 16), [{"spr": sp[m]} for m in mask])
    run(ctx, tiles, f"sprites on {case}")
    ctx.step(255)
    ctx.state(case)


@PROP.family(g_configs, "the same x 5^4 assignments of filth (none, two kinds of dust, spikes, none with the spike bit)")
def filth(ctx, case):
    tiles = {}
    for n, mask in enumerate(itertools.product(range(5), repeat=4)):
        place(tiles, case, 5 * (n % 25), -5 * (n // 25), [{"filth": FILTHS[m], "junk": n % 3} for m in mask])
    run(ctx, tiles, f"filth on {case}")
    ctx.step(624)
    ctx.state(case)


@PROP.family(g_configs, "the same x every subset of visible sides per tile (two tiles at a time), invisible edges carrying left-over data and filth")
def visibility(ctx, case):
    tiles = {}
    n = 0
    for i, j in itertools.combinations(range(4), 2):
        if NONE in (case[i], case[j]):
            continue
        for vi, vj in itertools.product(range(16), repeat=2):
            at = [{"visible": 15, "junk": 1, "filth": (2, False)} for _ in range(4)]
            at[i] = {"visible": vi, "junk": 1, "filth": (2, False), "solid": False}
            at[j] = {"visible": vj, "junk": 2, "filth": (2, bool(n & 1))}
            place(tiles, case, 5 * (n % 40) - 100, 5 * (n // 40) - 100, at)
            n += 1
    run(ctx, tiles, f"visibility on {case}")
    ctx.step(n)
    ctx.state(case)


def g_real(tier):
    for a in range(21):
        for b in range(0, 22, 1 if tier == "thorough" else 3):
            yield (a, b)


@PROP.family(g_real, "3 x 3 blocks: centre and one neighbour of every shape, other tiles varied, after calculate_edge_visibility; calculated twice gives the same; other layers have no influence")
def with_visibility(ctx, case):
    from dustmaker.level import Level

    a, b = case
    ring = [(dx, dy) for dx in (-1, 0, 1) for dy in (-1, 0, 1) if (dx, dy) != (0, 0)]
    for k, pos in enumerate(ring):
        lv = Level()
        for m, r in enumerate(ring):
            s = (b if m == k else (0, 1, NONE, 17, 0, 8, NONE, 12)[(m + k) % 8])
            if s != NONE:
                lv.tiles[(19, r[0], r[1])] = ref.build_tile(mk(s, filth=FILTHS[(m + a) % 4]))
            lv.tiles[(18, r[0], r[1])] = ref.build_tile(mk(0))
        lv.tiles[(19, 0, 0)] = ref.build_tile(mk(a, filth=(2, False)))
        lv.calculate_edge_visibility()
        before = {key: ref.snap_tile(t) for key, t in lv.tiles.items()}
        want = expect(before)
        for again in range(2):
            lv.calculate_edge_caps()
            ctx.step()
            for key in before:
                got = ref.snap_tile(lv.tiles[key])
                if got != want[key]:
                    raise Violated(f"{case} {pos} call {again}: tile {key}: got {got}, expected {want[key]}")
        # insertion order
        rev = run(ctx, dict(reversed(list(before.items()))), f"{case} {pos} reversed")
        assert rev == want
        ctx.state(tuple(sorted(want.items())))


FAR = (-8388610, -65536, -32769, -257, -2, 14, 254, 32766, 65534, 8388600)


def g_far(tier):
    for ox in FAR:
        for oy in FAR:
            yield (ox, oy)


@PROP.family(g_far, "4 x 4 blocks of mixed shapes, filth and sprites around 100 positions, near, at and beyond the borders of the stored range")
def far(ctx, case):
    ox, oy = case
    for k, pick in enumerate(((0,), (0, 1, 5, 17, 0, 18, 8, 3), (0, 0, 2, 0, 12, 19, 20, 7, 0), (NONE, 0, 17, 18, 19, 20, 0))):
        tiles = {}
        for i, (dx, dy) in enumerate(itertools.product(range(4), repeat=2)):
            s = pick[(i * 5 + k) % len(pick)]
            if s != NONE:
                tiles[(19, ox + dx, oy + dy)] = mk(s, filth=FILTHS[(i // 5) % 4], junk=i % 3)
        w = run(ctx, tiles, f"{case} {pick}")
        ctx.state(tuple(w.values()))


def g_layers(tier):
    for l in range(21):
        for m in range(4):
            yield (l, m)


@PROP.family(g_layers, "blocks of mixed shapes on every layer, alone and with blocks on the adjoining layers; tiles with different flags join all the same")
def layers(ctx, case):
    l, m = case
    for k, pick in enumerate(((0,), (0, 1, 5, 17, 0, 18, 8, 3), (NONE, 0, 17, 18, 19, 20, 0))):
        tiles = {}
        for i, (dx, dy) in enumerate(itertools.product(range(4), repeat=2)):
            s = pick[(i * 5 + k) % len(pick)]
            if s != NONE:
                t = mk(s, filth=FILTHS[(i // 3) % 3], junk=i % 3)
                tiles[(l, dx - 2, dy)] = t[:1] + ((i * 3 + m) % 8 if m else 4,) + t[2:]
            if m > 1:
                for o in (l - 1, l + 1):
                    if 0 <= o <= 20:
                        tiles[(o, dx - 1, dy)] = mk(pick[0] % 21)
        w = run(ctx, tiles, f"{case} {pick}")
        ctx.state(tuple(w.values()))


def g_flags(tier):
    for fa in range(8):
        for fb in range(8):
            yield (fa, fb)


@PROP.family(g_flags, "two tiles of all 8 x 8 flags joining in every direction")
def flags(ctx, case):
    fa, fb = case
    for d in ((1, 0), (0, 1), (1, 1), (-1, 1)):
        for s in (0, 1, 17, 18, 19, 20):
            a, b = mk(s), mk(0)
            run(ctx, {(19, 0, 0): a[:1] + (fa,) + a[2:], (19,) + d: b[:1] + (fb,) + b[2:]}, f"{case} {d} {s}")
    ctx.state(case)


def g_again(tier):
    for a in range(21):
        for b in range(0, 21, 1 if tier == "thorough" else 4):
            yield (a, b)


@PROP.family(g_again, "one level calculated again and again while its tiles change in place (shape, sprite, filth, visibility), move, appear and disappear, and others are calculated in between: every result is that of the level as it is")
def again(ctx, case):
    from dustmaker.level import Level
    from dustmaker.tile import TileShape, TileSpriteSet

    a, b = case
    lv = Level()
    for i in range(9):
        lv.tiles[(19, i % 3, i // 3)] = ref.build_tile(mk((a, b, 0)[i % 3], filth=FILTHS[i % 2], junk=i % 3))

    def change(n):
        t = lv.tiles.get((19, 1, 1))
        if n == 0:
            lv.tiles[(19, 1, 1)] = ref.build_tile(mk(b, filth=(2, False)))
        elif n == 1:
            lv.tiles[(19, 0, 1)].sprite_palette ^= 1
        elif n == 2:
            lv.tiles[(19, 1, 0)].sprite_set = TileSpriteSet(4)
        elif n == 3:
            lv.tiles[(19, 2, 1)].sprite_tile += 1
        elif n == 4:
            for e in lv.tiles[(19, 0, 0)].edge_data:
                e.filth_spike = not e.filth_spike
        elif n == 5:
            for e in t.edge_data:
                e.visible = False
        elif n == 6:
            del lv.tiles[(19, 1, 1)]
        elif n == 7:
            lv.tiles[(19, 0, 0)], lv.tiles[(19, 2, 2)] = lv.tiles[(19, 2, 2)], lv.tiles[(19, 0, 0)]
        elif n == 8:
            for u in lv.tiles.values():
                u.set_sprite_tuple((2, 3, 4))
        elif n == 9:
            other = Level()
            other.tiles[(19, 1, 1)] = ref.build_tile(mk(0, (2, 3, 4)))
            other.calculate_edge_caps()
        elif n == 10:
            lv.tiles = {(18, x + 3, y): u for (_, x, y), u in reversed(list(lv.tiles.items()))}

    for n in range(12):
        before = {k: ref.snap_tile(t) for k, t in lv.tiles.items()}
        lv.calculate_edge_caps()
        ctx.step()
        want = expect(before)
        for k in before:
            got = ref.snap_tile(lv.tiles[k])
            if got != want[k]:
                raise Violated(f"{case} calculation {n}: tile {k}: got {got}, expected {want[k]}")
        change(n)
    ctx.state(case)
