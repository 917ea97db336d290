"""Tile geometry, independent of the code under test.

Vertices are in half-tile units, clockwise on screen (y down): top-left, top-right,
bottom-right, bottom-left; repeated vertices make an edge vanish.
"""
from fractions import Fraction

SHAPES = (
    "00 20 22 02",  # full
    "00 21 22 02", "01 22 22 02", "00 20 12 02", "00 10 02 02",
    "00 20 22 01", "00 20 21 00", "10 20 22 02", "20 20 22 12",
    "01 20 22 02", "02 21 22 02", "00 20 22 12", "10 20 22 22",
    "00 20 21 02", "00 20 20 01", "00 10 22 02", "00 00 12 02",
    "00 22 22 02", "00 20 20 02", "00 20 22 00", "02 20 22 02",
)
SHAPES = tuple(tuple((int(v[0]), int(v[1])) for v in s.split()) for s in SHAPES)
NSHAPES = 21
# index into the clockwise vertex list of the first corner of each side
SIDE_START = {0: 0, 1: 2, 2: 3, 3: 1}  # top, bottom, left, right


def edge(shape, side):
    """(first corner, second corner) clockwise."""
    v = SHAPES[shape]
    i = SIDE_START[side]
    return v[i], v[(i + 1) % 4]


def edge_exists(shape, side):
    a, b = edge(shape, side)
    return abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1


def edge_flush(shape, side):
    """Lies on the border of the tile square."""
    a, b = edge(shape, side)
    return a[0] == b[0] or a[1] == b[1]


def poly(shape):
    out = []
    for p in SHAPES[shape]:
        if not out or out[-1] != p:
            out.append(p)
    if len(out) > 1 and out[0] == out[-1]:
        out.pop()
    return tuple(out)


def area2(pts):
    """Twice the area, positive for clockwise (y down)."""
    s = 0
    for i, (x, y) in enumerate(pts):
        u, v = pts[(i + 1) % len(pts)]
        s += x * v - u * y
    return s


def canon(pts):
    """Polygon as a frozenset of vertices (all shapes are convex)."""
    return frozenset(pts)


BY_POLY = {canon(poly(s)): s for s in range(NSHAPES)}
assert len(BY_POLY) == NSHAPES
assert all(area2(poly(s)) > 0 for s in range(NSHAPES))

# the eight symmetries of the square as 2x2 integer matrices (row major)
ROT = ((1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0))  # clockwise on screen
HFLIP = (-1, 0, 0, 1)
VFLIP = (1, 0, 0, -1)


def mul(m, n):
    return (
        m[0] * n[0] + m[1] * n[2], m[0] * n[1] + m[1] * n[3],
        m[2] * n[0] + m[3] * n[2], m[2] * n[1] + m[3] * n[3],
    )


D4 = ROT + tuple(mul(HFLIP, r) for r in ROT)
assert len(set(D4)) == 8


def det(m):
    return m[0] * m[3] - m[1] * m[2]


def inv(m):
    d = det(m)
    return (m[3] // d, -m[1] // d, -m[2] // d, m[0] // d)


def lin(m, p):
    return (m[0] * p[0] + m[1] * p[1], m[2] * p[0] + m[3] * p[1])


def around(m, p):
    """Image of a point of the tile square under m about the tile centre."""
    x, y = lin(m, (p[0] - 1, p[1] - 1))
    return (x + 1, y + 1)


def neg_pair(p):
    return (-p[1], -p[0])


def mirror_edge(e):
    """Edge data seen in a mirror: corners exchanged, angles negated."""
    return e[:2] + (e[2][::-1], neg_pair(e[3])) + e[4:6] + (e[6][::-1], neg_pair(e[7]))


def image_tile(t, m):
    """Spec tile (see mc.ref) moved by the symmetry m; edges that do not exist blank."""
    from mc.ref import BLANK_EDGE

    shape = BY_POLY[canon(around(m, p) for p in poly(t[0]))]
    flip = det(m) < 0
    edges = [BLANK_EDGE] * 4
    for side in range(4):
        if not edge_exists(t[0], side):
            continue
        a, b = (around(m, p) for p in edge(t[0], side))
        if flip:
            a, b = b, a
        for s2 in range(4):
            if edge_exists(shape, s2) and edge(shape, s2) == (a, b):
                edges[s2] = mirror_edge(t[5][side]) if flip else t[5][side]
                break
        else:
            raise AssertionError("edge without image")
    return (shape,) + t[1:5] + (tuple(edges),)


def blank_missing(t):
    """Tile with the data of edges that do not exist removed."""
    from mc.ref import BLANK_EDGE

    return t[:5] + (
        tuple(e if edge_exists(t[0], s) else BLANK_EDGE for s, e in enumerate(t[5])),
    )


def inside(pts, p):
    """p in the closed convex clockwise polygon."""
    for i, (x, y) in enumerate(pts):
        u, v = pts[(i + 1) % len(pts)]
        if (u - x) * (p[1] - y) - (v - y) * (p[0] - x) < 0:
            return False
    return True


def on_segment(a, b, p):
    cross = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
    if cross != 0:
        return False
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def tx(m, ox=0, oy=0):
    """TxMatrix with linear part m (2x2 row major) and offset."""
    from dustmaker.transform import TxMatrix

    return TxMatrix(((m[0], m[1], ox), (m[2], m[3], oy), (0, 0, 1)))


def world_tile(key, t, unit=2):
    """(layer, polygon, edges) of a tile in world half-tile units; edges as
    {(a, b): data} clockwise.  unit = half tiles per tile (32 for backdrops)."""
    layer, x, y = key
    k = Fraction(unit, 2)
    ox, oy = x * unit, y * unit

    def at(p):
        return (ox + p[0] * k, oy + p[1] * k)

    edges = {}
    for s in range(4):
        if edge_exists(t[0], s):
            a, b = edge(t[0], s)
            edges[(at(a), at(b))] = t[5][s]
    return layer, tuple(at(p) for p in poly(t[0])), edges


_UP = {}


def _up_shapes(shape, f):
    """{(dx, dy): shape} exactly covering the tile polygon enlarged f times."""
    key = (shape, f)
    if key not in _UP:
        big = tuple((x * f, y * f) for x, y in poly(shape))
        out = {}
        total = 0
        for dx in range(f):
            for dy in range(f):
                best = None
                for s in range(NSHAPES):
                    pts = tuple((2 * dx + x, 2 * dy + y) for x, y in poly(s))
                    if all(inside(big, p) for p in pts) and (best is None or area2(pts) > best[0]):
                        best = (area2(pts), s)
                if best is not None:
                    total += best[0]
                    out[(dx, dy)] = best[1]
        assert total == area2(big), (shape, f)
        _UP[key] = out
    return _UP[key]


def upscale_tile(t, f):
    """{(dx, dy): tile} of the spec tile t (no data on missing edges) enlarged f times."""
    from mc.ref import BLANK_EDGE

    out = {}
    big = {
        s: tuple((x * f, y * f) for x, y in edge(t[0], s))
        for s in range(4)
        if edge_exists(t[0], s)
    }
    for (dx, dy), shape in _up_shapes(t[0], f).items():
        edges = [BLANK_EDGE] * 4
        for s in range(4):
            if not edge_exists(shape, s):
                continue
            a, b = (((2 * dx + p[0]), (2 * dy + p[1])) for p in edge(shape, s))
            for s2, (u, v) in big.items():
                if not (on_segment(u, v, a) and on_segment(u, v, b)):
                    continue
                e = t[5][s2]
                k = (a == u, b == v)

                def cut(pair, zero, k=k):
                    return tuple(x if keep else zero for x, keep in zip(pair, k))

                edges[s] = e[:2] + (cut(e[2], False), cut(e[3], 0)) + e[4:6] + (cut(e[6], False), cut(e[7], 0))
        out[(dx, dy)] = (shape,) + t[1:5] + (tuple(edges),)
    return out


def level_tiles(tiles, m, f, offx=0, offy=0):
    """Spec tile dict moved by p -> f * m(p) + offset (in tiles), m one of D4."""
    out = {}
    for (layer, x, y), t in tiles.items():
        img = image_tile(t, m)
        cx, cy = lin(m, (2 * x + 1, 2 * y + 1))  # centre in half tiles
        bx, by = (cx - 1) // 2 * f + offx, (cy - 1) // 2 * f + offy
        for (dx, dy), nt in upscale_tile(img, f).items():
            assert (layer, bx + dx, by + dy) not in out
            out[(layer, bx + dx, by + dy)] = nt
    return out
