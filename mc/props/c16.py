"""C16: level transforms move all level contents together."""
import itertools
from fractions import Fraction

from mc import geom as G
from mc import ref
from mc.core import Prop, require, same
from mc.props.c13 import base_tile

PROP = Prop("C16")
PROP.assumptions = [
    "maps are combinations of 90 degree turns, flips, integer upscales and translations with dyadic offsets",
    "restoring is claimed for flips, rotations and whole pixel translations",
    "player starts are integers, so their image is rounded to a pixel within half a pixel",
]

CELLS = ((0, 0), (1, 0), (2, 0), (0, 1), (-1, 0), (0, -1), (-2, -1), (5, -7), (16, 300), (-300, -17))
OBJS = ((0.0, 0.0, 0), (10.0, -20.0, 0x1234), (-5.5, 0.25, 0xFFFF), (1e6, -48.0, 0x8000), (24.0, 47.0, 0x4000))
STARTS = ((0, 0), (100, -7), (-48, 31), (5, 4096))


def spec_of(v):
    spec = ref.empty_level()
    for i, (x, y) in enumerate(CELLS):
        spec["tiles"][((19, 0, 7, 20)[i % 4], x, y)] = G.blank_missing(base_tile((v + i * 2) % 21, i, flags=i % 8))
        spec["bd_tiles"][((3, 12)[i % 2], y, x)] = G.blank_missing(base_tile((v + 5 + i * 3) % 21, 15 - i))
    # two layers at the same cell
    spec["tiles"][(5, 0, 0)] = G.blank_missing(base_tile((v + 1) % 21, 3))
    for i, (x, y, r) in enumerate(OBJS):
        fx, fy = bool(i & 1), bool(i & 2)
        spec["props"][300 + i] = (i * 4, x, y, (i, r, fx, fy, 1.0, 1 + i, 2, 3 + i, 4))
        spec["bd_props"][400 + i] = (20 - i, y, x, (i, (r + 77) & 0xFFFF, fy, fx, 1.0, 6, 5 + i, 4, 3))
        spec["ents"][500 + i] = (x, y, ("z_thing", ("S", (("a", ("i", i)),)), r, 10 + i, fx, fy, bool(i % 2)))
    spec["vars"] = ("S", (("other", ("i", 77)), ("p5_x", ("i", 3))) + tuple(
        (f"p{p + 1}_{a}", ("i", STARTS[p][k])) for p in range(4) for k, a in enumerate("xy")))
    spec["sshot"] = b"png"
    return spec


class Model:
    """Expected state; tile shifts by fractional tiles are taken from the observation."""

    def __init__(self, spec):
        self.spec = spec

    def apply(self, ctx, got, m, f, ox, oy, what, post=lambda spec: spec):
        """p -> f * m(p) + (ox, oy); got is the observed snapshot, post what else
        happens to the result before it is observed."""
        s = self.spec
        new = dict(s)

        def img(x, y):
            u, v = G.lin(m, (x, y))
            return (f * u + ox, f * v + oy)

        for key, size in (("tiles", 48), ("bd_tiles", 768)):
            base = G.level_tiles(s[key], m, f)
            shift = (0, 0)
            if (ox or oy) and base:
                # infer the common shift: compare the extreme tile
                want0 = min(base, key=lambda k: (k[1], k[2], k[0]))
                require(got[key], what, key, "all tiles lost")
                got0 = min(got[key], key=lambda k: (k[1], k[2], k[0]))
                shift = (got0[1] - want0[1], got0[2] - want0[2])
                for sh, o in zip(shift, (ox, oy)):
                    require(2 * abs(sh * size - Fraction(o)) <= size, what, key, f"moved by {sh} tiles for {o} pixels")
            new[key] = {(l, x + shift[0], y + shift[1]): t for (l, x, y), t in base.items()}

        def turn(rot, fy):
            # m = turn of k quarters, after a mirror in its own axes if it mirrors
            if G.det(m) < 0:
                k = next(k for k in range(4) if G.mul(G.ROT[k], G.HFLIP) == m)
                return (0x4000 * k - rot) & 0xFFFF, not fy
            return (rot + 0x4000 * G.ROT.index(m)) & 0xFFFF, fy

        for key in ("props", "bd_props"):
            out = {}
            for pid, (l, x, y, p) in s[key].items():
                r, fy = turn(p[1], p[3])
                out[pid] = (l,) + img(x, y) + ((p[0], r, p[2], fy) + p[4:],)
            new[key] = out
        out = {}
        for eid, (x, y, e) in s["ents"].items():
            r, fy = turn(e[2], e[5])
            out[eid] = img(x, y) + (e[:2] + (r, e[3], e[4], fy, e[6]),)
        new["ents"] = out
        gv = dict(got["vars"][1])
        vs = []
        for k, t in s["vars"][1]:
            if k in START_KEYS:
                p = k[1]
                x, y = (dict(s["vars"][1])[f"p{p}_{a}"][1] for a in "xy")
                w = Fraction(img(x, y)["xy".index(k[3])])
                g = gv.get(k)
                require(g is not None and g[0] == "i" and 2 * abs(Fraction(g[1]) - w) <= 1, what, f"start {k}: got", g, "expected", float(w))
                t = g
            vs.append((k, t))
        new["vars"] = ("S", tuple(vs))
        g2 = dict(got)
        g2["vars"] = ref.sort_tree(got["vars"])
        w2 = dict(post(new))
        w2["vars"] = ref.sort_tree(w2["vars"])
        ref.diff_levels(g2, w2, what)
        self.spec = new


START_KEYS = {f"p{p}_{a}" for p in range(1, 5) for a in "xy"}

ID = G.D4[0]
OPS = {
    "h": (lambda lv: lv.flip_horizontal(), G.HFLIP, 1, 0, 0),
    "v": (lambda lv: lv.flip_vertical(), G.VFLIP, 1, 0, 0),
    "r": (lambda lv: lv.rotate(), G.ROT[1], 1, 0, 0),
    "2": (lambda lv: lv.rotate(2), G.ROT[2], 1, 0, 0),
    "l": (lambda lv: lv.rotate(-1), G.ROT[3], 1, 0, 0),
    "3": (lambda lv: lv.rotate(3), G.ROT[3], 1, 0, 0),
    "5": (lambda lv: lv.rotate(5), G.ROT[1], 1, 0, 0),
    "0": (lambda lv: lv.rotate(-4), G.ROT[0], 1, 0, 0),
    "t": (lambda lv: lv.translate(768, -1536), ID, 1, 768, -1536),
    "T": (lambda lv: lv.translate(-768 * 3, 768), ID, 1, -768 * 3, 768),
    "w": (lambda lv: lv.translate(48, -96), ID, 1, 48, -96),
    "f": (lambda lv: lv.translate(24, -24), ID, 1, 24, -24),
    "g": (lambda lv: lv.translate(-72, 23), ID, 1, -72, 23),
    "q": (lambda lv: lv.translate(7.25, 1000.5), ID, 1, 7.25, 1000.5),
    "u": (lambda lv: lv.upscale(2), ID, 2, 0, 0),
    "U": (lambda lv: lv.upscale(3), ID, 3, 0, 0),
    "m": (lambda lv: lv.transform(G.tx(G.mul(G.HFLIP, G.ROT[1]), 768, 7 * 768)), G.mul(G.HFLIP, G.ROT[1]), 1, 768, 7 * 768),
    "n": (lambda lv: lv.transform(G.tx(G.ROT[3], 100, -50)), G.ROT[3], 1, 100, -50),
    "x": (lambda lv: lv.upscale(2, mat=G.tx(G.mul(G.VFLIP, G.ROT[3]), 768, -48 * 4)), G.mul(G.VFLIP, G.ROT[3]), 2, 1536, -48 * 8),
}
INVERSE = {"h": "h", "v": "v", "r": "l", "2": "2", "l": "r", "3": "r", "5": "3", "0": "0"}


def run(ctx, v, seq):
    spec = spec_of(v)
    lv = ref.build_level(spec)
    model = Model(spec)
    for i, op in enumerate(seq):
        fn, m, f, ox, oy = OPS[op]
        fn(lv)
        ctx.step()
        model.apply(ctx, ref.snap_level(lv), m, f, ox, oy, f"after {seq[:i + 1]}")
    require(lv.backdrop.parent is lv, "backdrop lost its parent")
    ctx.state(v, tuple(sorted(lv.tiles)), tuple((k, e[:2], e[2].rotation) for k, e in lv.entities.items()))
    return lv, spec


def g_seq(tier):
    ops = "".join(OPS)
    n = 3 if tier == "quick" else 4
    for ln in range(n + 1):
        for seq in itertools.product(ops, repeat=ln):
            if sum(c in "uUx" for c in seq) > 2:
                continue
            yield (len(seq), "".join(seq))
    # longer histories over a smaller alphabet
    small = "hvrtgfu" if tier == "quick" else "hvrltwgfqu"
    for seq in itertools.product(small, repeat=n + 1):
        if sum(c in "uUx" for c in seq) <= 1:
            yield (0, "".join(seq))
    if tier == "thorough":
        for seq in itertools.product("hrtgu", repeat=6):
            if sum(c in "uUx" for c in seq) <= 1:
                yield (1, "".join(seq))


@PROP.family(g_seq, "all sequences of up to 3 (thorough 4) of 19 operations and longer ones over a smaller alphabet; tiles, backdrop, props, entities and starts compared with the exact affine image after every step")
def sequences(ctx, case):
    run(ctx, *case)


def g_shapes(tier):
    for v in range(21):
        for op in OPS:
            yield (v, op)


@PROP.family(g_shapes, "every operation on levels with every shape at every place")
def shapes(ctx, case):
    run(ctx, *case)


def g_undo(tier):
    n = 3 if tier == "quick" else 4
    for ln in range(1, n + 1):
        for seq in itertools.product("hvrl25tTwg", repeat=ln):
            yield ("".join(seq),)


@PROP.family(g_undo, "all sequences of up to 3 (thorough 4) flips, rotations and whole pixel translations, undone step by step: the level is restored")
def undo(ctx, case):
    (seq,) = case
    spec = spec_of(len(seq))
    lv = ref.build_level(spec)
    for op in seq:
        OPS[op][0](lv)
        ctx.step()
    for op in reversed(seq):
        if op in INVERSE:
            OPS[INVERSE[op]][0](lv)
        else:
            lv.translate(-OPS[op][3], -OPS[op][4])
        ctx.step()
    got = ref.snap_level(lv)
    got["vars"] = ref.sort_tree(got["vars"])
    want = dict(spec)
    want["vars"] = ref.sort_tree(spec["vars"])
    ref.diff_levels(got, want, f"{seq} undone")
    ctx.state(seq)


def g_offsets(tier):
    vals = [0, 1, -1, 23, 24, 25, -23, -24, -25, 47, 48, 49, 72, -72, 120, 0.5, -0.5, 23.5, 24.5, 24.0625, 23.9990234375, 24.0009765625, -24.0009765625, 72.0009765625, 384.0078125, -383.9921875, 383, 384, 385, -384, 768, 1152, 1e6, 2.0**-20, 100000.75, 48 * 32768, 48 * 32767 + 24, 768 * 4100, 4800000, -4800000, 2.0**27 + 24]
    if tier == "thorough":
        vals += list(range(-100, 101)) + [v + 0.5 for v in range(-100, 100)]
    for x in vals:
        yield (x, 0)
        yield (0, x)
        yield (x, x)
        yield (x, -x)
        yield (x, 24)
        yield (-24, x)


@PROP.family(g_offsets, "translations by 41 amounts around half tiles, tiles and backdrop tiles, some of them beyond the stored range of tiles, in every direction: one common shift of all tiles, none lost")
def offsets(ctx, case):
    ox, oy = case
    spec = spec_of(4)
    # a dense block so that merging neighbours would be seen
    for x in range(-4, 5):
        for y in range(-4, 5):
            spec["tiles"][(9, x, y)] = (0, 4, 1 + (x & 3), (x + 9 * y) & 0xFF, y & 15, (ref.BLANK_EDGE,) * 4)
            spec["bd_tiles"][(9, x, y)] = (0, 4, 1 + (x & 3), (x + 9 * y) & 0xFF, y & 15, (ref.BLANK_EDGE,) * 4)
    lv = ref.build_level(spec)
    lv.translate(ox, oy)
    ctx.step()
    Model(spec).apply(ctx, ref.snap_level(lv), ID, 1, ox, oy, f"translate({ox}, {oy})")
    ctx.state(case)


def g_turns(tier):
    for v in (0, 4, 9):
        for n in list(range(-13, 14)) + [-1001, 1002, 4**9, -(2**33) + 1]:
            yield (v, n)


@PROP.family(g_turns, "rotations by every number of quarter turns from -13 to 13 and large ones")
def turns(ctx, case):
    v, n = case
    spec = spec_of(v)
    lv = ref.build_level(spec)
    lv.rotate(n)
    ctx.step()
    Model(spec).apply(ctx, ref.snap_level(lv), G.ROT[n % 4], 1, 0, 0, f"rotate({n})")
    ctx.state(case)


def g_huge(tier):
    for m in range(8):
        for f in (5, 8, 17, 40):
            yield (m, f)


@PROP.family(g_huge, "upscaling by 5, 8, 17 and 40 with all symmetries")
def huge(ctx, case):
    mi, f = case
    spec = spec_of(0)
    for key in ("tiles", "bd_tiles"):
        spec[key] = dict(list(sorted(spec[key].items()))[:3])
    lv = ref.build_level(spec)
    lv.upscale(f, mat=G.tx(G.D4[mi]))
    ctx.step()
    Model(spec).apply(ctx, ref.snap_level(lv), G.D4[mi], f, 0, 0, f"upscale({f}) with symmetry {mi}")
    ctx.state(case)


def g_large(tier):
    for n in (17, 33, 65, 91) if tier == "quick" else (17, 33, 65, 91, 129, 260):
        for op in "hrtu" if tier == "quick" else "hvr2tfgumx":
            yield (n, op)


@PROP.family(g_large, "filled areas of n x n tiles in the level and of a quarter of that in the backdrop, with n x n / 4 props and entities each, n up to 91 (thorough 260), through flips, turns, translations and upscaling")
def large(ctx, case):
    n, op = case
    spec = ref.empty_level()
    for i, (x, y) in enumerate(itertools.product(range(n), repeat=2)):
        t = (i % 21, 1 + i % 7, 1, i % 250, i % 16, (ref.BLANK_EDGE,) * 4)
        spec["tiles"][(19, x - 9, y - n)] = t
        if i % 4 == 0:
            spec["bd_tiles"][(3, x, -y)] = t
            spec["props"][1000 + i] = (3, 5.0 * x, 7.0 * y, (1, i % 65536, False, True, 1.0, 1, 2, 3, 4))
            spec["bd_props"][1000 + i] = (3, 5.0 * y, 7.0 * x, (1, i % 65536, False, True, 1.0, 1, 2, 3, 4))
            spec["ents"][1000 + i] = (5.0 * x, -7.0 * y, ("z_thing", ("S", ()), i % 65536, 18, False, False, True))
    spec["vars"] = ("S", tuple((f"p{p}_{a}", ("i", 5 * p)) for p in range(1, 5) for a in "xy"))
    lv = ref.build_level(spec)
    fn, m, f, ox, oy = OPS[op]
    fn(lv)
    ctx.step()
    Model(spec).apply(ctx, ref.snap_level(lv), m, f, ox, oy, f"{op} on {n} x {n} tiles")
    ctx.state(case)


def g_noinit(tier):
    for p in range(5):
        for op in "hvrtwuxq":
            yield (p, op)


@PROP.family(g_noinit, "levels without stored start positions or without any content")
def bare(ctx, case):
    from dustmaker.level import Level

    p, op = case
    lv = Level()
    if p:
        lv.start_position(p).x = 48
    fn, m, f, ox, oy = OPS[op]
    fn(lv)
    ctx.step()
    for q in range(1, 5):
        u, v = G.lin(m, (48 if q == p else 0, 0))
        pos = lv.start_position(q)
        for g, w in ((pos.x, f * u + ox), (pos.y, f * v + oy)):
            require(2 * abs(g - w) <= 1, f"start of player {q}: got", g, "expected", w)
    require(not lv.tiles and not lv.props and not lv.entities and not lv.backdrop.tiles and not lv.backdrop.props, "contents appeared")
    ctx.state(case)


def g_starts(tier):
    pts = (0, 1, -1, 255, 65535, -65536, 2**24, 2**24 + 1, -(2**24) - 1, 16777219, 123456789, 2**29 + 3, -(2**29) - 5)
    for x in pts:
        for y in pts:
            yield (x, y)


@PROP.family(g_starts, "player starts and objects at 13 x 13 places up to 2^29 pixels away, through every operation and through pairs of symmetries")
def far_starts(ctx, case):
    x, y = case
    for seq in list(OPS) + [a + b for a in "hvr" for b in "hvrtu"]:
        spec = ref.empty_level()
        spec["vars"] = ("S", tuple((f"p{p}_{a}", ("i", (x, y)[(k + p) % 2])) for p in range(1, 5) for k, a in enumerate("xy")))
        spec["ents"][7] = (float(x), float(y), ("z_thing", ("S", ()), 3, 18, False, False, True))
        spec["props"][8] = (3, float(y), float(x), (1, 0, False, False, 1.0, 1, 2, 3, 4))
        spec["bd_props"][9] = (3, float(x), float(-y), (1, 0, False, False, 1.0, 1, 2, 3, 4))
        lv = ref.build_level(spec)
        model = Model(spec)
        for i, op in enumerate(seq):
            fn, m, f, ox, oy = OPS[op]
            fn(lv)
            ctx.step()
            model.apply(ctx, ref.snap_level(lv), m, f, ox, oy, f"{case} after {seq[: i + 1]}")
    ctx.state(case)
