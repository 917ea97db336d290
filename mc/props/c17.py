"""C17: spatial data stored inside entities follows level transforms."""
import itertools
import math
from fractions import Fraction

from mc import geom as G
from mc import ref
from mc.core import Prop, require, same
from mc.entities import HITTABLE, TYPES, UNKNOWN

PROP = Prop("C17")
PROP.assumptions = [
    "maps are combinations of 90 degree turns, flips, translations and uniform scalings",
    "an absent variable and its documented default are the same",
    "sizes that are integers may be rounded by less than a pixel when the scale is not an integer",
]
VEC = ((0.0, 0.0), (-48.5, 96.0), (10.0, 20.0), (0.0, -7.25), (1000.0, 3.0))

# every spatial variable name on every entity type: only its own may change
def variables(v):
    vecs = tuple(("v", p) for p in VEC[: 1 + v % 5])
    return ("S", (
        ("trigger_area", ("A", "v", vecs)),
        ("nodes", ("A", "v", vecs[::-1])),
        ("nodes_wait_time", ("A", "i", (("i", 3), ("i", -4)))),
        ("control_widths", ("A", "v", (("v", (520.0, 1.0)),))),
        ("test_widths", ("A", "i", (("i", 5),))),
        ("c_node_ids", ("A", "u", (("u", 5), ("u", 0)))),
        ("width", ("i", (7, 0, 31, 500, 2)[v % 5])),
        ("height", ("i", (100, 4, 0, 12, 3)[v % 5])),
        ("zoom_h", ("i", (1080, 1, 720, 0, 999)[v % 5])),
        ("lastKnowX", ("f", (12.5, 0.0, -3.0, 1e5, 2.0)[v % 5])),
        ("lastKnowY", ("f", (-1.25, 7.0, 48.0, 0.0, 2.5)[v % 5])),
        ("dm_scale", ("f", (1.0, 2.0, 0.5, 1.25, 3.0)[v % 5])),
        ("puppet_id", ("u", 100)),
        ("door", ("u", 101)),
        ("finished", ("b", True)),
        ("e_rotation", ("i", 45)),
        ("rotation", ("i", 9)),
        ("scale", ("f", 4.0)),
        ("x", ("f", 1.0)),
        ("pos", ("v", (1.0, 2.0))),
    ))


DEFAULTS = {
    "trigger_area": ("A", "v", ()), "nodes": ("A", "v", ()), "zoom_h": ("i", 1080), "lastKnowX": ("f", 0.0),
    "lastKnowY": ("f", 0.0), "dm_scale": ("f", 1.0), "height": ("i", 0),
}
OWN = {
    "check_point": ("trigger_area",), "level_end_prox": ("trigger_area",), "AI_controller": ("nodes",),
    "kill_box": ("width", "height"), "camera_node": ("zoom_h", "width"), "enemy_key": ("lastKnowX", "lastKnowY"),
}


def default(etype, k):
    if k == "width":
        return ("i", 0 if etype == "kill_box" else 520)
    return DEFAULTS[k]


def own(etype):
    return OWN.get(etype, ()) + (("dm_scale",) if etype in HITTABLE else ())


def check_entity(etype, before, after, m, f, ox, oy, what):
    """Maps p -> f * m(p) + o."""
    b, a = dict(before[1]), dict(after[1])
    mine = own(etype)
    for k in set(b) | set(a):
        if k not in mine:
            same(a.get(k, "absent"), b.get(k, "absent"), f"{what}: variable {k}")
    for k in mine:
        b.setdefault(k, default(etype, k))
        a.setdefault(k, default(etype, k))
        same(a[k][0], b[k][0], f"{what}: type of {k}")

    def img(x, y, off=True):
        u, v = G.lin(m, (x, y))
        return (f * u + (ox if off else 0), f * v + (oy if off else 0))

    def near(got, want, what2):
        exact = Fraction(f).denominator == 1
        w = Fraction(want)
        require(got == w if exact else abs(got - w) < 1, f"{what}: {what2}: got", got, "expected", float(w))

    for k in mine:
        if k in ("trigger_area", "nodes"):
            want = tuple(("v", tuple(map(float, img(*v[1], off=k == "nodes")))) for v in b[k][2])
            same(a[k], ("A", "v", want), f"{what}: {k}")
        elif k == "dm_scale":
            require(math.isclose(a[k][1], b[k][1] * abs(f), rel_tol=1e-9), f"{what}: dm_scale: got", a[k][1], "expected", b[k][1] * abs(f))
    if etype == "enemy_key":
        want = img(b["lastKnowX"][1], b["lastKnowY"][1])
        same((a["lastKnowX"][1], a["lastKnowY"][1]), want, f"{what}: last known position")
    if etype == "kill_box":
        u, v = img(b["width"][1], b["height"][1], off=False)
        near(a["width"][1], abs(u), "death zone width")
        near(a["height"][1], abs(v), "death zone height")
        require(a["width"][1] >= 0 and a["height"][1] >= 0, what, "negative size")
    if etype == "camera_node":
        near(a["zoom_h"][1], b["zoom_h"][1] * abs(f), "camera zoom")
        near(a["width"][1], b["width"][1] * abs(f), "camera width")


def spec_ent(etype, v, drop=()):
    var = variables(v)
    var = ("S", tuple(kv for kv in var[1] if kv[0] not in drop))
    return (etype, var, 0x2000, 18, False, False, True)


def rot_after(rot, fy, m):
    if G.det(m) < 0:
        k = next(k for k in range(4) if G.mul(G.ROT[k], G.HFLIP) == m)
        return (0x4000 * k - rot) & 0xFFFF, not fy
    return (rot + 0x4000 * G.ROT.index(m)) & 0xFFFF, fy


OFFS = ((0, 0), (48, -96), (0.5, -1000.25))
FACT = (1, 2, 3, 0.5, 1.5)


def g_single(tier):
    for t in TYPES + UNKNOWN:
        for m in range(8):
            for f in FACT:
                for o in range(3):
                    for v in range(5 if t in OWN else 1):
                        yield (t, m, f, o, v)


@PROP.family(g_single, "every shipped and some unknown entity types, carrying the spatial variables of all types, x 8 symmetries x 5 scales x 3 translations")
def single(ctx, case):
    t, mi, f, oi, v = case
    m = G.D4[mi]
    ox, oy = OFFS[oi]
    e = spec_ent(t, v)
    ent = ref.build_entity(e)
    ent.transform(G.tx(tuple(x * f for x in m), ox, oy))
    ctx.step()
    got = ref.snap_entity(ent)
    check_entity(t, e[1], got[1], m, f, ox, oy, f"{t} moved by {m} x {f} + {ox, oy}")
    r, fy = rot_after(e[2], e[5], m)
    same((got[0], got[2:]), (t, (r, 18, False, fy, True)), "entity fields")
    ctx.state(t, got)


def g_absent(tier):
    for t in TYPES:
        names = own(t)
        for r in range(len(names) + 1):
            for drop in itertools.combinations(names, r):
                for m in range(8):
                    for f in (1, 2):
                        yield (t, drop, m, f)


@PROP.family(g_absent, "every subset of an entity's own spatial variables absent: the documented defaults are transformed")
def absent(ctx, case):
    t, drop, mi, f = case
    m = G.D4[mi]
    e = spec_ent(t, 1, drop)
    ent = ref.build_entity(e)
    ent.transform(G.tx(tuple(x * f for x in m), 100, -7.5))
    ctx.step()
    check_entity(t, e[1], ref.snap_map(ent.variables), m, f, 100, -7.5, f"{t} without {drop} moved by {m} x {f}")
    ctx.state(case)


def g_values(tier):
    for m in range(8):
        for f in (1, 2, 3, 16, 0.5):
            for kind in ("orbit", "same", "line", "many", "scale", "camera", "box", "key"):
                yield (m, f, kind)


@PROP.family(g_values, "stored values that the map sends onto each other (orbits, repeated points, points on a line), long lists, scales 2^-10..2^20, sizes up to 2^20, far positions x 8 symmetries x 5 scales")
def values(ctx, case):
    mi, f, kind = case
    m = G.D4[mi]

    def go(t, tree, ox=100, oy=-7.5):
        e = (t, ("S", tree), 0x2000, 18, False, False, True)
        ent = ref.build_entity(e)
        ent.transform(G.tx(tuple(x * f for x in m), ox, oy))
        ctx.step()
        check_entity(t, e[1], ref.snap_map(ent.variables), m, f, ox, oy, f"{case}: {t} {tree}")

    if kind in ("orbit", "same", "line", "many"):
        for ox, oy in ((0, 0), (100, -7.5), (48, 0)):
            for start in ((3.0, 5.0), (0.0, 0.0), (1.0, 0.0), (-48.0, 48.0)):
                pts = [start]
                if kind == "orbit":
                    for _ in range(7):
                        u, v = G.lin(m, pts[-1])
                        pts.append((f * u + ox, f * v + oy))
                elif kind == "same":
                    pts = [start, start, (start[1], start[0]), start]
                elif kind == "line":
                    pts = [(start[0] + 48 * i, start[1] + oy * i) for i in range(6)]
                else:
                    pts = [(start[0] + i, start[1] - 2.0 * i) for i in range(300)]
                pts = [(float(a), float(b)) for a, b in pts]
                for order in (pts, pts[::-1]):
                    vecs = ("A", "v", tuple(("v", p) for p in order))
                    for t, name in (("AI_controller", "nodes"), ("check_point", "trigger_area"), ("level_end_prox", "trigger_area")):
                        go(t, ((name, vecs),), ox, oy)
    elif kind == "scale":
        for k in range(-10, 21):
            for c in (1.0, 1.25):
                go("hittable_apple", (("dm_scale", ("f", c * 2.0**k)),))
    elif kind == "camera":
        for k in range(0, 21, 2):
            for d in (-1, 0, 1):
                go("camera_node", (("zoom_h", ("i", 2**k + d)), ("width", ("i", 2**(20 - k) - d))))
    elif kind == "box":
        for k in range(0, 21, 2):
            for d in (-1, 0, 1):
                go("kill_box", (("width", ("i", 2**k + d)), ("height", ("i", 2**(20 - k) + d))))
    else:
        for k in range(0, 41, 4):
            for d in (-1.5, 0.0, 2.0):
                go("enemy_key", (("lastKnowX", ("f", 2.0**k + d)), ("lastKnowY", ("f", -(2.0**(40 - k)) + d))))
    ctx.state(case)


SET = (
    ("camera_node", "node_type", "i", (0, 1, 2, 3, 4, 5, 6, -1, 100)),
    ("camera_node", "control_widths", "A", ()),
    ("level_end_prox", "finished", "b", (True, False)),
    ("AI_controller", "puppet_id", "u", (0, 1, 100, 0xFFFFFFFF)),
    ("enemy_key", "door", "u", (0, 1, 101, 0xFFFFFFFF)),
    ("enemy_bear", "dm_filth", "i", (-1, 0, 1, 100)),
    ("dust_man", "player", "i", (0, 1, 2)),
)


def g_settings(tier):
    for t, name, kind, vals in SET:
        for val in vals or (None,):
            for m in range(8):
                for f in FACT:
                    yield ("var", t, name, kind, val, m, f)
    for t in tuple(OWN) + ("enemy_bear", "hittable_apple", "dust_man"):
        for layer in (0, 1, 5, 6, 11, 12, 16, 17, 18, 19, 20, 255):
            for bits in range(8):
                for m in range(8):
                    yield ("attr", t, layer, bits, (0, 1, 0x4000, 0x7FFF, 0x8000, 0xC001, 0xFFFF)[(layer + bits) % 7], m, 2)


@PROP.family(g_settings, "entities with spatial data with every node type / flag / reference value, and with 12 layers x all flip and visibility flags x rotations, x 8 symmetries")
def settings(ctx, case):
    if case[0] == "var":
        _, t, name, kind, val, mi, f = case
        tree = [kv for kv in variables(2)[1] if kv[0] != name]
        if val is not None:
            tree.append((name, (kind, val)))
        e = (t, ("S", tuple(tree)), 0x2000, 18, False, False, True)
    else:
        _, t, layer, bits, rot, mi, f = case
        e = (t, variables(3), rot, layer, bool(bits & 1), bool(bits & 2), bool(bits & 4))
    m = G.D4[mi]
    ent = ref.build_entity(e)
    ent.transform(G.tx(tuple(x * f for x in m), 48, -96.5))
    ctx.step()
    got = ref.snap_entity(ent)
    check_entity(t, e[1], got[1], m, f, 48, -96.5, f"{case}")
    same((got[0], got[3], got[6]), (t, e[3], e[6]), f"{case}: type, layer and visibility")
    ctx.state(t, got)


OPS = {
    "h": (lambda lv: lv.flip_horizontal(), G.HFLIP, 1, 0, 0),
    "v": (lambda lv: lv.flip_vertical(), G.VFLIP, 1, 0, 0),
    "r": (lambda lv: lv.rotate(), G.ROT[1], 1, 0, 0),
    "l": (lambda lv: lv.rotate(-1), G.ROT[3], 1, 0, 0),
    "t": (lambda lv: lv.translate(48, -24.5), G.D4[0], 1, 48, -24.5),
    "u": (lambda lv: lv.upscale(2), G.D4[0], 2, 0, 0),
    "x": (lambda lv: lv.upscale(3, mat=G.tx(G.mul(G.HFLIP, G.ROT[1]), 48, 96)), G.mul(G.HFLIP, G.ROT[1]), 3, 144, 288),
}
IN_LEVEL = ("check_point", "level_end_prox", "AI_controller", "kill_box", "camera_node", "enemy_key", "enemy_bear", "hittable_apple", "dust_man", "base_trigger", "z_button", "enemy_door")


def g_seq(tier):
    n = 3 if tier == "quick" else 5
    for ln in range(1, n + 1):
        for seq in itertools.product("".join(OPS), repeat=ln):
            if sum(c in "ux" for c in seq) <= 2:
                yield ("".join(seq),)


@PROP.family(g_seq, "levels with 12 entity kinds under all sequences of up to 3 (thorough 5) of 7 level operations, checked after every step")
def sequences(ctx, case):
    (seq,) = case
    spec = ref.empty_level()
    for i, t in enumerate(IN_LEVEL):
        spec["ents"][100 + i] = (i * 10.0, -i * 5.5, spec_ent(t, i))
    lv = ref.build_level(spec)
    cur = spec["ents"]
    for k, op in enumerate(seq):
        fn, m, f, ox, oy = OPS[op]
        fn(lv)
        ctx.step()
        new = ref.snap_level(lv)["ents"]
        same(sorted(new), sorted(cur), "entities")
        for eid, (x, y, e) in cur.items():
            gx, gy, g = new[eid]
            u, w = G.lin(m, (x, y))
            same((gx, gy), (f * u + ox, f * w + oy), "entity position")
            check_entity(e[0], e[1], g[1], m, f, ox, oy, f"{e[0]} after {seq[: k + 1]}")
        cur = new
    ctx.state(tuple(sorted((k, v) for k, v in cur.items())))
