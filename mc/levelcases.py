"""Enumerations of level contents shared by the level format properties.

Every generator yields literal cases; make(case) turns a case into a level spec
(see mc.ref).  All numbers are exactly representable in the file format unless the
family says otherwise.
"""
import itertools

from mc.ref import BLANK_EDGE, empty_level, scale_step, entity_classes

# one edge with every field set to a distinctive value
EDGES = (
    (True, True, (True, False), (13, -7), 2, False, (False, True), (-5, 44)),
    (False, True, (False, True), (-128, 127), 5, True, (True, False), (1, -1)),
    (True, False, (True, True), (45, -45), 0, False, (False, False), (0, 0)),
    (False, False, (False, False), (0, 90), 7, True, (True, True), (-90, 22)),
)
PLAIN = (0, 4, 5, 1, 0, (BLANK_EDGE,) * 4)
FULLT = (0, 4, 3, 6, 1, EDGES)
PROPV = (12, 0x1234, False, True, 1.0, 3, 77, 1029, 4)
VARS = ("S", (("k", ("i", -3)), ("str", ("s", b"hi\x00\xff")), ("arr", ("A", "u", (("u", 7),)))))
ENTV = ("enemy_bear", VARS, 0x4321, 18, False, True, True)


def tile(shape=0, flags=4, sset=5, stile=1, pal=0, edges=None):
    return (shape, flags, sset, stile, pal, edges or (BLANK_EDGE,) * 4)


def with_edge(side, edge, base=FULLT):
    e = list(base[5])
    e[side] = edge
    return base[:5] + (tuple(e),)


def put(spec, kind, pos, n=0):
    """Add object number n of a kind at tile position pos (x, y in tiles)."""
    x, y = pos
    if kind == "t":
        spec["tiles"][(19, x, y)] = FULLT[:3] + (n % 256,) + FULLT[4:]
    elif kind == "T":
        spec["tiles"][(n % 19, x, y)] = FULLT[:3] + (n % 256,) + FULLT[4:5] + tuple(
            [tuple(e[:4] + BLANK_EDGE[4:] for e in EDGES)]
        )
    elif kind == "p":
        spec["props"][100 + n] = (n % 21, x * 48.0 + n % 48, y * 48.0 + (n * 7) % 48, PROPV[:5] + (n % 256,) + PROPV[6:])
    elif kind == "e":
        spec["ents"][5000 + n] = (x * 48.0 + 0.5, y * 48.0 + 47.9921875, ("enemy_bear" if n % 2 else "z_thing" + str(n % 10),) + ENTV[1:2] + (n % 65536,) + ENTV[3:])
    elif kind == "b":
        spec["bd_tiles"][(n % 21 if n % 21 != 19 else 0, x, y)] = (n % 21, 4, 2, n % 256, 2) + ((BLANK_EDGE,) * 4,)
    elif kind == "q":
        spec["bd_props"][9000 + n] = (n % 21, x * 48.0 + n % 48, y * 48.0 + 3, PROPV[:6] + (n % 4096,) + PROPV[7:])
    else:
        raise ValueError(kind)


KINDS = "tTpebq"

# coordinates in tiles around every segment / region border
COORD = (0, 1, 15, 16, 17, 31, 32, 255, 256, 257, -1, -2, -15, -16, -17, -32, -33, -255, -256, -257, -272, 511, 512, -512, -513)
FAR = (4095, 4096, -4096, -4097, 65535, 65536, -65536, -65537, 2796000, -2796000, 2**23 - 1, -(2**23), 2**23 - 256, -(2**23) + 255)


def far_ok(kind, v):
    """Format ranges: props hold 27 bits of pixels, backdrop regions are 16 tiles."""
    if kind in "pq":
        return abs(v) <= 2796000
    if kind == "b":
        return abs(v) <= 16 * 32767
    return -(2**23) <= v < 2**23


# ------------------------------------------------------------------ case generators


def g_positions(tier):
    for kind in KINDS:
        for x in COORD + FAR:
            for y in COORD + FAR:
                if (x in FAR or y in FAR) and not (x in COORD[:3] + FAR[-6:] and y in COORD[:3] + FAR[-6:]) and x != y and x != -y:
                    if tier == "quick" and abs(x) > 300 and abs(y) > 300:
                        continue
                if far_ok(kind, x) and far_ok(kind, y):
                    yield ("pos", kind, (x, y))


NEAR = ((0, 0), (15, 15), (16, 0), (0, 16), (-1, 0), (0, -1), (-1, -1), (255, 255), (256, 0), (0, 256), (-16, -17), (-256, -257), (-257, 300), (40, -300))


def g_pairs(tier):
    for ka, kb in itertools.product(KINDS, repeat=2):
        for a, b in itertools.product(NEAR, repeat=2):
            if ka == kb and a == b and ka in "tTb":
                continue
            yield ("pair", ka, a, kb, b)


def g_subsets(tier):
    """All subsets of content kinds, in one place or spread over regions."""
    for r in range(0, 7):
        for ks in itertools.combinations(KINDS, r):
            for layout in range(5):
                yield ("subset", "".join(ks), layout)


def g_tile_fields(tier):
    for shape in range(21):
        yield ("tf", "shape", shape)
    for flags in range(8):
        yield ("tf", "flags", flags)
    for sset in range(8):
        yield ("tf", "set", sset)
    for pal in range(16):
        yield ("tf", "pal", pal)
    for st in range(0, 256, 16):
        yield ("tf", "tile16", st)
    for layer in range(21):
        yield ("tf", "layer", layer)
    for shape in range(21):
        for sset in range(8):
            yield ("tf", "combo", (shape, sset))
    for side in range(4):
        for f in ("solid", "visible", "caps", "angles0", "angles1", "fset", "fspike", "fcaps", "fangles0", "fangles1"):
            yield ("tf", "edge", (side, f))
    for sides in range(16):
        yield ("tf", "solidvis", sides)
        yield ("tf", "filthmask", sides)
        yield ("tf", "spikemask", sides)
    for a in range(8):
        for b in range(8):
            yield ("tf", "fsets", (a, b))


def g_counts(tier):
    ns = [1, 2, 3, 15, 16, 17, 127, 128, 129, 255, 256]
    for n in ns:
        for kind in "tT":
            yield ("count", kind, n)
        yield ("count", "b", n)
    for n in ns + [257, 300, 511, 512, 1000, 1023, 1024, 1025]:
        for kind in "peq":
            yield ("count", kind, n)
    for n in (65535,) if tier == "thorough" else ():
        yield ("count", "p", n)
        yield ("count", "q", n)
        yield ("count", "e", n)
    for kind in "peq":
        yield ("count", kind, 4097)
    yield ("count", "p", 33000)
    yield ("count", "e", 33001)
    for layer in range(21):
        yield ("full", (layer,))
    yield ("full", tuple(range(21)))
    for n in (1, 2, 20, 21):
        yield ("layers", n)
    for n in range(0, 26):
        yield ("regions", n, 0)
        yield ("regions", n, 1)
    for n in (63, 64, 65, 255, 256, 257, 4097):
        yield ("regions", n, 0)
    for n in (2, 17, 255, 256):
        yield ("segments", n)


def g_align(tier):
    """Every bit length of the variable section (mod 8 and around bytes) with every
    number of regions 0..4 and 17."""
    for bits in range(0, 24):
        for nreg in (0, 1, 2, 3, 4, 17):
            yield ("align", bits, nreg)


def g_props(tier):
    for k in range(56):
        yield ("pf", "scale", k)
    for name, lim in (("layer", 255), ("sub", 255), ("rot", 65535), ("set", 255), ("group", 4095), ("index", 4095), ("pal", 255)):
        for v in sorted({0, 1, 2, 7, 8, 15, 16, 127, 128, lim // 2, lim // 2 + 1, lim - 1, lim}):
            yield ("pf", name, v)
    for m in range(4):
        yield ("pf", "flips", m)
    for x in (0, 1, 47, 48, 767, 768, 769, 12287, 12288, 134217727, 2**26, 2**26 - 1, 65535, 65536):
        for y in (0, 1, 48, 767, 768, 12288, 134217727):
            for sx, sy in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                yield ("pf", "pos", (x * sx, y * sy))


EXT = ("enemy_bear", "z_string_list", "entity", "unknown_thing", "z_", "Z_a", "entityx")


def g_ents(tier):
    for name in sorted(entity_classes()):
        yield ("ef", "type", name)
    for name in ("entity", "z_", "z_a", "z_" + "b" * 61, "x" * 63, "", "a", "z", "_", "Z_x", "ENTITY", "entity_", "zz_", "{{", "0", "entityz_q"):
        yield ("ef", "type", name)
    for rot in (0, 1, 255, 256, 0x4000, 0x7FFF, 0x8000, 0xC000, 0xFFFF):
        yield ("ef", "rot", rot)
    for layer in (0, 1, 18, 19, 20, 127, 128, 255):
        yield ("ef", "layer", layer)
    for m in range(8):
        yield ("ef", "flags", m)
    for v in (0, 1, 2, 5, 9):
        yield ("ef", "vars", v)
    for x in (0.0, 0.0078125, 0.5, 0.9921875, 1.0, 47.9921875, 48.0, 767.9921875, 768.0, 12287.9921875, 12288.0, 100000.25, 402000000.0):
        for y in (0.0, 0.0078125, 767.5, 768.0, 12288.0):
            for sx, sy in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                yield ("ef", "pos", (x * sx, y * sy))
    n = 4 if tier == "quick" else 5
    for r in range(1, n + 1):
        for names in itertools.product(range(len(EXT)), repeat=r):
            if r == n and tier == "quick" and 5 in names:
                continue
            yield ("ext", names)


def g_ids(tier):
    ids = (0, 1, 2, 99, 100, 101, 255, 256, 65535, 65536, 2**24, 2**31 - 2)
    for a in ids:
        for b in ids:
            yield ("ids", a, b)


def g_meta(tier):
    for n in (0, 1, 2, 3, 7, 8, 255, 256, 257, 65535, 65536, 70000, 131073, 300000, 1048577):
        yield ("sshot", n)
    for b in range(256):
        yield ("image", b)
    for ti in range(len(META_TREES)):
        for nreg in (0, 1, 3):
            yield ("vars", ti, nreg)


def g_stacked(tier):
    """Tiles of several layers on one cell: absent, clean, or with one of two kinds of filth."""
    for states in itertools.product(range(4), repeat=4):
        if any(states):
            yield ("stack", states, 0)
    for states in itertools.product(range(4), repeat=3):
        if any(states):
            yield ("stack", (0,) + states, 1)


EXTREME = (-32768, -32767, -16385, -16384, -2, -1, 0, 1, 2, 16383, 16384, 32766, 32767)


def g_order(tier):
    """Two regions at every pair of extreme coordinates."""
    for a, b in itertools.product(EXTREME, repeat=2):
        if a != b:
            yield ("order", (a, 3), (b, 3))
            yield ("order", (3, a), (3, b))
            yield ("order", (a, b), (b, a))
            yield ("order", (a, 0), (b, -1))


META_TREES = (
    ("S", ()),
    VARS,
    ("S", (("level_type", ("i", 6)), ("level_name", ("s", b"name")), ("p1_x", ("i", -5)))),
    ("S", (("level_type", ("i", 0)), ("vector_character", ("b", True)))),
    (
        "S",
        (
            ("a", ("f", -0.25)),
            ("b", ("v", (1.5, -2.5))),
            ("c", ("A", "s", (("s", b""), ("s", b"q")))),
        ),
    ),
    (
        "S",
        (
            (
                "n",
                (
                    "S",
                    (("m", ("A", "S", (("S", (("x", ("b", True)),)), ("S", ())))),),
                ),
            ),
        ),
    ),
    ("S", (("big", ("s", b"x" * 65535)), ("z", ("i", 1)))),
    ("S", (("big", ("s", b"x" * 65540)), ("z", ("i", 1)))),
    ("S", tuple((f"k{i}", ("u", i)) for i in range(100))),
)


def make(case):
    spec = empty_level()
    kind = case[0]
    if kind == "pos":
        put(spec, case[1], case[2], 17)
    elif kind == "pair":
        _, ka, a, kb, b = case
        put(spec, ka, a, 3)
        put(spec, kb, b, 25)
    elif kind == "subset":
        _, ks, layout = case
        for i, k in enumerate(ks):
            if layout == 0:
                pos = [(3, 4)]
            elif layout == 1:
                pos = [(-3, -4), (5, 6)]
            elif layout == 2:
                pos = [(20 * i, -20 * i)]
            elif layout == 3:
                pos = [(300 * i, -300 * (6 - i)), (3, 4)]
            else:
                pos = [(-300, 5), (-1, -1), (0, 0), (255, 256), (700, 300)]
            for j, p in enumerate(pos):
                put(spec, k, p, 31 * i + j)
    elif kind == "tf":
        tile_fields(spec, case[1], case[2])
    elif kind == "count":
        _, k, n = case
        for i in range(n):
            if k in "tTb":
                base = {"t": (-32, 16), "T": (240, 496), "b": (-16, 0)}[k]
                x, y = base[0] + i % 16, base[1] + i // 16
                if k == "t":
                    spec["tiles"][(19, x, y)] = FULLT[:3] + (i % 256,) + FULLT[4:]
                elif k == "T":
                    spec["tiles"][(4, x, y)] = PLAIN[:3] + (i % 256,) + PLAIN[4:]
                else:
                    spec["bd_tiles"][(19, x, y)] = FULLT[:3] + (i % 256,) + FULLT[4:]
            else:
                x, y = -20, 3
                if k == "p":
                    spec["props"][100 + i] = (i % 256, x * 48.0 + i % 48, y * 48.0, PROPV[:6] + (i % 4096,) + PROPV[7:])
                elif k == "q":
                    spec["bd_props"][100 + i] = (i % 256, x * 48.0 + i % 48, y * 48.0, PROPV[:6] + (i % 4096,) + PROPV[7:])
                else:
                    ent = ("enemy_door" if i % 3 else "z_x",) + (("S", ()),) + (i % 65536,) + ENTV[3:]
                    spec["ents"][100 + i] = (x * 48.0, y * 48.0 + (i % 128) / 128, ent)
    elif kind == "full":
        for layer in case[1]:
            for i in range(256):
                spec["tiles"][(layer, i % 16 - 16, i // 16)] = (i % 21,) + PLAIN[1:3] + (i % 256,) + PLAIN[4:]
                if len(case[1]) == 1:
                    spec["bd_tiles"][(layer, i % 16, i // 16 - 16)] = (i % 21,) + PLAIN[1:3] + (i % 256,) + PLAIN[4:]
    elif kind == "layers":
        for layer in range(case[1]):
            spec["tiles"][(layer, 2, 3)] = PLAIN[:3] + (layer,) + PLAIN[4:]
            spec["tiles"][(20 - layer, 18, 3)] = PLAIN[:3] + (100 + layer,) + PLAIN[4:]
    elif kind == "regions":
        _, n, mode = case
        order = range(n) if mode == 0 else range(n - 1, -1, -1)
        for i in order:
            rx, ry = (i * 5) % 7 - 3, i // 7 - 2 + (i % 3 == 0)
            rx, ry = i % 5 - 2, i // 5 - 2
            if mode:
                rx, ry = -ry, rx
            put(spec, "tpeqb"[i % 5], (rx * 256 + 7, ry * 256 + 9) if i % 5 != 4 else (rx * 16 + 7, ry * 16 + 9), i)
    elif kind == "segments":
        for i in range(case[1]):
            put(spec, "tpe"[i % 3], ((i * 7 % 16) * 16 - 256 + i % 16, (i // 16) * 16 + 5), i)
    elif kind == "align":
        _, bits, nreg = case
        spec["vars"] = pad_vars(bits)
        for i in range(nreg):
            put(spec, "tpe"[i % 3], ((i - 1) * 256 + 3, 5), i)
    elif kind == "pf":
        name, v = case[1], case[2]
        p = list(PROPV)
        layer, x, y = 5, 100.0, 200.0
        if name == "scale":
            p[4] = scale_step(v)
        elif name == "layer":
            layer = v
        elif name == "flips":
            p[2], p[3] = bool(v & 1), bool(v & 2)
        elif name == "pos":
            x, y = float(v[0]), float(v[1])
        else:
            p[{"sub": 0, "rot": 1, "set": 5, "group": 6, "index": 7, "pal": 8}[name]] = v
        spec["props"][150] = (layer, x, y, tuple(p))
        spec["props"][149] = (3, 101.0, 201.0, PROPV)
        spec["bd_props"][151] = (layer, x, y, tuple(p))
    elif kind == "ef":
        name, v = case[1], case[2]
        e = list(ENTV)
        x, y = 100.5, 200.25
        if name == "type":
            e[0] = v
        elif name == "rot":
            e[2] = v
        elif name == "layer":
            e[3] = v
        elif name == "flags":
            e[4], e[5], e[6] = bool(v & 1), bool(v & 2), bool(v & 4)
        elif name == "vars":
            e[1] = ("S", tuple((f"key{i}", ("i", i)) for i in range(v)))
        else:
            x, y = v
        spec["ents"][150] = (x, y, tuple(e))
        spec["ents"][149] = (99.0, 201.0, ENTV)
    elif kind == "ext":
        for i, n in enumerate(case[1]):
            spec["ents"][200 + i] = (10.0 + i, 20.0, (EXT[n] + ("_" + str(i) if EXT[n][-1] in "_a" else ""), ("S", (("n", ("i", i)),)) if i % 2 else ("S", ()), i, 18, False, False, True))
    elif kind == "ids":
        _, a, b = case
        spec["props"][a] = (3, 10.0, 20.0, PROPV)
        spec["ents"][b] = (30.0, 40.0, ENTV)
        spec["bd_props"][a] = (4, 50.0, 60.0, PROPV)
        if a != b:
            spec["props"][b] = (5, 70.0, -80.0, PROPV)
            spec["ents"][a] = (-500.0, 40.0, ENTV)
    elif kind == "stack":
        _, states, bd = case
        tiles = spec["bd_tiles" if bd else "tiles"]
        for layer, st in zip((7, 18, 20, 19), states):
            edges = (None, (BLANK_EDGE,) * 4, EDGES, EDGES[1:] + EDGES[:1])[st]
            if edges:
                tiles[(layer, 9, -7)] = (layer, 4, 3, 40 + layer, 2, edges)
        put(spec, "b" if bd else "t", (3, -7), 5)
    elif kind == "order":
        for i, (rx, ry) in enumerate(case[1:]):
            put(spec, "te"[i], (rx * 256 + 255 * i, ry * 256 + 16), i)
            if -32768 < rx < 32767 and -32768 < ry < 32767:
                put(spec, "b", (rx * 16 + 3, ry * 16 + 4), i)
    elif kind == "sshot":
        n = case[1]
        spec["sshot"] = (b"DF_LVL\x2c\x00DF_MTD" + bytes(range(256)) * (n // 256 + 1))[:n]
        put(spec, "t", (1, 1), 1)
        spec["vars"] = VARS
    elif kind == "image":
        end = bytes((case[1],)) * (1 + case[1] % 3)
        spec["sshot"] = end + b"PNG" + end
        spec["vars"] = ("S", (("s", ("s", end)), ("t", ("s", b"x" + end + b"y" + end))))
        put(spec, "t", (1, 1), 1)
    elif kind == "vars":
        _, ti, nreg = case
        spec["vars"] = META_TREES[ti]
        for i in range(nreg):
            put(spec, "tpe"[i % 3], ((i - 1) * 256 + 3, 5), i)
    else:
        raise ValueError(case)
    return spec


def pad_vars(n):
    """A variable map whose encoding has n more bits than the smallest of its kind,
    for n in 0..23 (a bool adds 5 + 6 bits of a zero length key + ...)."""
    # one entry: 4 + 6 + 6*len(key) + 1 bits; choose entries to reach n modulo 24
    out = [("k" * 1, ("b", True))]
    # each extra bool with key length L costs 11 + 6L bits: 11, 17, 23 -> generators
    extra = {0: (), 1: (5, 0, 0)}
    best = None
    for a in range(0, 8):
        for cnt in range(0, 9):
            bits = cnt * 11 + 6 * sum(range(1, cnt + 1)) + 6 * a
            if bits % 24 == n % 24:
                best = (cnt, a)
                break
        if best:
            break
    if best is None:
        raise ValueError(n)
    cnt, a = best
    out = [("q" * 0 + "k" + "a" * a, ("b", True))]
    for i in range(cnt):
        out.append(("z" * (i + 1), ("b", i % 2 == 0)))
    return ("S", tuple(out))


def tile_fields(spec, name, v):
    T = spec["tiles"]
    if name == "shape":
        for layer in range(21):
            T[(layer, 3, 4)] = (v,) + FULLT[1:] if layer == 19 else (v,) + PLAIN[1:]
    elif name == "flags":
        for i in range(21):
            T[(19, i, 0)] = (i, v) + FULLT[2:]
    elif name == "set":
        for i in range(16):
            T[(19, i, 0)] = (0, 4, v, i, i) + (EDGES,)
    elif name == "pal":
        for i in range(8):
            T[(19, i, 0)] = (0, 4, i, 17, v) + (EDGES,)
    elif name == "tile16":
        for i in range(16):
            T[(19, i, 2)] = (0, 4, i % 8, v + i, i) + (EDGES,)
    elif name == "layer":
        T[(v, 0, 0)] = FULLT if v == 19 else PLAIN
        T[(v, 15, 15)] = PLAIN
        spec["bd_tiles"][(v, -1, -1)] = PLAIN
    elif name == "combo":
        shape, sset = v
        for i in range(256):
            T[(19, i % 16 - 16, i // 16)] = (shape, i % 8, sset, i, i % 16) + (EDGES[i % 4 :] + EDGES[: i % 4],)
    elif name == "edge":
        side, f = v
        base = EDGES[(side + 1) % 4]
        if f in ("angles0", "angles1", "fangles0", "fangles1"):
            for i in range(256):
                e = list(base)
                at = 3 if f[0] == "a" else 7
                pair = list(e[at])
                pair[int(f[-1])] = i - 128
                e[at] = tuple(pair)
                if e[4] == 0:
                    e[4] = 3
                T[(19, i % 16, i // 16)] = with_edge(side, tuple(e))
        else:
            opts = {
                "solid": [(0, x) for x in (False, True)],
                "visible": [(1, x) for x in (False, True)],
                "caps": [(2, (a, b)) for a in (False, True) for b in (False, True)],
                "fset": [(4, x) for x in range(8)],
                "fspike": [(5, x) for x in (False, True)],
                "fcaps": [(6, (a, b)) for a in (False, True) for b in (False, True)],
            }[f]
            n = 0
            for b in EDGES:
                for at, x in opts:
                    e = list(b)
                    e[at] = x
                    T[(19, n % 16, n // 16)] = with_edge(side, tuple(e))
                    only = (BLANK_EDGE[:at] + (x,) + BLANK_EDGE[at + 1 :])
                    if at < 4 or only[4]:
                        T[(19, n % 16, 8 + n // 16)] = with_edge(side, only, PLAIN)
                    n += 1
    elif name == "solidvis":
        for m in range(16):
            edges = tuple(
                (bool(v >> s & 1), bool(m >> s & 1)) + BLANK_EDGE[2:] for s in range(4)
            )
            T[(19, m, 0)] = PLAIN[:5] + (edges,)
    elif name in ("filthmask", "spikemask"):
        for m in range(1, 16):
            edges = tuple(
                BLANK_EDGE[:4]
                + ((1 + s if m >> s & 1 else 0), bool(v >> s & 1) and bool(m >> s & 1))
                + ((bool(m & 1), bool(s & 1)), (s, -s))
                for s in range(4)
            )
            T[(19, m, 1 if name == "filthmask" else 17)] = PLAIN[:5] + (edges,)
    elif name == "fsets":
        a, b = v
        for i in range(16):
            edges = tuple(
                BLANK_EDGE[:4] + (((a, b, a, b) if i & 1 else (b, b, a, a))[s], bool(i >> s & 1)) + BLANK_EDGE[6:]
                for s in range(4)
            )
            if any(e[4] for e in edges):
                T[(19, i, 0)] = (0, 4, (a + i) % 8, (21, 13, 6, 9, 2)[i % 5], 1) + (edges,)
    else:
        raise ValueError(name)


GENERATORS = (
    (g_positions, "one object of every kind (collision tile, other tile, prop, entity, backdrop tile, backdrop prop) at every pair of coordinates around segment borders, region borders and the limits of the format"),
    (g_pairs, "two objects of every pair of kinds at every pair of 14 positions"),
    (g_subsets, "all subsets of content kinds in 5 layouts"),
    (g_tile_fields, "tile fields: every shape, flag, sprite set, palette, sprite index, layer; every angle -128..127, cap, solidity, filth set and spike value on every side; all masks"),
    (g_counts, "numbers of objects per segment (powers of two +-1, full segments, full layers), of segments and of regions in two insertion orders"),
    (g_align, "every bit alignment of the region directory with 0..4 and 17 regions"),
    (g_props, "prop fields: all 56 scales, limits of every field, positions with both signs"),
    (g_ents, "entity fields: every registered and several unregistered type names, limits of every field, fractional positions with both signs, all sequences of up to 4 (thorough 5) ordinary and extended names"),
    (g_ids, "all pairs of 12 boundary ids for props, entities and backdrop props"),
    (g_stacked, "tiles of the layers 7, 18, 19, 20 on one cell of a level or backdrop: all combinations of absent, clean and two kinds of filth"),
    (g_order, "objects in two regions at all pairs of extreme region coordinates, both axes"),
    (g_meta, "thumbnails and level variables of boundary sizes; thumbnails and strings starting and ending with every byte value"),
)


BULK = (2, 17, 258)


def bulk(n):
    """A level whose first region holds n * 65534 incompressible bytes (in entity variables,
    laid out so that the strings are byte aligned) and two more regions behind it."""
    from hashlib import shake_128

    from dustmaker import Level
    from dustmaker.entity import EnemyBear
    from dustmaker.tile import Tile, TileShape
    from dustmaker.variable import VariableBool, VariableString

    lv = Level()
    lv.variables.clear()
    data = shake_128(b"bulk").digest(65534 * n)
    e = EnemyBear()
    e.variables["bool"] = VariableBool(True)
    for i in range(n):
        e.variables[f"k{i:04d}"] = VariableString(data[65534 * i : 65534 * (i + 1)])
    lv.add_entity(100.0, 50.0, e, 200)
    for i, x in enumerate((40, 256, 512)):
        lv.tiles[19, x, 300 * (i % 2)] = Tile(TileShape(i + 1), sprite_tile=i + 7)
    return lv, data
