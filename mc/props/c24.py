"""C24: equality and hashing of tiles and variables agree."""
import copy
import itertools

from mc import geom as G
from mc import ref
from mc.core import Prop, Violated, require, same

PROP = Prop("C24")
PROP.assumptions = ["no NaN values", "edge data pairs are tuples as documented"]

E1 = (True, False, (True, False), (3, -4), 2, False, (False, True), (5, 6))
BASE = (1, 4, 2, 7, 3, (E1, ref.BLANK_EDGE, E1, E1))


def edge_variants(e):
    yield (not e[0],) + e[1:]
    yield e[:1] + (not e[1],) + e[2:]
    for i in range(2):
        yield e[:2] + (flip(e[2], i),) + e[3:]
        yield e[:3] + (bump(e[3], i),) + e[4:]
        yield e[:6] + (flip(e[6], i),) + e[7:]
        yield e[:7] + (bump(e[7], i),)
    yield e[:3] + (e[3][::-1],) + e[4:]
    yield e[:4] + ((e[4] + 1) % 8,) + e[5:]
    yield e[:5] + (not e[5],) + e[6:]


def flip(p, i):
    return tuple((not v) if k == i else v for k, v in enumerate(p))


def bump(p, i):
    return tuple(v + 1 if k == i else v for k, v in enumerate(p))


def tiles():
    out = [BASE, BASE[:5] + ((ref.BLANK_EDGE,) * 4,)]
    for s in range(21):
        out.append((s,) + BASE[1:])
    for f in range(8):
        out.append(BASE[:1] + (f,) + BASE[2:])
    for f in range(8):
        out.append(BASE[:2] + (f,) + BASE[3:])
    for f in (0, 1, 8, 255):
        out.append(BASE[:3] + (f,) + BASE[4:])
    for f in (0, 1, 15):
        out.append(BASE[:4] + (f,) + BASE[5:])
    for s in range(4):
        for e in edge_variants(BASE[5][s]):
            ed = list(BASE[5])
            ed[s] = e
            out.append(BASE[:5] + (tuple(ed),))
    # values with equal hashes, signs and bits
    for s in range(4):
        for at in (3, 7):
            for pair in ((-1, -2), (-2, -1), (-1, -1), (-2, -2), (1, 2), (2, 1), (0, 0), (3, 4), (-3, -4), (4, 3), (127, -128), (45, -45), (0, 45), (0, -45), (45, 0)):
                ed = list(BASE[5])
                ed[s] = E1[:at] + (pair,) + E1[at + 1 :]
                out.append(BASE[:5] + (tuple(ed),))
        for a in itertools.product((False, True), repeat=2):
            for b in itertools.product((False, True), repeat=2):
                ed = list(BASE[5])
                ed[s] = a + (b,) + E1[3:]
                out.append(BASE[:5] + (tuple(ed),))
    for perm in itertools.permutations(BASE[5]):
        out.append(BASE[:5] + (tuple(perm),))
    seen = []
    for t in out:
        if t not in seen:
            seen.append(t)
    return seen


TILES = tiles()

VARS = [
    ("b", False), ("b", True), ("i", 0), ("i", 1), ("i", -1), ("i", 2**31 - 1), ("u", 0), ("u", 1), ("u", 2**32 - 1),
    ("f", 0.0), ("f", 1.0), ("f", -1.0), ("f", 0.5), ("s", b""), ("s", b"a"), ("s", b"\x00"), ("s", b"a\x00"),
    ("v", (0.0, 0.0)), ("v", (1.0, 0.0)), ("v", (0.0, 1.0)), ("v", (1.0, 1.0)),
    ("S", ()), ("S", (("a", ("i", 0)),)), ("S", (("a", ("u", 0)),)), ("S", (("b", ("i", 0)),)), ("S", (("a", ("i", 1)),)),
    ("S", (("a", ("i", 0)), ("b", ("i", 1)))), ("S", (("a", ("i", 1)), ("b", ("i", 0)))),
    ("S", (("a", ("S", ())),)), ("S", (("a", ("S", (("a", ("i", 0)),))),)), ("S", (("a", ("A", "i", ())),)),
]
for _k in "biufsvSA":
    VARS.append(("A", _k, ()))
VARS += [
    ("A", "i", (("i", 0),)), ("A", "i", (("i", 1),)), ("A", "i", (("i", 0), ("i", 1))), ("A", "i", (("i", 1), ("i", 0))), ("A", "u", (("u", 0),)),
    ("A", "i", (("i", 0), ("i", 0))), ("A", "b", (("b", False),)), ("A", "f", (("f", 0.0),)), ("A", "s", (("s", b""),)),
    ("A", "S", (("S", ()),)), ("A", "S", (("S", (("a", ("i", 0)),)),)), ("A", "A", (("A", "i", ()),)), ("A", "A", (("A", "u", ()),)),
    ("A", "A", (("A", "i", (("i", 0),)),)), ("A", "v", (("v", (0.0, 0.0)),)), ("A", "A", (("A", "i", ()), ("A", "u", ()))),
]


VARS += [
    ("i", -2), ("i", 2), ("i", -(2**31)), ("u", 2**31), ("u", 2), ("i", 256), ("i", 257), ("u", 256), ("f", -2.0), ("f", 2.0), ("f", 1e300), ("f", 2.0**-40),
    ("v", (-1.0, -2.0)), ("v", (-2.0, -1.0)), ("v", (-1.0, -1.0)), ("v", (-2.0, -2.0)), ("v", (2.0, -1.0)),
    ("s", b"A"), ("s", b"a "), ("s", b" a"), ("s", b"ab"), ("s", b"ba"), ("s", b"b"), ("s", b"\xff"), ("s", b"0"), ("s", b"1"), ("s", b"x" * 300), ("s", b"x" * 299 + b"y"),
    ("A", "i", (("i", -1),)), ("A", "i", (("i", -2),)), ("A", "i", (("i", -1), ("i", -2))), ("A", "i", (("i", -2), ("i", -1))),
    ("A", "i", tuple(("i", k) for k in range(100))), ("A", "i", tuple(("i", k if k != 99 else 0) for k in range(100))), ("A", "i", tuple(("i", k if k != 50 else 0) for k in range(100))),
    ("A", "s", (("s", b"a"), ("s", b"b"))), ("A", "s", (("s", b"b"), ("s", b"a"))), ("A", "s", (("s", b"ab"),)),
    ("S", (("a", ("i", -1)),)), ("S", (("a", ("i", -2)),)), ("S", (("a", ("i", -1)), ("b", ("i", -2)))), ("S", (("a", ("i", -2)), ("b", ("i", -1)))),
    ("S", (("A", ("i", 0)),)), ("S", (("a ", ("i", 0)),)), ("S", tuple((f"k{k}", ("i", k)) for k in range(40))), ("S", tuple((f"k{k}", ("i", k if k != 39 else 0)) for k in range(40))),
    ("A", "v", (("v", (1.0, 2.0)),)), ("A", "v", (("v", (2.0, 1.0)),)), ("A", "b", (("b", True), ("b", False))), ("A", "b", (("b", False), ("b", True))),
]


class Foreign:
    pass


def relation(ctx, a, b, want, what):
    ctx.step()
    for got in (a == b, b == a):
        require(got is True or got is False, what, "== does not give a bool:", got)
        same(got, want, f"{what}: ==")
    for got in (a != b, b != a):
        same(got, not want, f"{what}: !=")
    ha, hb = hash(a), hash(b)
    require(isinstance(ha, int), "hash")
    if want:
        same(ha, hb, f"{what}: hashes of equal objects")
        same(len({a, b}), 1, f"{what}: size of the set")
        same({a: 1}.get(b), 1, f"{what}: dictionary lookup")
    else:
        same(len({a, b}), 2, f"{what}: size of the set")
        require({a: 1}.get(b) is None, what, "found in a dictionary")


def g_tiles(tier):
    for i in range(len(TILES)):
        yield (i,)


@PROP.family(g_tiles, "all pairs of tiles differing in every single field (shape, flags, sprite, every field of every edge) and all permutations of edges, built separately; copies; after changing one and changing it back")
def tile_pairs(ctx, case):
    (i,) = case
    a = ref.build_tile(TILES[i])
    for j in range(len(TILES)):
        b = ref.build_tile(TILES[j])
        relation(ctx, a, b, i == j, f"tiles {TILES[i]} and {TILES[j]}")
    relation(ctx, a, a, True, "a tile and itself")
    relation(ctx, a, copy.deepcopy(a), True, "a tile and its copy")
    b = copy.deepcopy(a)
    b.edge_data[3].visible = not b.edge_data[3].visible
    relation(ctx, a, b, False, "changed copy")
    b.edge_data[3].visible = not b.edge_data[3].visible
    relation(ctx, a, b, True, "restored copy")
    foreign(ctx, a)
    ctx.state(case)


def foreign(ctx, a):
    for o in (None, 0, 1, "x", b"", (), [], {}, Foreign(), object(), ref.build_var(("i", 1)), ref.build_tile(BASE), ref.build_prop((1, 0, False, False, 1.0, 1, 2, 3, 4))):
        if type(o) is type(a) or (hasattr(o, "assert_types") and hasattr(a, "assert_types")):
            continue
        ctx.step()
        require((a == o) is False and (o == a) is False and a != o, "equal to a foreign object", a, o)
    for x in (getattr(a, "value", None), getattr(a, "shape", None)):
        if x is not None:
            require(not a == x and not x == a, "equal to its own value", x)


def g_vars(tier):
    for i in range(len(VARS)):
        yield (i,)


def rebuild(t):
    """A second object with the same value, struct keys inserted in the other order."""
    if t[0] == "S":
        return ("S", tuple(reversed([(k, rebuild(v)) for k, v in t[1]])))
    if t[0] == "A":
        return ("A", t[1], tuple(rebuild(v) for v in t[2]))
    return t


@PROP.family(g_vars, "all pairs of 105 variables of every kind, nested, with equal looking values of different kinds; struct keys in either order; foreign objects")
def var_pairs(ctx, case):
    (i,) = case
    a = ref.build_var(VARS[i])
    for j in range(len(VARS)):
        for b in (ref.build_var(VARS[j]), ref.build_var(rebuild(VARS[j]))):
            relation(ctx, a, b, i == j, f"variables {VARS[i]} and {VARS[j]}")
    relation(ctx, a, a, True, "a variable and itself")
    relation(ctx, a, copy.deepcopy(a), True, "a variable and its copy")
    foreign(ctx, a)
    # nesting in containers keeps the relation
    for j in range(len(VARS)):
        b = ref.build_var(VARS[j])
        same({"k": a} == {"k": b}, i == j, "in a dict")
        sa, sb = ref.build_var(("S", (("k", VARS[i]),))), ref.build_var(("S", (("k", VARS[j]),)))
        relation(ctx, sa, sb, i == j, f"structs of {VARS[i]} and {VARS[j]}")
    ctx.state(case)


def g_real(tier):
    yield (0,)


@PROP.family(g_real, "all tiles and level variables of a level read twice from the same bytes are pairwise equal with equal hashes")
def read_twice(ctx, case):
    import os
    from dustmaker import read_level, write_level
    from mc import levelcases

    spec = ref.empty_level()
    for i, t in enumerate(TILES):
        spec["tiles"][(19, i, 0)] = G.blank_missing(t)
    spec["vars"] = levelcases.VARS
    data = write_level(ref.build_level(spec))
    a, b = read_level(data), read_level(data)
    for k in a.tiles:
        relation(ctx, a.tiles[k], b.tiles[k], True, f"tile {k}")
    for k in a.variables:
        relation(ctx, a.variables[k], b.variables[k], True, f"variable {k}")
    same(len(set(a.tiles.values()) | set(b.tiles.values())), len({ref.snap_tile(t) for t in a.tiles.values()}), "distinct tiles")
    ctx.state(case)


def g_made(tier):
    for shape in range(21):
        for op in ("file", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "up1", "up2", "up3", "visible", "caps", "both", "merge", "copy", "sprite", "cli"):
            yield (shape, op)


@PROP.family(g_made, "tiles that every operation leaves behind (reading, all symmetries, upscaling, edge calculations, merging, copying) x 21 shapes: equal to a tile built from the same values, with the same hash")
def produced(ctx, case):
    from dustmaker import Level, read_level, write_level

    shape, op = case
    spec = ref.empty_level()
    for i in range(9):
        t = (shape if i % 2 == 0 else (shape * 5 + i) % 21,) + BASE[1:5] + (tuple((True, True) + E1[2:] if (s + i) % 3 else E1 for s in range(4)),)
        spec["tiles"][(19, i % 3, i // 3)] = G.blank_missing(t)
        spec["bd_tiles"][(3, i % 3, i // 3)] = G.blank_missing(t)
    lv = ref.build_level(spec)
    if op == "file":
        lv = read_level(write_level(lv))
    elif op[0] == "d":
        lv.transform(G.tx(G.D4[int(op[1])]))
    elif op[:2] == "up":
        lv.upscale(int(op[2]))
    elif op in ("visible", "caps", "both"):
        if op != "caps":
            lv.calculate_edge_visibility()
        if op != "visible":
            lv.calculate_edge_caps()
    elif op == "merge":
        other = Level()
        other.merge(lv)
        lv = other
    elif op == "copy":
        lv = copy.deepcopy(lv)
    elif op == "sprite":
        for t in lv.tiles.values():
            t.set_sprite_tuple((3, 6, 1))
            t.set_dustblock()
    else:
        lv = read_level(write_level(lv))
        lv.upscale(2, mat=G.tx(G.D4[5]))
        lv.translate(48, -96)
        lv = read_level(write_level(lv))
    for where in (lv, lv.backdrop):
        for k, t in where.tiles.items():
            u = ref.build_tile(ref.snap_tile(t))
            relation(ctx, t, u, True, f"{op}: tile {k} and one with its values")
            for s in range(4):
                relation(ctx, t.edge_data[s], u.edge_data[s], True, f"{op}: tile {k} edge {s} and one with its values")
    ctx.state(case)


def g_alike(tier):
    for k in ("zero", "vec", "enum", "bytes", "tuple", "array", "struct", "tile"):
        yield (k,)


@PROP.family(g_alike, "values Python calls equal but writes differently (negative zero, enumeration members, subclasses of bytes and tuple), alone and nested: variables that compare equal have equal hashes and find each other in sets and dictionaries; == and != never agree")
def alike(ctx, case):
    from dustmaker import tile as T
    from dustmaker.level import LevelType
    from dustmaker import variable as V

    class B(bytes):
        pass

    class Pair(tuple):
        pass

    (k,) = case
    lv = LevelType.DUSTMOD
    groups = {
        "zero": [V.VariableFloat(0.0), V.VariableFloat(-0.0), V.VariableFloat(float(0))],
        "vec": [V.VariableVec2((a, b)) for a in (0.0, -0.0) for b in (0.0, -0.0, 1.0)],
        "enum": [V.VariableInt(6), V.VariableInt(lv), V.VariableInt(int(lv)), V.VariableUInt(6), V.VariableUInt(lv)],
        "bytes": [V.VariableString(b"abc"), V.VariableString(B(b"abc")), V.VariableString(bytes(bytearray(b"abc")))],
        "tuple": [V.VariableVec2((1.0, 2.0)), V.VariableVec2(Pair((1.0, 2.0)))],
        "array": [V.VariableArray(V.VariableFloat, [V.VariableFloat(0.0)]), V.VariableArray(V.VariableFloat, [V.VariableFloat(-0.0)])],
        "struct": [V.VariableStruct({"a": V.VariableFloat(0.0)}), V.VariableStruct({"a": V.VariableFloat(-0.0)}), V.VariableStruct({"a": V.VariableInt(6)}), V.VariableStruct({"a": V.VariableInt(lv)})],
    }
    if k == "tile":
        objs = []
        for shape in (T.TileShape.HALF_A, T.TileShape(17)):
            for ss in (T.TileSpriteSet.CITY, T.TileSpriteSet(3)):
                t = T.Tile(shape)
                t.sprite_set = ss
                objs.append(t)
    else:
        objs = groups[k]
    for a in objs:
        for b in objs:
            ctx.step()
            eq = a == b
            require((b == a) is eq and (a != b) is (not eq), k, "== and != disagree", a, b)
            if eq:
                same(hash(a), hash(b), f"{k}: hashes of the equal {a!r} and {b!r}")
                same({a: 1}.get(b), 1, f"{k}: dictionary lookup")
                same(len({a, b}), 1, f"{k}: size of the set")
    ctx.state(case)


def g_later(tier):
    for i in range(len(TILES)):
        yield ("tile", i)
    for i in range(len(VARS)):
        yield ("var", i)


def retile(t, to):
    """Turn the tile `t` into one with the values `to`, in place."""
    want = ref.build_tile(to)
    t.shape = want.shape
    t.tile_flags = want.tile_flags
    t.sprite_set = want.sprite_set
    t.sprite_tile = want.sprite_tile
    t.sprite_palette = want.sprite_palette
    for e, w in zip(t.edge_data, want.edge_data):
        for f in ("solid", "visible", "caps", "angles", "filth_sprite_set", "filth_spike", "filth_caps", "filth_angles"):
            setattr(e, f, getattr(w, f))


@PROP.family(g_later, "every tile and variable is compared and hashed, then changed in place into each of a set of others (fields, edges, values, elements, entries): it then relates to fresh objects by its new value")
def changed_later(ctx, case):
    kind, i = case
    if kind == "tile":
        for j in range(i % 7, len(TILES), 7):
            t = ref.build_tile(TILES[i])
            relation(ctx, t, ref.build_tile(TILES[i]), True, "before")
            retile(t, TILES[j])
            relation(ctx, t, ref.build_tile(TILES[j]), True, f"tile {TILES[i]} changed into {TILES[j]}")
            relation(ctx, t, ref.build_tile(TILES[i]), i == j, f"tile {TILES[j]} that was {TILES[i]}")
        t = ref.build_tile(TILES[i])
        hash(t), [hash(e) for e in t.edge_data]
        e = ref.build_tile(BASE).edge_data[1]
        for s in range(4):
            t.edge_data[s] = copy.deepcopy(e)
            relation(ctx, t, ref.build_tile(TILES[i][:5] + ((BASE[5][1],) * (s + 1) + TILES[i][5][s + 1 :],)), True, f"edge {s} replaced")
    else:
        for j in range(len(VARS)):
            a, b = ref.build_var(VARS[i]), ref.build_var(VARS[j])
            relation(ctx, a, ref.build_var(VARS[i]), True, "before")
            if type(a) is type(b):
                a.value = b.value
                relation(ctx, a, ref.build_var(VARS[j]), True, f"{VARS[i]} changed into {VARS[j]}")
                relation(ctx, a, ref.build_var(VARS[i]), i == j, f"{VARS[j]} that was {VARS[i]}")
            # inside a struct, and inside an array of its kind
            s = ref.build_var(("S", (("k", VARS[i]), ("l", ("i", 4)))))
            hash(s), s == s
            s.value["k"] = b
            relation(ctx, s, ref.build_var(("S", (("k", VARS[j]), ("l", ("i", 4))))), True, "struct entry replaced")
            del s.value["l"]
            relation(ctx, s, ref.build_var(("S", (("k", VARS[j]),))), True, "struct entry removed")
            s.value["m"] = ref.build_var(VARS[i])
            relation(ctx, s, ref.build_var(("S", (("k", VARS[j]), ("m", VARS[i])))), True, "struct entry added")
            if VARS[i][0] == VARS[j][0]:
                k = VARS[i][0]
                arr = ref.build_var(("A", k, (VARS[i], VARS[i])))
                outer = ref.build_var(("S", ()))
                outer.value["x"] = arr
                hash(arr), arr == arr, hash(outer), outer == outer
                steps = [
                    (lambda: arr.__setitem__(1, b.value), (VARS[i], VARS[j])),
                    (lambda: arr.append(b.value), (VARS[i], VARS[j], VARS[j])),
                    (lambda: arr.insert(0, b.value), (VARS[j], VARS[i], VARS[j], VARS[j])),
                    (lambda: arr.pop(), (VARS[j], VARS[i], VARS[j])),
                    (lambda: arr.__delitem__(0), (VARS[i], VARS[j])),
                    (lambda: arr.reverse(), (VARS[j], VARS[i])),
                    (lambda: setattr(arr.value[1][0], "value", ref.build_var(VARS[i]).value), (VARS[i], VARS[i])),
                ]
                for n, (go, want) in enumerate(steps):
                    go()
                    relation(ctx, arr, ref.build_var(("A", k, want)), True, f"array after change {n}")
                    relation(ctx, outer, ref.build_var(("S", (("x", ("A", k, want)),))), True, f"struct around the array after change {n}")
    ctx.state(case)


def g_large(tier):
    for kind in ("A", "AA", "S", "SA", "s", "AS"):
        for n in (65, 129, 201, 257, 1025, 4097) if tier == "quick" else (65, 129, 201, 257, 513, 1025, 4097, 20000, 65535):
            yield (kind, n)


def large_tree(kind, n, at=None):
    """A tree of n parts; part `at` differs."""
    if kind == "s":
        return ("s", bytes(i * 7 % 251 + (i == at) for i in range(n)))
    leaf = [("i", i * 7 % 1000 + 5000 * (i == at)) for i in range(n)]
    if kind == "A":
        return ("A", "i", tuple(leaf))
    if kind == "AA":
        return ("A", "A", tuple(("A", "i", (x,)) for x in leaf))
    if kind == "AS":
        return ("A", "S", tuple(("S", (("k", x), ("l", ("s", b"q")))) for x in leaf))
    if kind == "SA":
        return ("S", (("a", ("A", "i", tuple(leaf))), ("b", ("i", 1))))
    return ("S", tuple((f"k{i}", x) for i, x in enumerate(leaf)))


@PROP.family(g_large, "strings, arrays and structs of up to 4097 (thorough 65535) parts, also nested, built separately: equal ones have equal hashes, ones that differ in a single part (first, last, every power of two, and next to it) or in one part more are not equal")
def large(ctx, case):
    kind, n = case
    t = large_tree(kind, n)
    a = ref.build_var(t)
    relation(ctx, a, ref.build_var(t), True, f"{case}: two of the same")
    relation(ctx, a, ref.build_var(rebuild(t)), True, f"{case}: struct keys in the other order")
    relation(ctx, a, copy.deepcopy(a), True, f"{case}: a copy")
    ats = {0, 1, n // 2, n - 2, n - 1}
    k = 2
    while k < n:
        ats |= {k - 1, k}
        k *= 2
    for at in sorted(ats):
        relation(ctx, a, ref.build_var(large_tree(kind, n, at)), False, f"{case}: part {at} differs")
    relation(ctx, a, ref.build_var(large_tree(kind, n - 1)), False, f"{case}: one part less")
    ctx.state(case)
