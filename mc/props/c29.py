"""C29: writing is pure and repeatable, and objects are isolated."""
import copy
import io
import itertools
from collections.abc import MutableMapping, MutableSequence

from mc import geom as G
from mc import levelcases as L
from mc import ref
from mc import replaycases as R
from mc.core import Prop, Violated, require, same
from mc.entities import TYPES, UNKNOWN
from mc.props.c04 import FILE_TREES, ONE

PROP = Prop("C29")
PROP.case_cpu_s = 600.0
PROP.assumptions = ["objects handed to a constructor or stored in a container by the caller are the caller's to share"]


# --- changing everything that can be changed ------------------------------------------


def scramble_var(v):
    cls = ref._classes()
    k = next(k for k, c in cls.items() if type(v) is c)
    if k == "S":
        for e in list(v.value.values()):
            scramble_var(e)
        v.value["zz_new"] = cls["i"](1)
    elif k == "A":
        etype, elems = v.value
        for e in list(elems):
            scramble_var(e)
        ek = next(kk for kk, c in cls.items() if c is etype)
        elems.append(ref.build_var(ONE[ek]))
        elems.reverse()
    elif k == "b":
        v.value = not v.value
    elif k in "iu":
        v.value = 12345 if v.value != 12345 else 54321
    elif k == "f":
        v.value = 0.75 if v.value != 0.75 else 0.5
    elif k == "s":
        v.value = v.value + b"!"
    else:
        v.value = (9.0, 8.0) if v.value != (9.0, 8.0) else (7.0, 6.0)


def scramble_map(m):
    for v in list(m.values()):
        scramble_var(v)
    m["zz_new"] = ref.build_var(("i", 1))


def scramble_tile(t):
    from dustmaker.tile import TileEdgeData, TileShape, TileSpriteSet

    for e in t.edge_data:
        e.solid = not e.solid
        e.visible = not e.visible
        e.caps = (not e.caps[0], not e.caps[1])
        e.angles = (e.angles[0] + 1, e.angles[1] - 1)
        e.filth_sprite_set = TileSpriteSet((e.filth_sprite_set + 1) % 8)
        e.filth_spike = not e.filth_spike
        e.filth_caps = (not e.filth_caps[0], not e.filth_caps[1])
        e.filth_angles = (e.filth_angles[0] + 1, e.filth_angles[1] - 1)
    t.edge_data[0], t.edge_data[3] = t.edge_data[3], TileEdgeData()
    t.shape = TileShape((t.shape + 1) % 21)
    t.tile_flags ^= 7
    t.sprite_set = TileSpriteSet((t.sprite_set + 1) % 8)
    t.sprite_tile = (t.sprite_tile + 1) % 256
    t.sprite_palette = (t.sprite_palette + 1) % 16


def scramble_prop(p):
    p.layer_sub += 1
    p.rotation = (p.rotation + 99) & 0xFFFF
    p.flip_x, p.flip_y = not p.flip_x, not p.flip_y
    p.scale = 2.0 if p.scale == 1.0 else 1.0
    p.prop_set += 1
    p.prop_group += 1
    p.prop_index += 1
    p.palette += 1


def scramble_entity(e):
    scramble_map(e.variables)
    e.rotation = (e.rotation + 99) & 0xFFFF
    e.layer += 1
    e.flip_x, e.flip_y, e.visible = not e.flip_x, not e.flip_y, not e.visible


def scramble_level(lv, deep=True):
    for l in (lv, lv.backdrop):
        if l is None:
            continue
        if deep:
            for t in l.tiles.values():
                scramble_tile(t)
            for v in l.props.values():
                scramble_prop(v[3])
            for v in l.entities.values():
                scramble_entity(v[2])
        l.tiles[(3, 77, 77)] = ref.build_tile(L.PLAIN)
        l.add_prop(1, 2.0, 3.0, ref.build_prop(L.PROPV))
    lv.add_entity(1.0, 1.0, ref.build_entity(L.ENTV))
    scramble_map(lv.variables)
    lv.sshot += b"!"
    lv.name = b"other name"
    lv.start_position(1).x = 4242


def scramble_replay(rep):
    from dustmaker import replay as RP

    for pl in rep.players:
        for it in list(pl.intents):
            pl.intents[it].append(1)
            pl.intents[it].insert(0, 1)
        pl.intents[RP.IntentStream(2)] = [1, 2, 1]
        pl.character = RP.Character((pl.character + 1) % 8)
    for ed in rep.entities.values():
        for f in ed.frames:
            f.frame += 1
            f.x_pos += 1
            f.y_pos += 1
            f.x_speed += 1
            f.y_speed += 1
        ed.frames.append(RP.EntityFrame(1, 2.0, 3.0, 4.0, 5.0))
    rep.players.append(RP.PlayerData())
    rep.entities[424242] = RP.EntityData()
    rep.level += b"!"
    rep.username += b"!"
    rep.frames += 1


def raw_snap(rep):
    """Everything, without trimming."""
    return (
        rep.version, rep.username, rep.level, rep.frames,
        [(int(p.character), {int(i): list(v) for i, v in p.intents.items()}) for p in rep.players],
        {k: [(f.frame, f.x_pos, f.y_pos, f.x_speed, f.y_speed) for f in d.frames] for k, d in rep.entities.items()},
    )


# --- writing --------------------------------------------------------------------------

PREFILL = b"\xff\xa5" * 4000


def writes(ctx, fn, obj, snap, what):
    """fn(writer, obj): same bytes every time, wherever it is written; obj unchanged."""
    from dustmaker import DFWriter

    before = snap(obj)

    def out(off=0, prefill=False, twice=False):
        f = io.BytesIO()
        if prefill:
            f.write(PREFILL)
        f.seek(0)
        f.write(b"\x5a" * off)
        w = DFWriter(f, noclose=True)
        fn(w, obj)
        end = w.bit_tell() // 8
        if twice:
            fn(w, obj)
        w.close()
        ctx.step()
        data = f.getvalue()
        same(data[:off], b"\x5a" * off, f"{what}: bytes before the start position")
        if prefill:
            require(data[w.bit_tell() // 8 :] == PREFILL[w.bit_tell() // 8 :], what, "changed bytes behind the end")
            data = data[: w.bit_tell() // 8]
        same(snap(obj), before, f"{what}: object after writing it")
        return data[off:] if not twice else (data[off:end], data[end:])

    first = out()
    same(out(), first, f"{what}: written again")
    for off in (1, 7, 100):
        same(out(off), first, f"{what}: written at offset {off}")
    if len(first) < len(PREFILL) - 200:
        same(out(0, True), first, f"{what}: written over existing bytes")
        same(out(3, True), first, f"{what}: written over existing bytes at offset 3")
    a, b = out(2, twice=True)
    same(a, first, f"{what}: first of two copies in one stream")
    same(b, first, f"{what}: second of two copies in one stream")
    return first


def pick(gen, tier, n_quick, n_thorough=10**9):
    cases = list(gen(tier))
    n = n_quick if tier == "quick" else n_thorough
    step = max(1, -(-len(cases) // n))
    return cases[::step]


def g_wlevel(tier):
    for gen, _ in L.GENERATORS:
        yield from pick(gen, tier, 40, 400)


@PROP.family(g_wlevel, "every stated step-th level of each generator of C06 (up to 40, thorough 400 each): written repeatedly, at offsets, over existing bytes, twice in a stream; level unchanged")
def write_levels(ctx, case):
    spec = L.make(case)
    lv = ref.build_level(spec)
    data = writes(ctx, lambda w, o: w.write_level(o), lv, ref.snap_level, "level")
    from dustmaker import read_level, write_level

    same(write_level(lv), data, "write_level")
    one, two = read_level(data), read_level(data)
    s = ref.snap_level(one)
    same(ref.snap_level(two), s, "level read a second time")
    scramble_level(one)
    same(ref.snap_level(two), s, "level after changing another one read from the same bytes")
    same(ref.snap_level(read_level(data)), s, "level read again after changes to one read before")
    same(write_level(two), write_level(read_level(data)), "bytes of the untouched level")
    ctx.state(data)


def g_wreplay(tier):
    for gen, _ in R.GENERATORS:
        yield from pick(gen, tier, 40, 400)


@PROP.family(g_wreplay, "the same for replays, up to 40 (thorough 400) per generator of C10")
def write_replays(ctx, case):
    from dustmaker import DFReader

    rep = R.build(R.make(case))
    data = writes(ctx, lambda w, o: w.write_replay(o), rep, raw_snap, "replay")
    one, two = (DFReader(io.BytesIO(data)).read_replay() for _ in range(2))
    s = raw_snap(one)
    same(raw_snap(two), s, "replay read a second time")
    scramble_replay(one)
    same(raw_snap(two), s, "replay after changing another one read from the same bytes")
    same(raw_snap(DFReader(io.BytesIO(data)).read_replay()), s, "replay read again")
    # copies
    cp = copy.deepcopy(two)
    same(raw_snap(cp), s, "copy")
    scramble_replay(cp)
    same(raw_snap(two), s, "replay after changing its copy")
    ctx.state(data)


def g_wvar(tier):
    for i in range(len(FILE_TREES)):
        yield ("file", i)
    for i in range(len(L.META_TREES)):
        yield ("meta", i)
    for k in ONE:
        yield ("one", k)


@PROP.family(g_wvar, "the same for variable files and trees of every kind")
def write_variables(ctx, case):
    from dustmaker import DFReader

    tree = {"file": lambda i: FILE_TREES[i], "meta": lambda i: L.META_TREES[i], "one": lambda k: ("S", (("k", ONE[k]), ("j", ONE[k])))}[case[0]](case[1])
    m = ref.build_map(tree)
    data = writes(ctx, lambda w, o: w.write_var_file(b"DF_STA", o), m, ref.snap_map, "variable file")
    one, two = (DFReader(io.BytesIO(data)).read_var_file(b"DF_STA") for _ in range(2))
    s = ref.snap_map(one)
    scramble_map(one)
    same(ref.snap_map(two), s, "variables after changing others read from the same bytes")
    cp = copy.deepcopy(two)
    scramble_map(cp)
    same(ref.snap_map(two), s, "variables after changing their copy")
    for k in list(two):
        v = two[k]
        before = {j: ref.snap_var(x) for j, x in two.items() if j != k}
        scramble_var(v)
        same({j: ref.snap_var(x) for j, x in two.items() if j != k}, before, f"other variables after changing {k}")
    ctx.state(data)


# --- isolation ------------------------------------------------------------------------


def g_fresh(tier):
    for s in range(21):
        yield ("tile", s)
    yield ("prop", 0)
    yield ("level", 0)
    yield ("replay", 0)
    for t in TYPES + UNKNOWN:
        yield ("ent", t)
    for k in "biufsvSA":
        yield ("arr", k)
    yield ("struct", 0)


def fresh(kind, arg):
    """(make, snap, scramble)"""
    from dustmaker.level import Level
    from dustmaker.replay import PlayerData, Replay, EntityData
    from dustmaker.tile import Tile, TileShape
    from dustmaker.entity import Entity

    cls = ref._classes()
    if kind == "tile":
        return (lambda: Tile(TileShape(arg))), ref.snap_tile, scramble_tile
    if kind == "prop":
        return (lambda: ref.build_prop(L.PROPV)), ref.snap_prop, scramble_prop
    if kind == "level":
        return Level, ref.snap_level, scramble_level
    if kind == "replay":
        return Replay, raw_snap, scramble_replay
    if kind == "arr":
        return (lambda: cls["A"](cls[arg])), ref.snap_var, scramble_var
    if kind == "struct":
        return (lambda: cls["S"]()), ref.snap_var, scramble_var
    ecls = ref.entity_classes().get(arg)

    def mk():
        e = (ecls or Entity)()
        if ecls is None:
            e.etype = arg
        return e

    return mk, ref.snap_entity, scramble_entity


@PROP.family(g_fresh, "two new objects of every kind (all tile shapes, all entity types): changing one changes neither the other nor later ones")
def fresh_objects(ctx, case):
    make, snap, scramble = fresh(*case)
    a, b = make(), make()
    s = snap(a)
    same(snap(b), s, "second new object")
    scramble(a)
    scramble(a)
    ctx.step(3)
    require(snap(a) != s, "scrambling changed nothing")
    same(snap(b), s, "new object after changing another one")
    same(snap(make()), s, "object created after changing another one")
    c = copy.deepcopy(b)
    scramble(c)
    same(snap(b), s, "object after changing its copy")
    scramble(b)
    same(snap(make()), s, "object created later")
    ctx.state(case)


TREE = ("S", (
    ("n", ("i", 1)), ("s", ("s", b"abc")), ("v", ("v", (1.0, 2.0))),
    ("a", ("A", "i", (("i", 1), ("i", 2)))), ("aa", ("A", "A", (("A", "i", (("i", 3),)), ("A", "i", ())))),
    ("st", ("S", (("x", ("i", 4)), ("y", ("S", (("z", ("A", "f", (("f", 0.5),))),))), ("w", ("A", "S", (("S", (("q", ("b", True)),)),)))))),
    ("nodes", ("A", "v", (("v", (5.0, 6.0)),))), ("width", ("i", 12)),
))


TREES = (TREE, ("S", ()), ("S", (("n", ("i", 1)),)), ("S", (("a", ("A", "i", ())), ("b", ("S", ())))))


def g_given(tier):
    for t in TYPES + UNKNOWN:
        for i in range(len(TREES)):
            yield (t, i)


@PROP.family(g_given, "entities of every type made from the same variables (none, one, many, empty and nested lists), and the variables themselves: changing, transforming or renumbering one changes none of the others")
def given_variables(ctx, case):
    t, given = case
    from dustmaker.entity import Entity
    from mc import geom as G

    cls = ref.entity_classes().get(t, Entity)
    src = ref.build_map(TREES[given])
    es = [cls(src), cls(variables=src), cls(src, 5, 3)]
    # and from the variables of another entity
    es.append(cls(es[0].variables))
    want = [ref.snap_entity(e) for e in es]
    tree = ref.snap_map(src)
    for w in want:
        same(w[1], tree, "variables of a new entity")
    for i, e in enumerate(es):
        e.transform(G.tx(G.D4[5], 7, 9))
        e.remap_ids({1: 2, 12: 13})
        scramble_entity(e)
        ctx.step()
        same(ref.snap_map(src), tree, f"{t}: variables the entity was made from, after changing entity {i}")
        for j in range(i + 1, len(es)):
            same(ref.snap_entity(es[j]), want[j], f"{t}: entity {j} after changing entity {i}, both made from the same variables")
    last = cls(src)
    want = ref.snap_entity(last)
    scramble_map(src)
    same(ref.snap_entity(last), want, f"{t}: entity after changing the variables it was made from")
    ctx.state(case)


def value_snap(v):
    if isinstance(v, MutableSequence):
        return [value_snap(x) for x in v]
    if isinstance(v, (dict, MutableMapping)):
        return {k: value_snap(x) for k, x in v.items()}
    if hasattr(v, "value") and type(v) in ref._classes().values():
        return ref.snap_var(v)
    return v


GROW = (b"x", 1, 1.0, True, (1.0, 2.0), {}, "x")


def g_views(tier):
    yield "level"
    for t in TYPES:
        yield t


@PROP.family(g_views, "every named property of levels and all entity types: changing the list or mapping it gives on one object shows on no other object")
def named_views(ctx, kind):
    from dustmaker.level import Level

    cls = Level if kind == "level" else ref.entity_classes()[kind]
    names = [n for n in dir(cls) if isinstance(getattr(cls, n), property)]
    n = 0
    for name in names:
        try:
            pristine = value_snap(getattr(cls(), name))
        except Exception:  # a property may need more than a fresh object
            continue
        a = cls()
        v = getattr(a, name)
        ctx.step()
        if isinstance(v, MutableSequence):
            for g in GROW:
                try:
                    v.append(g)
                except Exception:  # an element of another type
                    continue
            n += 1
        elif isinstance(v, dict):
            v["zz_new"] = ref.build_var(("i", 1))
            n += 1
        elif type(v) in ref._classes().values():
            scramble_var(v)
            n += 1
        same(value_snap(getattr(cls(), name)), pristine, f"{kind}.{name} of a new object after changing that of another")
        while isinstance(v, MutableSequence) and len(v):
            v.pop()
    ctx.outcome("mutable named properties", n)
    ctx.state(kind, n)


def g_vhist(tier):
    for kind in ("level",) + tuple(TYPES):
        yield kind


HIST_OPS = tuple((op, who) for op in "rap" for who in (0, 1))


@PROP.family(g_vhist, "every array property of levels and all entity types x all histories of up to 4 of read, append and remove on two objects: each object has exactly its own elements, whether its list was kept or read again")
def view_histories(ctx, kind):
    from dustmaker.level import Level

    cls = Level if kind == "level" else ref.entity_classes()[kind]
    names = []
    for name in dir(cls):
        if isinstance(getattr(cls, name), property):
            try:
                v = getattr(cls(), name)
            except Exception:  # a property may need more than a fresh object
                continue
            if isinstance(v, MutableSequence) and not len(v):
                for g in GROW:
                    try:
                        v.append(g)
                    except Exception:  # an element of another type
                        continue
                    v.pop()
                    names.append((name, g))
                    break
    for name, g in names:
        for ln in range(1, 5):
            for h in itertools.product(HIST_OPS, repeat=ln):
                objs, kept, n = [cls(), cls()], [None, None], [0, 0]
                for op, who in h:
                    if op == "r":
                        kept[who] = getattr(objs[who], name)
                        continue
                    v = kept[who] if kept[who] is not None else getattr(objs[who], name)
                    if op == "a":
                        v.append(g)
                        n[who] += 1
                    elif n[who]:
                        v.pop()
                        n[who] -= 1
                ctx.step(ln)
                got = [len(getattr(o, name)) for o in objs]
                require(got == n and len(getattr(cls(), name)) == 0, f"{kind}.{name} of two objects after {h}: lengths", got, "expected", n)
                for o in objs:
                    while len(getattr(o, name)):
                        getattr(o, name).pop()
    ctx.state(kind, len(names))


def rich(v=0):
    spec = ref.empty_level()
    for i in range(6):
        for kind in L.KINDS:
            L.put(spec, kind, (i * 9 - 20, (i * 7 + v) % 40 - 20), i + v)
    for j, sh in enumerate(range(21)):
        spec["tiles"][(7, j, 50)] = (sh, j % 8, 1 + j % 5, j, j % 16, tuple(e[:3] + ((5, -5),) + e[4:7] + ((3, -3),) for e in L.EDGES))
    for part in ("tiles", "bd_tiles"):  # angles that flips keep storable
        for k, t in spec[part].items():
            spec[part][k] = t[:5] + (tuple(e[:3] + ((5, -5),) + e[4:7] + ((3, -3),) for e in t[5]),)
    spec["vars"] = L.META_TREES[3] if v == 0 else ("S", (("k", ("A", "i", (("i", v),))), ("st", ("S", (("x", ("s", b"a")),)))))
    return spec


def each_tile_alone(ctx, lv, what):
    """Marks every tile and edge differently: every mark must still be there."""
    tiles = [((n, k), t) for n, l in (("level", lv), ("backdrop", lv.backdrop)) for k, t in l.tiles.items()]
    for i, (_, t) in enumerate(tiles):
        t.sprite_tile = i
        for s, e in enumerate(t.edge_data):
            e.angles = (4 * i + s, -i)
        ctx.step()
    for i, (k, t) in enumerate(tiles):
        got = (t.sprite_tile, [e.angles for e in t.edge_data])
        if got != (i, [(4 * i + s, -i) for s in range(4)]):
            j = got[1][0][1] * -1
            raise Violated(f"{what}: the tile at {k} shares state with the one at {tiles[j][0]}")


HOW = ("build", "read", "deepcopy", "upscale2", "upscale3", "rotate", "flip", "translate", "merge", "merge2", "caps", "upscale1")


def derive(lv, how):
    from dustmaker import read_level, write_level

    if how == "read":
        return read_level(write_level(lv))
    if how == "deepcopy":
        return copy.deepcopy(lv)
    if how.startswith("upscale"):
        lv.upscale(int(how[-1]))
    elif how == "rotate":
        lv.rotate(1)
    elif how == "flip":
        lv.flip_horizontal()
    elif how == "translate":
        lv.translate(48, 768)
    elif how == "merge":
        lv.merge(ref.build_level(rich(3)))
    elif how == "merge2":
        o = ref.build_level(rich(5))
        lv.merge(o, remap_ids=False)
    elif how == "caps":
        lv.calculate_edge_visibility()
        lv.calculate_edge_caps()
    return lv


def g_alone(tier):
    for a in HOW:
        yield (a, "build")
    for a, b in itertools.product(HOW[1:], HOW[1:]):
        yield (a, b)


@PROP.family(g_alone, "levels made by every pair of 12 ways (read, copied, upscaled, transformed, merged, edges calculated): every tile, prop and entity can be changed without changing any other in the level")
def inside_level(ctx, case):
    lv = ref.build_level(rich())
    for how in case:
        lv = derive(lv, how)
    require(len(lv.tiles) > 20, "tiles lost")
    each_tile_alone(ctx, lv, f"level made by {case}")
    objs = [((n, k), v[3], ref.snap_prop, scramble_prop) for n, l in (("prop", lv), ("backdrop prop", lv.backdrop)) for k, v in l.props.items()]
    objs += [(("entity", k), v[2], ref.snap_entity, scramble_entity) for k, v in lv.entities.items()]
    snaps = {k: s(o) for k, o, s, _ in objs}
    for k, o, s, scr in objs:
        scr(o)
        ctx.step()
        snaps[k] = s(o)
        for k2, o2, s2, _ in objs:
            if s2(o2) != snaps[k2]:
                raise Violated(f"level made by {case}: changing {k} changed {k2}")
    ctx.state(case)


def g_tile_up(tier):
    for s in range(21):
        for f in (1, 2, 3, 4):
            yield (s, f)


@PROP.family(g_tile_up, "the tiles a tile is upscaled into share nothing with it or each other, for every shape and factor 1-4")
def upscaled_tiles(ctx, case):
    s, f = case
    t = ref.build_tile((s, 4, 1, 2, 3, L.EDGES))
    before = ref.snap_tile(t)
    parts = [p for _, _, p in t.upscale(f)]
    same(ref.snap_tile(t), before, "tile after upscaling it")
    for i, p in enumerate(parts):
        others = [ref.snap_tile(q) for j, q in enumerate(parts) if j != i]
        scramble_tile(p)
        ctx.step()
        same([ref.snap_tile(q) for j, q in enumerate(parts) if j != i], others, f"other parts after changing part {i}")
        same(ref.snap_tile(t), before, f"tile after changing part {i}")
    # symmetric: changing the tile leaves the parts alone
    parts = [p for _, _, p in t.upscale(f)]
    others = [ref.snap_tile(q) for q in parts]
    scramble_tile(t)
    same([ref.snap_tile(q) for q in parts], others, "parts after changing the tile")
    ctx.state(case)


def g_tile_tx(tier):
    for s in range(21):
        for m in range(8):
            yield (s, m)


@PROP.family(g_tile_tx, "the four edges of a transformed tile are four separate objects, for every shape and symmetry")
def transformed_edges(ctx, case):
    s, m = case
    t = ref.build_tile((s, 4, 1, 2, 3, L.EDGES))
    t.transform(G.tx(G.D4[m]))
    for i in range(4):
        others = [ref.snap_edge(e) for j, e in enumerate(t.edge_data) if j != i]
        e = t.edge_data[i]
        e.solid = not e.solid
        e.angles = (99, 98)
        ctx.step()
        same([ref.snap_edge(e) for j, e in enumerate(t.edge_data) if j != i], others, f"other edges after changing edge {i}")
    ctx.state(case)


# --- histories -------------------------------------------------------------------------


OPS = ("edit", "write", "reread", "upscale", "rotate", "merge", "remap", "caps", "copy")


def small_spec(v):
    spec = ref.empty_level()
    spec["tiles"] = {(19, v, 0): L.FULLT[:5] + (tuple(e[:3] + ((5, -5),) + e[4:7] + ((3, -3),) for e in L.EDGES),), (19, v + 1, 0): (17,) + L.PLAIN[1:]}
    spec["bd_tiles"] = {(3, 0, v): L.PLAIN}
    spec["props"] = {100 + v: (2, 5.0, 6.0, L.PROPV)}
    spec["bd_props"] = {110 + v: (2, 5.0, 6.0, L.PROPV)}
    spec["ents"] = {120 + v: (7.0, 8.0, ("z_thing", L.VARS, 5, 18, False, False, True))}
    spec["vars"] = ("S", (("k", ("A", "i", (("i", v),))),) + tuple((f"p{p}_{a}", ("i", v)) for p in range(1, 5) for a in "xy"))
    return spec


def apply_op(lvs, who, op):
    """Performs op on level who; the other one is the partner of merge, reread and copy."""
    from dustmaker import read_level, write_level

    lv, other = lvs[who], lvs[1 - who]
    if op == "edit":
        for t in lv.tiles.values():
            for e in t.edge_data:
                e.solid = not e.solid
            t.sprite_palette = (t.sprite_palette + 1) % 16
        for v in lv.props.values():
            v[3].palette = (v[3].palette + 1) % 256
        for v in lv.entities.values():
            scramble_map(v[2].variables)
        for v in lv.variables.values():
            scramble_var(v)
    elif op == "write":
        write_level(lv)
    elif op == "reread":
        lvs[who] = read_level(write_level(other))
    elif op == "upscale":
        if len(lv.tiles) < 200:
            lv.upscale(2)
    elif op == "rotate":
        lv.rotate(1)
    elif op == "merge":
        lv.merge(other)
    elif op == "remap":
        lv.remap_ids(200)
    elif op == "caps":
        lv.calculate_edge_visibility()
        lv.calculate_edge_caps()
    elif op == "copy":
        lvs[who] = copy.deepcopy(other)


def g_hist(tier):
    moves = [(w, o) for w in (0, 1) for o in OPS]
    n = 3 if tier == "quick" else 4
    for ln in range(1, n + 1):
        for h in itertools.product(range(len(moves)), repeat=ln):
            if moves[h[0]][0] == 1:
                continue  # by symmetry the first operation is on level 0
            yield h


@PROP.family(g_hist, "all histories of up to 3 (thorough 4) of 9 operations on two levels: each operation leaves the other level unchanged and has the result it has on freshly built levels of the same contents")
def histories(ctx, h):
    moves = [(w, o) for w in (0, 1) for o in OPS]
    lvs = [ref.build_level(small_spec(0)), ref.build_level(small_spec(3))]
    for i in h:
        who, op = moves[i]
        before = [ref.snap_level(lv) for lv in lvs]
        twins = [ref.build_level(s) for s in before]
        apply_op(lvs, who, op)
        apply_op(twins, who, op)
        ctx.step(2)
        after = [ref.snap_level(lv) for lv in lvs]
        ref.diff_levels(after[1 - who], before[1 - who], f"other level after {op} in history {[moves[j] for j in h]}")
        ref.diff_levels(after[who], ref.snap_level(twins[who]), f"{op} in history {[moves[j] for j in h]} compared with fresh levels")
    ctx.state(h)
