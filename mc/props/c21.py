"""C21: merging and remapping keep all contents and references."""
import copy
import itertools

from mc import geom as G
from mc import levelcases, ref
from mc.core import Prop, require, same
from mc.props.c13 import base_tile

PROP = Prop("C21")
PROP.assumptions = ["the requested minimum id is at least 1", "a level is not merged into itself"]

# etype -> (variable, kind); ids are stored as unsigned numbers except in score books
REFS = {
    "AI_controller": ("puppet_id", "u"),
    "camera_node": ("c_node_ids", "A"),
    "level_end": ("ent_list", "A"),
    "enemy_key": ("door", "u"),
    "custom_score_book": ("level_list_id", "i"),
}
# other variables that look like ids and must be left alone
NOISE = (("tag_like", ("u", 100)), ("e_id", ("i", 101)), ("list", ("A", "s", (("s", b"100"),))), ("nodes_wait_time", ("A", "i", (("i", 100),))), ("width", ("i", 100)))


def ent(etype, refs, tag):
    """refs: list of ids, None for an absent variable."""
    var = list(NOISE) + [("tag", ("i", tag))]
    if etype in REFS and refs is not None:
        name, kind = REFS[etype]
        var.append((name, ("A", "u", tuple(("u", r) for r in refs)) if kind == "A" else (kind, refs[0])))
    else:
        # the same variable names on a type that does not use them
        for name, kind in REFS.values():
            if etype not in REFS:
                var.append((name, ("A", "u", (("u", 100), ("u", 101))) if kind == "A" else (kind, 100)))
    return (etype, ("S", tuple(var)), tag & 0xFFFF, 18, False, False, True)


def split(e):
    """(entity without its references, list of references) of a spec entity."""
    etype = e[0]
    d = dict(e[1][1])
    refs = []
    if etype in REFS:
        name, kind = REFS[etype]
        v = d.pop(name, None)
        if v is not None:
            refs = [x[1] for x in v[2]] if kind == "A" else [v[1]]
            same(v[0], "A" if kind == "A" else kind, f"type of {name}")
    return (etype, tuple(sorted(d.items())), e[2:]), refs


def tag_of(e):
    return dict(e[1][1])["tag"][1]


def view(spec):
    """Contents by tag; references as tags, missing ones as None."""
    ids = {i: tag_of(e) for i, (_, _, e) in spec["ents"].items()}
    out = {}
    for _, (x, y, e) in spec["ents"].items():
        body, refs = split(e)
        out[tag_of(e)] = (x, y, body, [ids.get(r) for r in refs])
    props = sorted(spec["props"].values())
    return out, props, sorted(spec["bd_props"].values()), ids


def check_remap(ctx, lv, lo, what):
    before = ref.snap_level(lv)
    if lo is None:
        lv.remap_ids()
        lo = 100
    else:
        lv.remap_ids(lo)
    ctx.step()
    after = ref.snap_level(lv)
    for k in ("vars", "sshot", "tiles", "bd_tiles"):
        same(after[k], before[k], f"{what}: {k}")
    b, bp, bbp, _ = view(before)
    a, ap, abp, _ = view(after)
    compare(a, b, what)
    same(ap, bp, f"{what}: props")
    same(abp, bbp, f"{what}: backdrop props")
    ids = list(after["props"]) + list(after["ents"]) + list(after["bd_props"])
    require(len(set(ids)) == len(ids), what, "ids are not distinct", ids)
    require(all(i >= lo for i in list(after["props"]) + list(after["ents"])), what, "id below", lo, ids)
    return after


def compare(a, b, what):
    """References: the same entity, or nothing if it was nothing before."""
    same(sorted(a), sorted(b), f"{what}: entities")
    for t in b:
        same(a[t][:3], b[t][:3], f"{what}: entity {t}")
        ra, rb = a[t][3], b[t][3]
        if not rb:
            require(all(r is None for r in ra), f"{what}: entity {t} without references got", ra)
        else:
            same(ra, rb, f"{what}: references of entity {t}")


TARGETS = (100, 101, 102, 7, 0, 2000)  # self, two others, low, none, not there


def g_single(tier):
    for et in REFS:
        for r in (65535, 65536, 70000, 2**24, 2**30):
            for back in range(8):
                yield (et, (r,), r - back, 0)
        for lo in (None, 1, 99, 101, 102, 150, 2000, 5000):
            for r in TARGETS:
                for order in range(6):
                    yield (et, (r,), lo, order)
            yield (et, None, lo, 0)
            if lo in (1, 99):
                for r in TARGETS:
                    yield (et, (r,), lo, 10)
            for r in (65535, 65536, 70000, 2**24, 2**31 - 1):
                yield (et, (r,), lo, 0)
            if REFS[et][1] == "A":
                for n in (15, 17, 33, 65, 257, 600):
                    yield (et, tuple((101, 102, 7, 0, 100, 65536)[i * i % 6] for i in range(n)), lo, 3)
                yield (et, (), lo, 0)
                for rs in itertools.product(TARGETS, repeat=2):
                    yield (et, rs, lo, 1)
                yield (et, (101, 101, 100, 0, 2000, 102, 7), lo, 2)


@PROP.family(g_single, "every referring type x every target (itself, others, absent up to 2^31, zero) and lists of up to 600 targets x 8 minimum ids overlapping the old ids, also ones at which a new id meets the absent target, x all insertion orders")
def single(ctx, case):
    et, refs, lo, order = case
    spec = ref.empty_level()
    objs = [(100, ent(et, refs, 1)), (101, ent("z_string_list", None, 2)), (102, ent("enemy_door", None, 3))]
    objs = list(itertools.permutations(objs))[order % 10] + ((7, ent("enemy_bear", None, 4)),)
    for i, (eid, e) in enumerate(objs):
        spec["ents"][eid] = (float(eid), -1.0 * eid, e)
    if order < 10:
        spec["props"] = {101: (3, 1.0, 2.0, levelcases.PROPV), 2000: (4, 1.0, 2.0, levelcases.PROPV[:5] + (1,) + levelcases.PROPV[6:])}
        spec["bd_props"] = {100: (3, 1.0, 2.0, levelcases.PROPV)}
    lv = ref.build_level(spec)
    after = check_remap(ctx, lv, lo, f"{case}")
    check_remap(ctx, lv, lo, f"{case} again")
    ctx.state(tuple(sorted(after["ents"])), case)


def g_chain(tier):
    n = 4 if tier == "quick" else 5
    ids = tuple(range(100, 100 + n))
    kinds = list(REFS)
    for targets in itertools.product(range(n + 1), repeat=n):
        for k in range(1 if tier == "quick" else 5):
            yield (targets, k)
    for m in range(1, n):
        for targets in itertools.product(range(m + 1), repeat=m):
            for k in range(5):
                yield (targets, k)


@PROP.family(g_chain, "all reference graphs of up to 4 (thorough 5) entities of mixed types (cycles, self references, dangling), remapped onto overlapping ids twice")
def graphs(ctx, case):
    targets, k = case
    n = len(targets)
    kinds = list(REFS)
    spec = ref.empty_level()
    for i, t in enumerate(targets):
        spec["ents"][100 + i] = (float(i), 0.0, ent(kinds[(i + k) % 5], (100 + t if t < n else 900,), i + 1))
    lv = ref.build_level(spec)
    for lo in (101, 102, 100, 99, 898, 900):
        check_remap(ctx, lv, lo, f"{case} to {lo}")
    ctx.state(targets, k)


# ------------------------------------------------------------------------------ merging


def level(name):
    """Small levels with overlapping cells and ids; tags are unique per level."""
    spec = ref.empty_level()
    base = {"A": 1000, "B": 2000, "C": 3000, "E": 4000, "L": 5000, "D": 6000, "N": 7000}[name]
    spec["vars"] = ("S", (("level_name", ("s", name.encode())), ("p1_x", ("i", base))))
    spec["sshot"] = name.encode()
    if name == "E":
        return spec
    if name == "N":  # nothing but a prop and an entity: no variables, no thumbnail
        spec["vars"], spec["sshot"] = ("S", ()), b""
        spec["props"][101] = (2, 7000.0, 2.0, levelcases.PROPV[:7] + (700,) + levelcases.PROPV[8:])
        spec["ents"][101] = (1.0, 7000.0, ent("enemy_bear", None, 7001))
        return spec
    if name == "D":  # ids in the backdrop only
        for i in (100, 101, 103, 107):
            spec["bd_props"][i] = (3, 3.0, 1.0 * base, levelcases.PROPV[:7] + (base // 10 + i,) + levelcases.PROPV[8:])
        return spec
    n = {"A": 3, "B": 4, "C": 2, "L": 2}[name]
    first = {"A": 100, "B": 102, "C": 500, "L": 1}[name]
    cells = {"A": ((0, 0), (1, 0), (-5, 7)), "B": ((1, 0), (0, 0), (2, 2), (-5, 8)), "C": ((300, 300),), "L": ((1, 0), (300, 300))}[name]
    for i, c in enumerate(cells):
        spec["tiles"][(19 if i != 1 else 3,) + c] = G.blank_missing(base_tile((base // 100 + i) % 21, i))
        spec["bd_tiles"][(4,) + c] = G.blank_missing(base_tile((base // 100 + i + 5) % 21, i))
    kinds = list(REFS)
    for i in range(n):
        refs = (first + (i + 1) % n,) if i != 2 else (first + 1, 77777, 0, first)
        spec["ents"][first + i] = (1.0 * i, float(base), ent(kinds[(i + base // 1000) % 5] if i < n - 1 else "enemy_bear", refs, base + i))
        spec["props"][first + i + (1 if i == 1 else 0)] = (i, 1.0 * base, 2.0, levelcases.PROPV[:7] + (base // 10 + i,) + levelcases.PROPV[8:])
        spec["bd_props"][first + 2 * i] = (i, 3.0, 1.0 * base, levelcases.PROPV[:7] + (base // 10 + 50 + i,) + levelcases.PROPV[8:])
    return spec


def check_merge(ctx, tgt, src, remap, what):
    t0, s0 = ref.snap_level(tgt), ref.snap_level(src)
    if remap is None:
        tgt.merge(src)
        remap = True
    else:
        tgt.merge(src, remap_ids=remap)
    ctx.step()
    t1, s1 = ref.snap_level(tgt), ref.snap_level(src)
    same(s1, s0, f"{what}: source level")
    for k in ("vars", "sshot"):
        same(t1[k], t0[k], f"{what}: target {k}")
    for k in ("tiles", "bd_tiles"):
        same(t1[k], {**t0[k], **s0[k]}, f"{what}: {k}")
    if remap:
        for k in ("props", "bd_props"):
            same(sorted(t1[k].values()), sorted(list(t0[k].values()) + list(s0[k].values())), f"{what}: {k}")
        a, b = view(t1)[0], {**view(t0)[0], **view(s0)[0]}
        compare(a, b, what)
        for k in ("props", "ents", "bd_props"):
            require(len(t1[k]) == len(t0[k]) + len(s0[k]), what, k, "lost")
            for o in ("props", "ents", "bd_props"):
                new = [i for i in t1[k] if i not in s0[k]]
                require(not set(new) & set(s0[o]), what, f"ids of the target's {k} used by the source's {o}", sorted(set(new) & set(s0[o])))
            for i, v in s0[k].items():
                same(t1[k].get(i), v, f"{what}: {k} {i} of the source")
    else:
        for k in ("props", "bd_props", "ents"):
            same(t1[k], {**t0[k], **s0[k]}, f"{what}: {k}")
    return t1


def scramble(lv, n):
    """Change everything in a level in place."""
    for part in (lv, lv.backdrop):
        for t in part.tiles.values():
            t.sprite_tile = n
            t.edge_data[0].solid = not t.edge_data[0].solid
        for _, _, _, p in part.props.values():
            p.rotation = n
    for _, _, e in lv.entities.values():
        e.rotation = n
        for v in e.variables.values():
            if isinstance(v.value, int):
                v.value = n
            elif isinstance(v.value, tuple):
                v.value[1].clear()
        e.variables["new"] = ref.build_var(("i", n))
    lv.tiles.pop(next(iter(lv.tiles), None), None)
    lv.backdrop.tiles.pop(next(iter(lv.backdrop.tiles), None), None)
    lv.props.pop(next(iter(lv.props), None), None)
    lv.entities.pop(next(iter(lv.entities), None), None)
    lv.backdrop.props.pop(next(iter(lv.backdrop.props), None), None)


def g_merge(tier):
    for a, b in itertools.product("ABCELDN", repeat=2):
        for remap in (None, True, False):
            for mutate in (0, 1):
                yield (a, b, remap, mutate)


@PROP.family(g_merge, "all ordered pairs of 7 levels with overlapping cells and ids (also equal ones) x with, without, default remapping; afterwards each level is changed everywhere and the other must stay")
def merges(ctx, case):
    a, b, remap, mutate = case
    sb = level(b)
    if a == b:
        sb["ents"] = {i: (x, y, ent_retag(e)) for i, (x, y, e) in sb["ents"].items()}
    tgt, src = ref.build_level(level(a)), ref.build_level(sb)
    t1 = check_merge(ctx, tgt, src, remap, f"{case}")
    if mutate:
        scramble(src, 77)
        same(ref.snap_level(tgt), t1, "target after changing the source")
    else:
        s1 = ref.snap_level(src)
        scramble(tgt, 99)
        same(ref.snap_level(src), s1, "source after changing the target")
    ctx.state(case)


def ent_retag(e):
    return e[:1] + (("S", tuple((k, ("i", v[1] + 500) if k == "tag" else v) for k, v in e[1][1])),) + e[2:]


def g_seq(tier):
    ops = ("mB", "mC", "mL", "mE", "mD", "r1", "r100", "r103", "f")
    n = 3 if tier == "quick" else 5
    for ln in range(2, n + 1):
        for seq in itertools.product(ops, repeat=ln):
            if all(seq.count(o) <= 1 for o in ("mB", "mC", "mL", "mD")):
                yield seq


@PROP.family(g_seq, "all sequences of up to 3 (thorough 5) merges of different levels, remaps and file round trips: contents and references after every step")
def sequences(ctx, case):
    from dustmaker import read_level, write_level

    lv = ref.build_level(level("A"))
    for i, op in enumerate(case):
        what = f"{case[: i + 1]}"
        if op[0] == "m":
            check_merge(ctx, lv, ref.build_level(level(op[1])), True, what)
        elif op[0] == "r":
            check_remap(ctx, lv, int(op[1:]), what)
        else:
            before = ref.snap_level(lv)
            lv = read_level(write_level(lv))
            ctx.step()
            after = ref.snap_level(lv)
            compare(view(after)[0], view(before)[0], what)
    ctx.state(case, tuple(sorted(lv.entities)))


def g_deep(tier):
    for et in REFS:
        for k in range(2):
            yield (et, k)


@PROP.family(g_deep, "a deep copy is remapped: the original and its references stay as they were")
def copies(ctx, case):
    et, k = case
    spec = ref.empty_level()
    spec["ents"] = {100: (0.0, 0.0, ent(et, (101,), 1)), 101: (1.0, 1.0, ent("z_string_list", None, 2))}
    lv = ref.build_level(spec)
    other = copy.deepcopy(lv)
    check_remap(ctx, other if k else lv, 700, f"{case}")
    ref.diff_levels(ref.snap_level(lv if k else other), spec, "the other copy")
    ctx.state(case)


def cell_tiles():
    """Tiles of every kind a cell can hold, among them new tiles with nothing set."""
    from dustmaker.tile import Tile, TileShape

    out = [ref.snap_tile(Tile(TileShape(s))) for s in (0, 1, 17, 20)]
    out += [(0, 0, 0, 0, 0, (ref.BLANK_EDGE,) * 4), (0, 7, 0, 0, 0, (ref.BLANK_EDGE,) * 4)]
    out += [G.blank_missing(base_tile(s, i)) for i, s in enumerate((0, 0, 3, 18))]
    return out


def g_cells(tier):
    for a in range(10):
        for b in range(10):
            yield (a, b)


@PROP.family(g_cells, "all pairs of 10 tiles (also untouched new ones) in the same cell of both levels, on 3 layers and in the backdrop: the merged level's tile wins")
def cells(ctx, case):
    a, b = case
    ts = cell_tiles()
    x, y = ref.empty_level(), ref.empty_level()
    for key in ("tiles", "bd_tiles"):
        for n, cell in enumerate(((19, 0, 0), (3, -1, 70000), (0, -32769, 5))):
            x[key][cell] = ts[a]
            y[key][cell] = ts[(b + n) % 10]
        x[key][(19, 1, 0)] = ts[a]
        y[key][(19, 2, 0)] = ts[b]
    for remap in (True, False):
        check_merge(ctx, ref.build_level(x), ref.build_level(y), remap, f"{case}")
    ctx.state(case)


def g_bare(tier):
    for n in (1, 2, 5):
        for remap in (None, True, False):
            for side in range(2):
                yield (n, remap, side)


@PROP.family(g_bare, "merging levels of objects with nothing set (entities without variables, untouched tiles and props), then changing every object of one level: the other stays")
def bare(ctx, case):
    from dustmaker.entity import AIController, CameraNode, LevelEnd, Trigger
    from dustmaker.level import Level
    from dustmaker.tile import Tile

    n, remap, side = case

    def make(x):
        lv = Level()
        for i in range(n):
            lv.tiles[(19, x + i, 0)] = Tile()
            lv.backdrop.tiles[(19, x, i)] = Tile()
            lv.add_prop(3, x, i, ref.build_prop((0, 0, False, False, 1.0, 0, 0, 0, 0)))
            lv.backdrop.add_prop(3, x, i, ref.build_prop((0, 0, False, False, 1.0, 0, 0, 0, 0)))
            for e in (ref.build_entity(("z_mine", ("S", ()), 0, 18, False, False, True)), AIController(), CameraNode(), LevelEnd(), Trigger()):
                lv.add_entity(x, i, e)
        return lv

    a, b = make(0), make(50)
    if remap is None:
        a.merge(b)
    else:
        a.merge(b, remap_ids=remap)
    ctx.step()
    same((len(a.props), len(a.entities), len(a.backdrop.props)), ((n, 5 * n, n) if remap is False else (2 * n, 10 * n, 2 * n)), "number of objects")
    same((len(a.tiles), len(a.backdrop.tiles)), (2 * n, 2 * n), "number of tiles")
    src, dst = (a, b) if side else (b, a)
    before = ref.snap_level(dst)
    scramble(src, 77)
    for _, _, e in src.entities.values():
        if isinstance(e, CameraNode):
            e.nodes.append(4)
        elif isinstance(e, LevelEnd):
            e.entities.append(4)
        elif isinstance(e, Trigger):
            e.width = 4
        elif isinstance(e, AIController):
            e.puppet = 4
    ref.diff_levels(ref.snap_level(dst), before, f"{case}: the other level")
    ctx.state(case)


def g_big(tier):
    for n in (70, 130, 300, 700, 1500) if tier == "quick" else (70, 130, 300, 700, 1500, 5000):
        for what in ("remap", "merge", "merge plain", "merged"):
            yield (n, what)


def big_level(n, base, first):
    spec = ref.empty_level()
    kinds = list(REFS)
    for i in range(n):
        # references over short and long distances, and to nothing
        refs = (first + (i + (1, n // 2, n - 1, 2 * n, 7)[i % 5]) % (n + (i % 5 == 3)),)
        spec["ents"][first + i] = (1.0 * i, float(base), ent(kinds[i % 5] if i % 3 else "enemy_bear", refs if i % 3 else None, base + i))
        spec["props"][first + i * 2] = (i % 20, 1.0 * base + i, 2.0, levelcases.PROPV[:7] + (i % 4096,) + levelcases.PROPV[8:])
        if i % 3 == 0:
            spec["bd_props"][first + i] = (i % 20, 3.0, 1.0 * base + i, levelcases.PROPV[:7] + (i % 4096,) + levelcases.PROPV[8:])
        spec["tiles"][(19, (base // 100000 + 1) * i % (3 * n), i % 7)] = G.blank_missing(base_tile((base // 100 + i) % 21, i % 7))
        spec["bd_tiles"][(4, i, base // 100000)] = G.blank_missing(base_tile((base // 100 + i + 5) % 21, i % 7))
    return spec


@PROP.family(g_big, "levels of up to 1500 (thorough 5000) entities, props and tiles each, with references over all distances, remapped, merged into others of this size and merged into small ones, then changed everywhere")
def big(ctx, case):
    n, what = case
    a = ref.build_level(big_level(n, 100000, 100))
    if what == "remap":
        for lo in (101, 100 + n, 100, 50):
            check_remap(ctx, a, lo, f"{case} to {lo}")
    else:
        b = ref.build_level(big_level(n, 200000, 100 + n // 2)) if what != "merged" else ref.build_level(level("A"))
        tgt, src = (b, a) if what == "merged" else (a, b)
        after = check_merge(ctx, tgt, src, what != "merge plain", f"{case}")
        keep = ref.snap_level(src)
        scramble(tgt, 77)
        same(ref.snap_level(src), keep, f"{case}: source after changing the target")
        keep = ref.snap_level(tgt)
        scramble(src, 78)
        same(ref.snap_level(tgt), keep, f"{case}: target after changing the source")
        del after
    ctx.state(case)
