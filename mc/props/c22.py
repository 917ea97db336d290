"""C22: named properties are faithful typed views of the variables."""
import io
import itertools

from mc import ref
from mc.core import Prop, Violated, raises, require, same
from mc.entities import HITTABLE, TYPES, UNKNOWN

PROP = Prop("C22")
PROP.assumptions = ["reading an absent array property may store the empty array it returns"]

SCALE = (("scale", "dm_scale", "f", 1.0),)
WIDTH = (("width", "width", "i", 500),)
TABLE = {
    "entity_emitter": (
        ("e_rotation", "e_rotation", "i", 0), ("draw_depth_sub", "draw_depth_sub", "u", 0), ("r_rotation", "r_rotation", "b", False),
        ("r_area", "r_area", "b", False), ("width", "width", "i", 480), ("height", "height", "i", 480), ("emitter_id", "emitter_id", "u", 0),
    ),
    "check_point": (("trigger_areas", "trigger_area", "Av", None),),
    "level_end_prox": (("trigger_areas", "trigger_area", "Av", None), ("finished", "finished", "b", False)),
    "base_trigger": WIDTH,
    "fog_trigger": WIDTH + (
        ("speed", "fog_speed", "f", 5.0), ("gradient", "gradient", "Au", None), ("gradient_middle", "gradient_middle", "f", 0.0),
        ("star_bottom", "star_bottom", "f", 0.0), ("star_middle", "star_middle", "f", 0.4), ("star_top", "star_top", "f", 1.0),
        ("has_sub_layers", "has_sub_layers", "b", False), ("colours", "fog_colour", "Au", None), ("pers", "fog_per", "Af", None),
    ),
    "ambience_trigger": WIDTH + (("speed", "ambience_speed", "f", 5.0), ("sound_names", "sound_ambience_names", "As", None), ("sound_vols", "sound_ambience_vol", "Af", None)),
    "music_trigger": WIDTH + (("speed", "music_speed", "f", 5.0), ("sound_names", "sound_music_names", "As", None), ("sound_vols", "sound_music_vol", "Af", None)),
    "special_trigger": WIDTH,
    "text_trigger": (("hide", "hide", "b", False), ("text", "text_string", "s", b"")),
    "kill_box": (("width", "width", "i", 0), ("height", "height", "i", 0)),
    "AI_controller": (("nodes", "nodes", "Av", None), ("node_wait_times", "nodes_wait_time", "Ai", None), ("puppet", "puppet_id", "u", 0)),
    "camera_node": (
        ("node_type", "node_type", "i", 1), ("test_widths", "test_widths", "Ai", None), ("nodes", "c_node_ids", "Au", None),
        ("control_widths", "control_widths", "Av", None), ("zoom", "zoom_h", "i", 1080), ("width", "width", "i", 520),
    ),
    "level_end": (("entities", "ent_list", "Au", None), ("finished", "finished", "b", False)),
    "score_book": (("book_type", "book_type", "s", b""),),
    "level_door": WIDTH + (("file_name", "file_name", "s", b""), ("door_set", "door_set", "i", 0)),
    "giga_gate": (("keys_needed", "key_needed", "i", 1),),
    "enemy_trash_tire": SCALE + (("max_fall_speed", "max_fall_speed", "f", 800.0),),
    "enemy_key": SCALE + (("door", "door", "u", 0), ("lastX", "lastKnowX", "f", 0.0), ("lastY", "lastKnowY", "f", 0.0)),
    "custom_score_book": (("level_list", "level_list_id", "i", 0),),
    "z_string_list": WIDTH + (("data", "list", "As", None),),
}
for _t in HITTABLE:
    TABLE.setdefault(_t, SCALE)
LEVEL = (
    ("name", "level_name", "s", b""), ("virtual_character", "vector_character", "b", False),
    ("level_type", "level_type", "i", 0), ("dustmod_version", "dustmod_version", "s", b""),
)
VALUES = {
    "b": (True, False), "i": (7, -2147483648), "u": (9, 4294967295), "f": (2.5, -0.125), "s": (b"a\x00", b""), "v": ((1.0, -2.0), (0.0, 0.5)),
}
WRONG = {"b": ("i", 1), "i": ("u", 3), "u": ("i", 3), "f": ("v", (0.0, 1.0)), "s": ("b", True), "v": ("f", 1.0), "A": ("S", ())}
BADVALUE = {"b": "x", "i": "1", "u": -1, "f": b"1", "s": 3}
NOISE = (("zz", ("i", 1)), ("width2", ("f", 2.0)))


def rows():
    for t in TYPES:
        for i in range(len(TABLE.get(t, ()))):
            yield (t, i)
    for i in range(len(LEVEL)):
        yield ("level", i)
    for p in range(1, 5):
        for i in range(2):
            yield (f"start{p}", i)


def row(t, i):
    if t == "level":
        return LEVEL[i]
    if t.startswith("start") and t[5:].isdigit():
        return ("xy"[i], f"p{t[5:]}_{'xy'[i]}", "i", 0)
    return TABLE[t][i]


def make(t, tree):
    """(object with the property, variables mapping)"""
    from dustmaker.level import Level

    if t == "level" or t.startswith("start"):
        lv = Level()
        lv.variables.clear()
        lv.variables.update(ref.build_map(tree))
        return (lv if t == "level" else lv.start_position(int(t[5:]))), lv
    e = ref.build_entity((t, tree, 0, 18, False, False, True))
    require(type(e).__name__ != "Entity", t, "has no class of its own")
    return e, e


def g_seq(tier):
    n = 4 if tier == "quick" else 5
    for r in rows():
        for ln in range(1, n + 1):
            if tier == "thorough" and ln > 4 and row(*r)[0] == "scale" and r[0] != "enemy_bear":
                continue
            for seq in itertools.product("gabdwx", repeat=ln):
                yield r + ("".join(seq),)


@PROP.family(g_seq, "every property of every shipped class, the level and the four player starts x all sequences of up to 4 (thorough 5) of get, set (two values), delete, store a variable of another type, set an ill-typed value; the whole variables mapping is compared after every step")
def sequences(ctx, case):
    t, i, seq = case
    attr, name, kind, default = row(t, i)
    obj, owner = make(t, ("S", NOISE))
    model = dict(NOISE)
    arr = kind[0] == "A"
    ek = kind[-1]

    def tree(k):
        if arr:
            return ("A", ek, tuple((ek, v) for v in VALUES[ek][: k + 1]))
        return (kind, VALUES[kind][k])

    for j, op in enumerate(seq):
        what = f"{t}.{attr} after {seq[: j + 1]}"
        ctx.step()
        cur = model.get(name)
        if op == "g":
            if cur is not None and cur[0] != kind[0]:
                raises(ValueError, getattr, obj, attr)
                ctx.outcome("ValueError on wrong type")
            else:
                got = getattr(obj, attr)
                if arr:
                    want = cur or ("A", ek, ())
                    same(ref.snap_var(got), want, what)
                    if cur is None and name in owner.variables:
                        model[name] = want
                elif cur is None:
                    same((got, ref.build_var((kind, default)).value), (default, default), what)
                else:
                    same(got, cur[1], what)
        elif op in "ab":
            k = "ab".index(op)
            tr = tree(k)
            setattr(obj, attr, ref.build_var(tr) if arr else tr[1])
            model[name] = tr
        elif op == "d":
            delattr(obj, attr)
            model.pop(name, None)
        elif op == "w":
            w = WRONG[kind[0]]
            owner.variables[name] = ref.build_var(w)
            model[name] = w
        elif op == "x":
            if arr:
                continue
            try:
                setattr(obj, attr, BADVALUE[kind])
            except (AssertionError, ValueError, TypeError):
                ctx.outcome("ill-typed value refused")
            else:
                raise Violated(f"{what}: ill-typed value accepted")
        same(dict(ref.snap_map(owner.variables)[1]), model, f"{what}: variables")
    ctx.state(case)


def g_pairs(tier):
    for t in list(TYPES) + ["level"]:
        n = len(LEVEL) if t == "level" else len(TABLE.get(t, ()))
        for i, j in itertools.permutations(range(n), 2):
            yield (t, i, j)
    for p, q in itertools.permutations(range(1, 5), 2):
        yield (p, q, 0)


@PROP.family(g_pairs, "setting and deleting one property leaves every other property of the object as it is")
def pairs(ctx, case):
    t, i, j = case
    if isinstance(t, int):
        from dustmaker.level import Level

        lv = Level()
        a, b = lv.start_position(t), lv.start_position(i)
        a.x, a.y, b.x, b.y = 1, 2, 3, 4
        same((a.x, a.y, b.x, b.y), (1, 2, 3, 4), "starts")
        del b.x
        same((a.x, a.y, b.x, b.y), (1, 2, 0, 4), "starts after deleting one")
        c = lv.start_position(t)
        same((c.x, c.y), (1, 2), "a new view of the same start")
        if t == 1:
            d = lv.start_position()
            same((d.x, d.y), (1, 2), "the default player")
        ctx.step()
        return
    ri, rj = row(t, i), row(t, j)
    obj, owner = make(t, ("S", ()))

    def val(r, k=0):
        kind = r[2]
        if kind[0] == "A":
            return ref.build_var(("A", kind[1], tuple((kind[1], v) for v in VALUES[kind[1]][: k + 1])))
        return VALUES[kind][k]

    setattr(obj, rj[0], val(rj, 1))
    before = getattr(obj, rj[0])
    setattr(obj, ri[0], val(ri))
    ctx.step()
    require(getattr(obj, rj[0]) == before, t, rj[0], "changed by setting", ri[0])
    delattr(obj, ri[0])
    delattr(obj, ri[0])
    require(getattr(obj, rj[0]) == before, t, rj[0], "changed by deleting", ri[0])
    same(list(owner.variables), [rj[1]], "variables")
    ctx.state(case)


def g_arr(tier):
    for r in rows():
        if row(*r)[2][0] == "A":
            yield r


@PROP.family(g_arr, "changes through an array property are changes of the stored variable, whether it was present, absent or deleted in between")
def arrays(ctx, case):
    t, i = case
    attr, name, kind, _ = row(t, i)
    ek = kind[1]
    obj, owner = make(t, ("S", ()))
    other, oowner = make(t, ("S", ()))
    a, b = VALUES[ek]
    getattr(obj, attr).append(a)
    same(dict(ref.snap_map(owner.variables)[1]), {name: ("A", ek, ((ek, a),))}, "appended to an absent array")
    getattr(obj, attr).append(b)
    getattr(obj, attr)[0] = b
    same(dict(ref.snap_map(owner.variables)[1]), {name: ("A", ek, ((ek, b), (ek, b)))}, "changed through the property")
    same(list(getattr(obj, attr)), [b, b], "values")
    same(list(getattr(other, attr)), [], "another object")
    delattr(obj, attr)
    require(name not in owner.variables, "deleted")
    getattr(obj, attr).append(a)
    same(list(getattr(obj, attr)), [a], "after deletion")
    ctx.step(6)
    # a list kept by the caller stays the stored one: an empty array (absent,
    # emptied or stored as empty) read again is still that array
    for start in ("absent", "emptied", "stored", "set"):
        obj, owner = make(t, ("S", ((name, ("A", ek, ())),) if start == "stored" else ()))
        if start == "set":
            setattr(obj, attr, ref.build_var(("A", ek, ())))
        kept = getattr(obj, attr)
        if start == "emptied":
            kept.append(a)
            kept.pop()
        again = getattr(obj, attr)
        kept.append(b)
        again.append(a)
        ctx.step(3)
        want = [b, a]
        same((list(kept), list(again), list(getattr(obj, attr))), (want, want, want), f"{start}: kept list, second read, third read")
        same(dict(ref.snap_map(owner.variables)[1]), {name: ("A", ek, ((ek, b), (ek, a)))}, f"{start}: variables")
    ctx.state(case)


def g_types(tier):
    for t in TYPES + UNKNOWN:
        for nv in range(3):
            yield (t, nv)
    yield ("mc_custom_type", 1)
    yield ("mc_custom_type2", 2)


_CUSTOM = {}


def custom(name):
    if name not in _CUSTOM:
        from dustmaker.entity import Entity, EnemyBear

        _CUSTOM[name] = type("McCustom", (Entity if name == "mc_custom_type" else EnemyBear,), {"TYPE_IDENTIFIER": name})
    return _CUSTOM[name]


@PROP.family(g_types, "every type name, unknown names and two types registered on the fly, written and read back: class, type name and contents; default construction gives the same type name")
def registry(ctx, case):
    from dustmaker import Entity, Level, read_level, write_level

    t, nv = case
    cls = custom(t) if t.startswith("mc_") else ref.entity_classes().get(t)
    if t in TYPES:
        require(cls is not None, "no class for", t)
    else:
        require(t.startswith("mc_") or cls is None, "unexpected class for", t)
    var = ("S", (("k", ("i", 1)), ("s", ("s", b"x")))[:nv])
    lv = Level()
    if cls is None:
        e = Entity(ref.build_map(var), 5, 6, True, False, True)
        e.etype = t
    else:
        e = cls(ref.build_map(var), 5, 6, True, False, True)
        same(cls().etype, t, "type name of a new object")
        same((cls().variables, cls().rotation, cls().layer, cls().flip_x, cls().flip_y, cls().visible), ({}, 0, 18, False, False, True), "defaults")
    lv.add_entity(1.0, 2.0, e)
    ctx.step(2)
    back = list(read_level(write_level(lv)).entities.values())
    same(len(back), 1, "entities")
    got = back[0][2]
    require(type(got) is (cls or Entity), "class of", t, "is", type(got))
    same(ref.snap_entity(got), (t, var, 5, 6, True, False, True), "contents")
    ctx.state(case)


def g_swap(tier):
    for r in rows():
        yield r


@PROP.family(g_swap, "every property again after the variables mapping of its object was replaced by another mapping, and after the object was copied: it views the mapping the object has now")
def swapped(ctx, case):
    import copy

    t, i = case
    attr, name, kind, default = row(t, i)
    arr, ek = kind[0] == "A", kind[-1]

    def tree(k):
        return ("A", ek, tuple((ek, v) for v in VALUES[ek][: k + 1])) if arr else (kind, VALUES[kind][k])

    def val(k):
        return ref.build_var(tree(k)) if arr else VALUES[kind][k]

    def read(owner):
        o = owner.start_position(int(t[5:])) if t[:5] == "start" and t[5:].isdigit() else owner
        got = getattr(o, attr)
        return ref.snap_var(got) if arr else got

    def shown(k):
        return tree(k) if arr else VALUES[kind][k]

    for first in ("absent", "stored", "set"):
        obj, owner = make(t, ("S", ((name, tree(0)),) if first == "stored" else ()))
        if first == "set":
            setattr(obj, attr, val(0))
        read(owner)
        old = owner.variables
        kept = ref.snap_map(old)
        owner.variables = ref.build_map(("S", ((name, tree(1)),)))
        ctx.step(4)
        same(read(owner), shown(1), f"{t}.{attr} {first}: after the mapping was replaced")
        now = owner.start_position(int(t[5:])) if owner is not obj else owner
        setattr(now, attr, val(0))
        same(dict(ref.snap_map(owner.variables)[1]), {name: tree(0)}, f"{t}.{attr} {first}: new mapping after setting")
        delattr(now, attr)
        same(dict(ref.snap_map(owner.variables)[1]), {}, f"{t}.{attr} {first}: new mapping after deleting")
        same(ref.snap_map(old), kept, f"{t}.{attr} {first}: the old mapping")
        owner.variables = old
        if first != "absent":
            same(read(owner), shown(0), f"{t}.{attr} {first}: with the old mapping again")
            # stored behind the property's back
            old[name] = ref.build_var(tree(1))
            same(read(owner), shown(1), f"{t}.{attr} {first}: after the variable was replaced")
            c = copy.deepcopy(owner)
            c.variables[name] = ref.build_var(tree(0))
            same((read(owner), read(c)), (shown(1), shown(0)), f"{t}.{attr} {first}: object and changed copy")
            c = copy.copy(owner)
            c.variables = ref.build_map(("S", ((name, tree(0)),)))
            same((read(owner), read(c)), (shown(1), shown(0)), f"{t}.{attr} {first}: object and shallow copy with its own mapping")
            if not arr:
                owner.variables[name].value = VALUES[kind][0]
                same(read(owner), shown(0), f"{t}.{attr} {first}: after the value of the variable was changed")
    ctx.state(case)
