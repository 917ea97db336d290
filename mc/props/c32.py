"""C32: the names of the API mean what they mean in the game's files; new objects start with the documented defaults."""
import io

from mc import ref
from mc import replaycases as RC
from mc.core import Prop, require, same
from mc.entities import UNKNOWN

PROP = Prop("C32")
PROP.assumptions = ["further names may be added to the enumerations"]

ENUMS = {
    ("tile", "TileSpriteSet"): "NONE_0 MANSION FOREST CITY LABORATORY TUTORIAL NEXUS NONE_7",
    ("tile", "TileSide"): "TOP BOTTOM LEFT RIGHT",
    ("tile", "TileShape"): "FULL " + " ".join(f"BIG_{i} SMALL_{i}" for i in range(1, 9)) + " HALF_A HALF_B HALF_C HALF_D",
    ("replay", "IntentStream"): "X Y JUMP DASH FALL LIGHT HEAVY TAUNT MOUSE_X MOUSE_Y MOUSE_STATE",
    ("replay", "Character"): "DUSTMAN DUSTGIRL DUSTKID DUSTWORTH SLIMEBOSS TRASHKING LEAFSPRITE DUSTWRAITH",
}
VALUES = {k: {n: i for i, n in enumerate(v.split())} for k, v in ENUMS.items()}
VALUES["level", "LevelType"] = {"NORMAL": 0, "NEXUS": 1, "NEXUS_MP": 2, "KOTH": 3, "SURVIVAL": 4, "DUSTMOD": 6}
VALUES["replay", "MouseState"] = {"WHEEL_UP": 1, "WHEEL_DOWN": 2, "LEFT_CLICK": 4, "RIGHT_CLICK": 8, "MIDDLE_CLICK": 16}
VALUES["entity", "CameraNodeType"] = {"NORMAL": 1, "DETACH": 2, "CONNECT": 3, "INTEREST": 4, "FORCE_CONNECT": 5}
VALUES["variable", "VariableType"] = {"NULL": 0, "BOOL": 1, "INT": 2, "UINT": 3, "FLOAT": 4, "STRING": 5, "VEC2": 10, "STRUCT": 14, "ARRAY": 15}

CLASSES = {
    "Emitter": "entity_emitter", "CheckPoint": "check_point", "EndZone": "level_end_prox", "Trigger": "base_trigger", "FogTrigger": "fog_trigger",
    "AmbienceTrigger": "ambience_trigger", "MusicTrigger": "music_trigger", "SpecialTrigger": "special_trigger", "TextTrigger": "text_trigger",
    "DeathZone": "kill_box", "AIController": "AI_controller", "CameraNode": "camera_node", "LevelEnd": "level_end", "ScoreBook": "score_book",
    "LevelDoor": "level_door", "RedKeyDoor": "giga_gate", "EnemyLightPrism": "enemy_tutorial_square", "EnemyHeavyPrism": "enemy_tutorial_hexagon",
    "EnemySlimeBeast": "enemy_slime_beast", "EnemySlimeBarrel": "enemy_slime_barrel", "EnemySpringBall": "enemy_spring_ball",
    "EnemySlimeBall": "enemy_slime_ball", "EnemyTrashTire": "enemy_trash_tire", "EnemyTrashBeast": "enemy_trash_beast", "EnemyTrashCan": "enemy_trash_can",
    "EnemyTrashBall": "enemy_trash_ball", "EnemyBear": "enemy_bear", "EnemyTotemLarge": "enemy_stoneboss", "EnemyTotemSmall": "enemy_stonebro",
    "EnemyPorcupine": "enemy_porcupine", "EnemyWolf": "enemy_wolf", "EnemyTurkey": "enemy_critter", "EnemyFlag": "enemy_flag", "EnemyScroll": "enemy_scrolls",
    "EnemyTreasure": "enemy_treasure", "EnemyChestTreasure": "enemy_chest_treasure", "EnemyChestScrolls": "enemy_chest_scrolls", "EnemyButler": "enemy_butler",
    "EnemyMaid": "enemy_maid", "EnemyKnight": "enemy_knight", "EnemyGargoyleBig": "enemy_gargoyle_big", "EnemyGargoyleSmall": "enemy_gargoyle_small",
    "EnemyBook": "enemy_book", "EnemyHawk": "enemy_hawk", "EnemyKey": "enemy_key", "EnemyDoor": "enemy_door", "Apple": "hittable_apple", "Dustman": "dust_man",
    "Dustgirl": "dust_girl", "Dustkid": "dust_kid", "Dustworth": "dust_worth", "Dustwraith": "dust_wraith", "Leafsprite": "leaf_sprite",
    "Trashking": "trash_king", "Slimeboss": "slime_boss", "CustomScoreBook": "custom_score_book", "StringList": "z_string_list",
}


def module(name):
    import importlib

    return importlib.import_module("dustmaker." + name)


def member(enum, name):
    cls = getattr(module(enum[0]), enum[1])
    require(hasattr(cls, name), enum[1], "has no member", name)
    return getattr(cls, name)


def g_enums(tier):
    for enum, vals in VALUES.items():
        for name in vals:
            yield (enum, name)


@PROP.family(g_enums, "every member of every enumeration of the format: its number, both directions")
def members(ctx, case):
    enum, name = case
    m = member(enum, name)
    v = VALUES[enum][name]
    ctx.step(3)
    same(int(m), v, f"{enum[1]}.{name}")
    cls = getattr(module(enum[0]), enum[1])
    require(cls(v) is m, f"{enum[1]}({v}) is", cls(v))
    same(cls(v).name, name, f"name of {enum[1]}({v})")
    ctx.state(case)


# --- seen in files -----------------------------------------------------------------


def written(lv):
    from dustmaker import write_level

    got, _ = ref.decode_level(write_level(lv))
    return got


def reread(lv):
    from dustmaker import read_level, write_level

    return read_level(write_level(lv))


def g_tiles(tier):
    for shape in VALUES["tile", "TileShape"]:
        for sset in VALUES["tile", "TileSpriteSet"]:
            yield (shape, sset)


@PROP.family(g_tiles, "every tile shape x sprite set x side by name: the numbers stored in the file, and the names after reading it")
def tiles(ctx, case):
    from dustmaker import Level
    from dustmaker.tile import Tile, TileShape, TileSide, TileSpriteSet

    shape, sset = case
    for side in VALUES["tile", "TileSide"]:
        lv = Level()
        t = Tile(getattr(TileShape, shape))
        t.sprite_set = getattr(TileSpriteSet, sset)
        e = t.edge_data[getattr(TileSide, side)]
        e.solid = True
        e.filth_sprite_set = getattr(TileSpriteSet, sset)
        lv.tiles[19, 3, 4] = t
        ctx.step(2)
        got = written(lv)["tiles"][19, 3, 4]
        same(got[0], VALUES["tile", "TileShape"][shape], "stored shape")
        same(got[2], VALUES["tile", "TileSpriteSet"][sset], "stored sprite set")
        edges = [ref.BLANK_EDGE] * 4
        i = VALUES["tile", "TileSide"][side]
        edges[i] = (True,) + ref.BLANK_EDGE[1:4] + (VALUES["tile", "TileSpriteSet"][sset],) + ref.BLANK_EDGE[5:]
        same(got[5], tuple(edges), f"stored edges, {side} changed")
        back = reread(lv).tiles[19, 3, 4]
        same(back.shape, getattr(TileShape, shape), "shape after reading")
        same(back.sprite_set, getattr(TileSpriteSet, sset), "sprite set after reading")
        same(back.edge_data[getattr(TileSide, side)].filth_sprite_set, getattr(TileSpriteSet, sset), "filth after reading")
        ctx.state(case, side)


def g_types(tier):
    for n in VALUES["level", "LevelType"]:
        yield ("level", n)
    for n in VALUES["entity", "CameraNodeType"]:
        yield ("camera", n)


@PROP.family(g_types, "every level type and camera node type by name, to the file and back")
def types(ctx, case):
    from dustmaker import Level
    from dustmaker.entity import CameraNode, CameraNodeType
    from dustmaker.level import LevelType

    what, name = case
    lv = Level()
    ctx.step(2)
    if what == "level":
        lv.level_type = getattr(LevelType, name)
        same(dict(written(lv)["vars"][1]).get("level_type"), ("i", VALUES["level", "LevelType"][name]), "stored level type")
        same(reread(lv).level_type, getattr(LevelType, name), "level type after reading")
    else:
        e = CameraNode()
        e.node_type = getattr(CameraNodeType, name)
        k = lv.add_entity(1.0, 2.0, e)
        same(dict(written(lv)["ents"][k][2][1][1]).get("node_type"), ("i", VALUES["entity", "CameraNodeType"][name]), "stored camera node type")
        same(reread(lv).entities[k][2].node_type, getattr(CameraNodeType, name), "camera node type after reading")
    ctx.state(case)


def g_replay(tier):
    for c in VALUES["replay", "Character"]:
        yield ("char", c)
    for i in VALUES["replay", "IntentStream"]:
        yield ("intent", i)
    for m in range(32):
        yield ("mouse", m)


@PROP.family(g_replay, "every character, intent stream and combination of mouse buttons by name, to the file and back")
def replays(ctx, case):
    from dustmaker import DFReader, DFWriter
    from dustmaker import replay as R

    what, x = case
    rep = R.Replay(frames=9, players=[R.PlayerData()])
    pl = rep.players[0]
    char, streams = 0, {}
    if what == "char":
        pl.character = getattr(R.Character, x)
        char = VALUES["replay", "Character"][x]
    elif what == "intent":
        k = VALUES["replay", "IntentStream"][x]
        pl.intents[getattr(R.IntentStream, x)] = [RC.to_api(k, 1 + (k < 2)), RC.to_api(k, 1 if k > 1 else 0)]
        streams = {k: [1 + (k < 2), 1 if k > 1 else 0]}
    else:
        v = R.MouseState(0)
        for n, bit in VALUES["replay", "MouseState"].items():
            if x & bit:
                v |= getattr(R.MouseState, n)
        pl.intents[R.IntentStream.MOUSE_STATE] = [v]
        streams = {10: [x]} if x else {}
    f = io.BytesIO()
    w = DFWriter(f, noclose=True)
    w.write_replay(rep)
    w.close()
    ctx.step(2)
    got, _ = ref.decode_replay(f.getvalue())
    same(got["players"][0][0], char, "stored character")
    same({k: w for k, w in ((k, ref.trim(k, v)) for k, v in got["players"][0][1].items()) if w}, {k: v for k, v in streams.items()}, "stored intents")
    back = DFReader(io.BytesIO(f.getvalue())).read_replay()
    same(back.players[0].character, R.Character(char), "character after reading")
    for k, vals in pl.intents.items():
        for i, val in enumerate(vals):
            same(back.players[0].get_intent_value(k, i), val, f"{k!r} after reading")
    ctx.state(case)


def g_classes(tier):
    for c in CLASSES:
        yield c
    for u in UNKNOWN:
        yield "?" + u


@PROP.family(g_classes, "every shipped entity class: the type name a new object gets and the file stores, and the class and defaults found when reading it; unknown type names stay plain entities")
def classes(ctx, name):
    from dustmaker import Level
    from dustmaker import entity as E

    if name[0] == "?":
        etype, cls = name[1:], E.Entity
        e = E.Entity()
        same(e.etype, "unknown_type", "type of a plain entity")
        e.etype = etype
    else:
        etype = CLASSES[name]
        require(hasattr(E, name), "no class", name)
        cls = getattr(E, name)
        e = cls()
    same(ref.snap_entity(e), (etype, ("S", ()), 0, 18, False, False, True), f"new {name}")
    lv = Level()
    k = lv.add_entity(10.5, -3.0, e)
    ctx.step(3)
    same(written(lv)["ents"][k][2][0], etype, "stored type")
    back = reread(lv).entities[k][2]
    require(type(back) is cls, "class after reading", type(back))
    same(ref.snap_entity(back), ref.snap_entity(e), "entity after reading")
    ctx.state(name)


def near_names(name):
    out = {"_" + name, name + "_", name[:-1], name[1:], name.upper(), name.lower(), name.capitalize(), name.swapcase(), "z_" + name, name + "0", name + "s", " " + name, name + " ",
           name.replace("_", ""), name.replace("_", "-"), "enemy_" + name, name.removeprefix("enemy_"), name.removeprefix("z_"), name + "_" + name, name.split("_")[-1], name[::-1], "entity_" + name}
    return sorted(n for n in out if n and n not in CLASSES.values())


@PROP.family(g_classes, "names that resemble a shipped type (other case, a character more or less, prefixes, suffixes) are not that type: plain entities that keep their name")
def near_misses(ctx, name):
    from dustmaker import Level
    from dustmaker import entity as E

    if name[0] == "?":
        return
    lv = Level()
    ids = {}
    # names the file's character set can hold, and of at most its length
    for n in near_names(CLASSES[name]):
        if len(n) <= 63 and all(c.isalnum() or c == "_" for c in n):
            e = E.Entity()
            e.etype = n
            ids[lv.add_entity(1, 2, e)] = n
    ctx.step(len(ids))
    got, back = written(lv)["ents"], reread(lv).entities
    for k, n in ids.items():
        same(got[k][2][0], n, "stored type")
        require(type(back[k][2]) is E.Entity, n, "read as", type(back[k][2]))
        same(back[k][2].etype, n, "type after reading")
    ctx.state(name, len(ids))


def g_own(tier):
    for base in ("Entity", "Trigger", "Enemy", "CheckPoint", "Apple", "EntityHittable"):
        for etype in ("z_my_type", "my_type", "A", "k" * 63):
            for depth in (1, 2, 3):
                yield (base, etype, depth)


@PROP.family(g_own, "user-defined entity types below 6 base classes, four names, up to three levels of subclasses: used by reader and writer as soon as they are defined, and only for their own name")
def own_types(ctx, case):
    from dustmaker import Level
    from dustmaker import entity as E

    base, etype, depth = case
    cls = getattr(E, base)
    mine = []
    filth = {}
    for d in range(depth):
        ident = etype if depth == 1 else f"{etype[:60]}_{d}"
        body = {"TYPE_IDENTIFIER": ident}
        if base == "Enemy":
            # a subclass may state its filth, or inherit it
            filth[ident] = 1 if d == 0 else 7
            if d == 1:
                body["FILTH"] = 7
        cls = type(f"Mine{d}", (cls,), body)
        mine.append((ident, cls))
    lv = Level()
    ids = {}
    for ident, c in mine:
        e = c()
        same(e.etype, ident, "type of a new object")
        ids[lv.add_entity(1, 2, e)] = (ident, c)
    bear = lv.add_entity(1, 2, E.EnemyBear())
    plain = None
    if base != "Enemy":
        raw = E.Entity()
        raw.etype = mine[-1][0]
        plain = lv.add_entity(1, 2, raw)
    ctx.step(2)
    ref.FILTH.update(filth)
    try:
        got = written(lv)["ents"]
    finally:
        for k in filth:
            del ref.FILTH[k]
    back = reread(lv).entities
    for k, (ident, c) in ids.items():
        same(got[k][2][0], ident, "stored type")
        require(type(back[k][2]) is c, "class after reading", type(back[k][2]), "instead of", c)
        same(back[k][2].etype, ident, "type after reading")
    require(type(back[bear][2]) is E.EnemyBear, "shipped class after reading")
    if plain is not None:
        require(type(back[plain][2]) is mine[-1][1], "type found by its name")
    ctx.state(case)


def g_defaults(tier):
    for x in ("level", "backdrop", "tile", "edge", "replay", "player", "frame", "entity data", "file"):
        yield x


@PROP.family(g_defaults, "default values of every data class, and that two new objects share nothing")
def defaults(ctx, what):
    from dustmaker import Level, Tile
    from dustmaker import replay as R
    from dustmaker import tile as T

    ctx.step()
    if what in ("level", "backdrop"):
        lv, other = Level(), Level()
        if what == "backdrop":
            same((lv.parent, lv.backdrop.backdrop), (None, None), "no parent, no backdrop of the backdrop")
            require(lv.backdrop.parent is lv, "parent of the backdrop")
            lv, other = lv.backdrop, other.backdrop
        same((lv.tiles, lv.props, lv.entities, lv.sshot), ({}, {}, {}, b""), "new level")
        same(bytes(Level().dustmod_version), b"dustmaker", "dustmod version of a new level")
        if what == "level":
            same((lv.name, int(lv.level_type), lv.virtual_character), (b"", 0, False), "properties of a new level")
        require(lv.tiles is not other.tiles and lv.props is not other.props and lv.entities is not other.entities and lv.variables is not other.variables, "shared containers")
        lv.tiles[1, 2, 3] = Tile(T.TileShape.FULL)
        lv.variables.clear()
        same((other.tiles, bool(other.variables)), ({}, True), "other level")
    elif what == "tile":
        t = Tile(T.TileShape.HALF_B)
        same(ref.snap_tile(t), (18, 4, 5, 1, 0, (ref.BLANK_EDGE,) * 4), "new tile")
        require(len({id(e) for e in t.edge_data}) == 4, "edges of a new tile are shared")
        t.edge_data[0].solid = True
        same(ref.snap_tile(Tile(T.TileShape.FULL)), (0, 4, 5, 1, 0, (ref.BLANK_EDGE,) * 4), "next tile")
    elif what == "edge":
        same(ref.snap_edge(T.TileEdgeData()), ref.BLANK_EDGE, "new edge")
    elif what == "replay":
        r, o = R.Replay(), R.Replay()
        same((r.version, r.username, r.level, r.frames, r.players, r.entities), (4, b"", b"", 0, [], {}), "new replay")
        same(R.LATEST_VERSION, 4, "latest replay version")
        require(r.players is not o.players and r.entities is not o.entities, "shared containers")
    elif what == "player":
        p, o = R.PlayerData(), R.PlayerData()
        same((p.character, p.intents), (R.Character.DUSTMAN, {}), "new player")
        require(p.intents is not o.intents, "shared intents")
        for i in R.IntentStream:
            for f in (-1, 0, 1, 10**9):
                same(p.get_intent_value(i, f), 0, f"neutral {i!r}")
    elif what == "frame":
        f = R.EntityFrame()
        same((f.frame, f.x_pos, f.y_pos, f.x_speed, f.y_speed), (0, 0.0, 0.0, 0.0, 0.0), "new frame")
    elif what == "entity data":
        d, o = R.EntityData(), R.EntityData()
        same(d.frames, [], "new entity data")
        require(d.frames is not o.frames, "shared frames")
    else:
        got = written(Level())
        want = ref.empty_level()
        want["vars"] = ("S", (("dustmod_version", ("s", b"dustmaker")),))
        ref.diff_levels(got, want, "file of a new level")
    ctx.state(what)
