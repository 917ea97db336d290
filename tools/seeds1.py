"""Planted bugs, first round: one or two per property, written from the statements."""
SEEDS = []


def S(id, prop, edits, needs, what, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo))


B, R, W, LV, T, E, V, X, RP = (
    "dustmaker/" + n for n in ("bitio.py", "dfreader.py", "dfwriter.py", "level.py", "tile.py", "entity.py", "variable.py", "transform.py", "replay.py")
)
CV, CT, CX, CS = ("dustmaker/cmd/" + n for n in ("variables.py", "thumbnail.py", "transform.py", "save_convert.py"))

S("C01-seek-drops-bits", "C01", [(B, "        self.flush()\n        super().bit_seek(pos)\n", "        super().bit_seek(pos)\n        self.flush()\n")],
  "a seek while a byte is only partly written", "the pending bits are lost when seeking away",
  """
import io
from dustmaker.bitio import BitIOWriter
f = io.BytesIO()
w = BitIOWriter(f, noclose=True)
w.write(11, 0x5A5)
w.bit_seek(0)
w.write(8, 1)
w.close()
assert f.getvalue() == bytes((1, 5)), f.getvalue()
""")
S("C01-narrow-negative", "C01", [(B, "            val += 1 << bits\n", "            val &= (1 << max(bits, 8)) - 1\n")],
  "a negative value in a field narrower than a byte followed by more bits in the same byte", "the sign bits spill into the following field",
  """
import io
from dustmaker.bitio import BitIOWriter
f = io.BytesIO()
w = BitIOWriter(f, noclose=True)
w.write(3, -2)
w.write(5, 1)
w.close()
assert f.getvalue() == bytes((6 | 1 << 3,)), f.getvalue()
""")
S("C02-skip-in-byte", "C02", [(B, "        self.bit_seek(self._tell + bits)\n", "        if 0 <= bits <= self._bits_left:\n            # Stay within the buffered byte\n            self._bits >>= bits\n            self._bits_left -= bits\n            self._tell += bits\n            return\n        self.bit_seek(self._tell + bits)\n")],
  "a seek into the middle of a byte followed by a skip to the end of that byte", "the next read starts at the wrong byte",
  """
import io
from dustmaker.bitio import BitIOReader
r = BitIOReader(io.BytesIO(b"\\x11\\x22\\x33\\x44"))
r.bit_seek(4)
r.skip(4)
assert r.read_bytes(1) == b"\\x22"
""")
S("C03-len64", "C03", [(W, "        if len(text) > 63:\n", "        if len(text) > 64:\n")],
  "a 6-bit string of 64 characters", "it is written with length 0 instead of being refused",
  """
import io
from dustmaker import DFWriter
try:
    DFWriter(io.BytesIO()).write_6bit_str("a" * 64)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")
S("C04-long-string", "C04", [(W, "                xs = elem_var.value\n                for i in range(0, 1 + len(xs) // max_width):\n", "                xs = elem_var.value\n                for i in range(0, max(1, (len(xs) + max_width - 1) // max_width)):\n")],
  "a string in a struct whose length is an exact multiple of 65535", "the reader takes the following entry for a continuation",
  """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.variable import *
m = {"a": VariableString(b"x" * 65535), "b": VariableString(b"y")}
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_var_file(b"DF_STA", m)
w.close()
f.seek(0)
assert DFReader(f).read_var_file(b"DF_STA") == m
""")
S("C04-array-continuation", "C04", [(R, "                        if len(value_part) < max_width:\n                            break\n\n                    val.append", "                        if 0 < len(value_part) < max_width:\n                            break\n\n                    val.append")],
  "an array of strings with an empty string that is not the last", "the empty string is merged with the following one",
  """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.variable import *
m = {"a": VariableArray(VariableString, [VariableString(b""), VariableString(b"y")])}
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_var_file(b"DF_STA", m)
w.close()
f.seek(0)
assert DFReader(f).read_var_file(b"DF_STA") == m
""")
S("C05-nested-types", "C05", [(V, "            assert isinstance(key, str) and isinstance(val, Variable)\n            val._assert_types()\n", "            assert isinstance(key, str) and isinstance(val, Variable)\n")],
  "a struct whose member was given a wrong value after creation", "assert_types accepts it",
  """
from dustmaker.variable import *
s = VariableStruct({"a": VariableInt(1)})
s.value["a"].value = "text"
try:
    s.assert_types()
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")
S("C06-layer20", "C06", [(W, "        tiles = [(i, segment.tiles[i]) for i in range(21) if segment.tiles[i]]\n", "        tiles = [(i, segment.tiles[i]) for i in range(20) if segment.tiles[i]]\n")],
  "tiles on layer 20", "they are not written",
  """
from dustmaker import read_level, write_level
from dustmaker.level import Level
from dustmaker.tile import Tile
l = Level()
l.tiles[(20, 1, 1)] = Tile()
assert read_level(write_level(l)).tiles == l.tiles
""")
S("C06-type-entity", "C06", [(W, "                if entity.etype.startswith(\"z_\") or entity.etype == \"entity\":\n", "                if entity.etype.startswith(\"z_\"):\n")],
  "an entity of type 'entity' in the same segment as a script entity", "names of script entities are mixed up",
  """
from dustmaker import read_level, write_level
from dustmaker.level import Level
from dustmaker.entity import Entity
l = Level()
for i, n in enumerate(("entity", "z_thing")):
    e = Entity()
    e.etype = n
    l.add_entity(10, 10, e, 200 + i)
m = read_level(write_level(l))
assert [m.entities[i][2].etype for i in (200, 201)] == ["entity", "z_thing"]
""")
S("C07-spike-filth", "C07", [(W, "                            if edge.filth_sprite_set != TileSpriteSet.NONE_0:\n                                dust_filth += 1\n", "                            if edge.filth_sprite_set != TileSpriteSet.NONE_0 and edge.solid:\n                                dust_filth += 1\n")],
  "dust on an edge that is not solid", "the filth count of the segment is too small",
  """
import io, zlib
from dustmaker import write_level
from dustmaker.level import Level
from dustmaker.tile import Tile, TileSpriteSet
l = Level()
t = Tile()
t.edge_data[0].filth_sprite_set = TileSpriteSet.FOREST
l.tiles[(19, 1, 1)] = t
data = write_level(l)
raw = zlib.decompress(data[data.index(b"\\x78\\x9c"):])
assert int.from_bytes(raw[13:15], "little") == 1
""")
S("C07-region-order", "C07", [(W, "            if x < 0:\n                x += 1 << 16\n", "            if x < 0:\n                x -= 1 << 16\n")],
  "a level that spans negative and positive x regions", "regions are stored in an order the game does not accept",
  """
import io
from dustmaker import DFReader, write_level
from dustmaker.level import Level
from dustmaker.tile import Tile
l = Level()
l.tiles[(19, -5, 0)] = Tile()
l.tiles[(19, 5, 0)] = Tile()
r = DFReader(io.BytesIO(write_level(l)))
_, offs = r.read_level_ex()
start = r.bit_tell()
xs = []
for o in offs[:-1]:
    r.bit_seek(start + o * 8 + 64)
    xs.append(r.read(16, True))
assert xs == [0, -1], xs
""")
S("C08-old-entity-name", "C08", [(R, "                if etype == \"entity\" and version > 7:\n", "                if etype == \"entity\":\n")],
  "a segment of version 7 or older with an entity named 'entity'", "the reader looks for extended names that do not exist",
  """
import io, zlib
from dustmaker import DFReader, DFWriter
from dustmaker.level import Level
f = io.BytesIO()
w = DFWriter(f, noclose=True)
def seg(size):
    w.bit_seek(0)
    w.write(32, size); w.write(16, 7); w.write(8, 0); w.write(8, 0); w.write(8, 16)
    w.write(32, 0); w.write(16, 0); w.write(16, 0); w.write(16, 0); w.write(16, 0)
    w.write(32, 4); w.write(16, 1); w.write(32, 150); w.write_6bit_str("entity")
    w.write_float(32, 8, 1.0); w.write_float(32, 8, 1.0)
    w.write(16, 0); w.write(8, 18); w.write(3, 7); w.write(4, 0)
    w.align()
seg(0)
seg(w.bit_tell() // 8)
w.close()
f.seek(0)
l = Level()
DFReader(f).read_segment(l, 0, 0)
assert l.entities[150][2].etype == "entity"
""")
S("C08-duplicate-prop", "C08", [(R, "                level.props.pop(id_num, None)\n                level.add_prop(", "                level.props.pop(id_num if version > 7 else None, None)\n                level.add_prop(")],
  "an old segment that repeats a prop id", "the level cannot be read",
  """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.level import Level
f = io.BytesIO()
w = DFWriter(f, noclose=True)
def seg(size):
    w.bit_seek(0)
    w.write(32, size); w.write(16, 6); w.write(8, 0); w.write(8, 0); w.write(8, 16)
    w.write(32, 0); w.write(16, 0); w.write(16, 0); w.write(16, 0); w.write(16, 0)
    w.write(32, 8); w.write(16, 2)
    for x in (5.0, 9.0):
        w.write(32, 150); w.write(8, 3); w.write(8, 4); w.write_float(28, 4, x); w.write_float(28, 4, x)
        w.write(16, 0); w.write(2, 0); w.write(8, 1); w.write(12, 1); w.write(12, 1); w.write(8, 0)
    w.align()
seg(0)
seg(w.bit_tell() // 8)
w.close()
f.seek(0)
l = Level()
DFReader(f).read_segment(l, 0, 0)
assert l.props[150][1] == 9.0
""")
S("C09-embedded", "C09", [(R, "        region_offsets.append(filesize - ((self.bit_tell() - start_index) >> 3))\n", "        region_offsets.append(filesize - (self.bit_tell() >> 3))\n")],
  "a level that does not start at the beginning of the stream", "too little region data is reported and lost on rewriting",
  """
import io
from dustmaker import DFReader, write_level
from dustmaker.level import Level
from dustmaker.tile import Tile
l = Level()
l.tiles[(19, 0, 0)] = Tile()
data = write_level(l)
f = io.BytesIO(b"12345" + data)
f.seek(5)
r = DFReader(f)
_, offs = r.read_level_ex()
assert r.bit_tell() // 8 + offs[-1] == 5 + len(data)
""")
S("C09-chunks", "C09", [(W, "            for data in region_data:\n                self.write_bytes(data)\n", "            for data in region_data:\n                if not data:\n                    break\n                self.write_bytes(data)\n")],
  "region data given as an iterable with an empty chunk in the middle", "the rest of the region data is not written",
  """
import io
from dustmaker import DFReader, DFWriter, write_level
from dustmaker.level import Level
from dustmaker.tile import Tile
l = Level()
l.tiles[(19, 0, 0)] = Tile()
data = write_level(l)
r = DFReader(io.BytesIO(data))
lv, offs = r.read_level_ex()
reg = r.read_bytes(offs[-1])
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_level_ex(lv, offs, [reg[:3], b"", reg[3:]])
w.close()
assert f.getvalue() == data
""")
S("C10-run256", "C10", [(W, "                        if count <= 0xFF:\n", "                        if count <= 0x100:\n")],
  "a run of exactly 256 equal intent values", "it is taken for the end of the stream",
  """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.replay import *
rep = Replay(frames=300, players=[PlayerData()])
rep.players[0].intents[IntentStream.JUMP] = [1] + [2] * 256 + [1] * 3
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_replay(rep)
w.close()
f.seek(0)
assert DFReader(f).read_replay().players[0].intents[IntentStream.JUMP] == rep.players[0].intents[IntentStream.JUMP]
""")
S("C11-inputs-len", "C11", [(W, "            sub_writer.write(32, (pos - 32) // 8)\n", "            sub_writer.write(32, pos // 8)\n")],
  "any replay read by another implementation", "the length of the input section is wrong",
  """
import io, zlib
from dustmaker import DFWriter
from dustmaker.replay import *
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_replay(Replay(players=[]))
w.close()
raw = zlib.decompress(f.getvalue()[18:])
assert raw[:8] == bytes(8), raw[:8]
""")
S("C11-padding", "C11", [(R, "                    sub_reader.bit_seek(next_pos)\n", "                    sub_reader.align()\n                    assert sub_reader.bit_tell() <= next_pos\n")],
  "an intent stream with padding behind its end marker", "the reader does not skip to the next stream",
  """
import io, signal, zlib
from dustmaker import DFReader
from dustmaker.replay import *
signal.alarm(20)
body = b""
for i in range(7):
    body += (4).to_bytes(4, "little") + b"\\xff\\x00\\x00\\x00"
raw = len(body).to_bytes(4, "little") + body + bytes(4)
data = b"DF_RPL1" + b"\\x01\\x00" + len(raw).to_bytes(4, "little") + bytes(4) + b"\\x00" + b"\\x01a" + zlib.compress(raw)
rep = DFReader(io.BytesIO(data)).read_replay()
assert all(v == [] for v in rep.players[0].intents.values()) and not rep.entities
""")
S("C12-known-length", "C12", [(R, "            input_data = zlib.decompress(\n                self.read_bytes(known_length - (self.bit_tell() - start_pos) // 8)\n            )\n", "            input_data = zlib.decompressobj().decompress(\n                self.read_bytes(known_length - (self.bit_tell() - start_pos) // 8)\n            )\n")],
  "a replay cut off at its end, read with its length", "the truncation is not noticed",
  """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.replay import *
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_replay(Replay(frames=5, players=[PlayerData()], level=b"abc"))
w.close()
data = f.getvalue()
try:
    DFReader(io.BytesIO(data[:-2])).read_replay(known_length=len(data) - 2)
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")
S("C15-scalar", "C15", [(X, "                    (self[1][0] * rhs, self[1][1] * rhs, self[1][2] * rhs),\n", "                    (self[1][0] * rhs, self[1][1] * rhs, self[1][2]),\n")],
  "scaling a matrix with a vertical translation", "the translation is not scaled",
  """
from dustmaker.transform import TxMatrix
m = TxMatrix.IDENTITY.translate(3, 5) * 2
assert m.sample(1, 1) == (8, 12)
""")
S("C16-player4", "C16", [(LV, "        for player in range(1, 5):\n", "        for player in range(1, 4):\n")],
  "a level with a start position for player 4", "it stays where it was",
  """
from dustmaker.level import Level
l = Level()
l.start_position(4).x = 10
l.translate(48, 0)
assert l.start_position(4).x == 58
""")
S("C16-negative-rotation", "C16", [(LV, "        self.transform(TxMatrix.ROTATE[times % 4])\n", "        self.transform(TxMatrix.ROTATE[abs(times) % 4])\n")],
  "a counterclockwise rotation", "the level is rotated clockwise",
  """
from dustmaker.level import Level
from dustmaker.entity import Entity
l = Level()
l.add_entity(10.0, 0.0, Entity(), 100)
l.rotate(-1)
assert l.entities[100][:2] == (0, -10), l.entities
""")
S("C17-trigger-area", "C17", [(E, "            areas[i] = mat.sample(*pos, with_offset=False)\n", "            areas[i] = mat.sample(*pos)\n")],
  "translating a level with a checkpoint", "its trigger area, which is relative, is moved a second time",
  """
from dustmaker.level import Level
from dustmaker.entity import CheckPoint
l = Level()
c = CheckPoint()
c.trigger_areas.append((5.0, 6.0))
l.add_entity(1.0, 1.0, c)
l.translate(48.0, 48.0)
assert list(c.trigger_areas) == [(5.0, 6.0)]
""")
S("C18-palette", "C18", [(LV, "                if (tile.sprite_set, tile.sprite_tile, tile.sprite_palette) == (\n                    ntile.sprite_set,\n                    ntile.sprite_tile,\n                    ntile.sprite_palette,\n                ):\n", "                if (tile.sprite_set, tile.sprite_tile) == (\n                    ntile.sprite_set,\n                    ntile.sprite_tile,\n                ):\n")],
  "two neighbours that differ only in the palette", "the edge between them becomes invisible",
  """
from dustmaker.level import Level
from dustmaker.tile import *
l = Level()
l.tiles[(19, 0, 0)] = Tile(sprite_palette=0)
l.tiles[(19, 1, 0)] = Tile(sprite_palette=1)
l.calculate_edge_visibility()
assert l.tiles[(19, 0, 0)].edge_data[TileSide.RIGHT].visible
""")
S("C18-flush-neighbour", "C18", [(LV, "                if not nedge_exists or not nedge_flush:\n", "                if not nedge_exists and not nedge_flush:\n")],
  "a full tile next to the slanted side of a neighbour", "the edge is taken for covered",
  """
from dustmaker.level import Level
from dustmaker.tile import *
l = Level()
l.tiles[(19, 0, 0)] = Tile()
l.tiles[(19, 1, 0)] = Tile(TileShape.BIG_4)
l.calculate_edge_visibility()
assert l.tiles[(19, 0, 0)].edge_data[TileSide.RIGHT].solid
""")
S("C19-spike-match", "C19", [(LV, "                        if (edge_data.filth_spike, edge_data.filth_sprite_set) == (\n                            nedge_data.filth_spike,\n                            nedge_data.filth_sprite_set,\n                        ):\n", "                        if edge_data.filth_sprite_set == nedge_data.filth_sprite_set:\n")],
  "spikes next to dust of the same sprite set", "no cap is drawn between them",
  """
from dustmaker.level import Level
from dustmaker.tile import *
l = Level()
for x in (0, 1):
    t = Tile()
    t.edge_data[0].filth_sprite_set = TileSpriteSet.FOREST
    t.edge_data[0].filth_spike = x == 1
    l.tiles[(19, x, 0)] = t
l.calculate_edge_visibility()
l.calculate_edge_caps()
assert l.tiles[(19, 0, 0)].edge_data[0].filth_caps == (True, True)
""")
S("C19-invisible-joiner", "C19", [(LV, "                        nedge_data = ntile.edge_data[side]\n                        if not nedge_data.visible:\n                            continue\n", "                        nedge_data = ntile.edge_data[side]\n                        if not (nedge_data.visible or nedge_data.solid):\n                            continue\n")],
  "an edge that continues in an invisible but solid edge", "no cap is drawn at the end of the visible part",
  """
from dustmaker.level import Level
from dustmaker.tile import *
l = Level()
for x in (0, 1):
    t = Tile()
    t.edge_data[0].solid = True
    t.edge_data[0].visible = x == 0
    l.tiles[(19, x, 0)] = t
l.calculate_edge_caps()
assert l.tiles[(19, 0, 0)].edge_data[0].caps == (True, True)
""")
S("C20-equal-id", "C20", [(LV, "            self._next_id = max(self._next_id, id_num + 1)\n", "            if id_num > self._next_id:\n                self._next_id = id_num + 1\n")],
  "an object added with exactly the id that would be handed out next", "the next allocated id collides with it",
  """
from dustmaker.level import Level
from dustmaker.entity import Entity
l = Level()
a = l.add_entity(0.0, 0.0, Entity())
l.add_entity(0.0, 0.0, Entity(), a + 1)
assert l.add_entity(0.0, 0.0, Entity()) == a + 2
""")
S("C20-backdrop-max", "C20", [(LV, "        if self.backdrop is not None:\n            mx_id = max(mx_id, self.backdrop.calculate_max_id())\n", "        if self.backdrop is not None and self.backdrop.tiles:\n            mx_id = max(mx_id, self.backdrop.calculate_max_id())\n")],
  "a level whose highest id belongs to a prop of a backdrop without tiles", "ids of backdrop props are handed out again",
  """
from dustmaker.level import Level
from dustmaker.prop import Prop
l = Level()
l.backdrop.add_prop(1, 0.0, 0.0, Prop(0, 0, False, False, 1.0, 1, 1, 1, 0), 500)
assert l.calculate_max_id() == 500
""")
S("C21-merge-collision", "C21", [(LV, "            self.remap_ids(other_level.calculate_max_id() + 1)\n", "            self.remap_ids(other_level.calculate_max_id())\n")],
  "merging when the other level uses its highest id for an object of the kind that is remapped first", "an object of this level is overwritten",
  """
from dustmaker.level import Level
from dustmaker.prop import Prop
mk = lambda: Prop(0, 0, False, False, 1.0, 1, 1, 1, 0)
a, b = Level(), Level()
a.add_prop(1, 1.0, 1.0, mk(), 150)
b.add_prop(1, 2.0, 2.0, mk(), 150)
a.merge(b)
assert sorted(v[1] for v in a.props.values()) == [1.0, 2.0]
""")
S("C21-levelend", "C21", [(E, "        ents = self.entities\n        for i, ent_id in enumerate(ents):\n            ents[i] = id_map.get(ent_id, 0)\n", "        ents = self.entities\n        for i, ent_id in enumerate(set(ents)):\n            ents[i] = id_map.get(ent_id, 0)\n")],
  "a level end with several attached entities", "the attached entities change",
  """
from dustmaker.level import Level
from dustmaker.entity import *
l = Level()
ids = [l.add_entity(float(i), 0.0, Entity(), i) for i in (900, 130, 457, 111)]
end = LevelEnd()
for i in ids:
    end.entities.append(i)
l.add_entity(50.0, 0.0, end)
l.remap_ids()
assert [l.entities[i][0] for i in end.entities] == [900.0, 130.0, 457.0, 111.0]
""")
S("C22-empty-array", "C22", [(E, "        var = self.variables.get(prop_name)\n        if var is None:\n", "        var = self.variables.get(prop_name)\n        if not var:\n")],
  "keeping a list property while it is still empty and reading the property again", "what is added to the kept list is lost",
  """
from dustmaker.entity import AIController
e = AIController()
nodes = e.nodes
assert len(e.nodes) == 0
nodes.append((1.0, 2.0))
assert list(e.nodes) == [(1.0, 2.0)]
""")
S("C23-insert-negative", "C23", [(V, "        self.value[1].insert(index, self._box(value))\n", "        if index < 0:\n            index += len(self.value[1]) + 1\n        self.value[1].insert(index, self._box(value))\n")],
  "insert with a negative index", "the element lands one place too far",
  """
from dustmaker.variable import *
a = VariableArray(VariableInt, [VariableInt(1), VariableInt(2)])
a.insert(-1, 9)
assert list(a) == [1, 9, 2]
""")
S("C23-gradient", "C23", [(E, "        while len(self.gradient) > 3:\n            self.gradient.pop()\n", "        if len(self.gradient) > 3:\n            self.gradient.pop()\n")],
  "a fog trigger with five or more gradient entries", "normalize leaves too many",
  """
from dustmaker.entity import FogTrigger
f = FogTrigger()
for i in range(6):
    f.gradient.append(i)
f.normalize()
assert list(f.gradient) == [0, 1, 2]
""")
S("C24-flags", "C24", [(T, "            self.shape,\n            self.tile_flags,\n            tuple(self.edge_data),\n", "            self.shape,\n            tuple(self.edge_data),\n")],
  "two tiles that differ only in their flags", "they compare equal",
  """
from dustmaker.tile import Tile
assert Tile(tile_flags=4) != Tile(tile_flags=5)
""")
S("C25-encoding", "C25", [(CV, "        return VariableString(jvars.encode(\"latin1\"))\n", "        return VariableString(jvars.encode())\n")],
  "a string with bytes above 127", "importing an export changes it",
  """
from dustmaker.cmd.variables import *
v = VariableStruct({"a": VariableString(b"caf\\xe9")})
assert json_to_variables(*variables_to_json(v)) == v
""")
S("C25-struct-array-schema", "C25", [(CV, "            if r_subschema is None:\n                result[subkey] = subschema\n            else:\n                result[subkey] = merge_schema(r_subschema, subschema)\n", "            if r_subschema is None or isinstance(subschema, dict):\n                result[subkey] = subschema\n            else:\n                result[subkey] = merge_schema(r_subschema, subschema)\n")],
  "an array of structs that hold structs with different keys", "the schema misses keys and the export cannot be imported",
  """
from dustmaker.cmd.variables import *
i, s = VariableInt, VariableStruct
v = s({"a": VariableArray(s, [s({"k": s({"x": i(1)})}), s({"k": s({"y": i(2)})})])})
assert json_to_variables(*variables_to_json(v)) == v
""")
S("C26-flip-order", "C26", [(CX, "            mat = TxMatrix.VFLIP * mat\n", "            mat = mat * TxMatrix.VFLIP\n")],
  "rotating by an odd number of quarter turns together with a vertical flip", "the flip happens before the rotation",
  """
import os, subprocess, sys, tempfile
from dustmaker import read_level, write_level
from dustmaker.level import Level
from dustmaker.entity import Entity
with tempfile.TemporaryDirectory() as d:
    l = Level()
    l.add_entity(10.0, 3.0, Entity(), 100)
    open(d + "/a", "wb").write(write_level(l))
    subprocess.check_call([sys.executable, "-m", "dustmaker", "transform", "--rotate", "1", "--vflip", d + "/a", d + "/b"])
    m = read_level(open(d + "/b", "rb").read())
    l.rotate(1)
    l.flip_vertical()
    assert m.entities[100][:2] == l.entities[100][:2], m.entities[100]
""")
S("C26-icon", "C26", [(CT, "                fout.write(level.sshot)\n", "                fout.write(level.sshot.rstrip(b\"\\x00\"))\n")],
  "a thumbnail that ends in zero bytes", "the extracted image lacks them",
  """
import os, subprocess, sys, tempfile
from dustmaker import write_level
from dustmaker.level import Level
with tempfile.TemporaryDirectory() as d:
    l = Level()
    l.sshot = b"png\\x00\\x00"
    open(d + "/a", "wb").write(write_level(l))
    subprocess.check_call([sys.executable, "-m", "dustmaker", "thumbnail", d + "/a", d + "/b"])
    assert open(d + "/b", "rb").read() == l.sshot
""")
S("C27-unknown-header", "C27", [(CV, "                elif header not in KNOWN_VAR_FILE_HEADERS:\n                    sys.stderr.write(f\"unknown file header {header}\\n\")\n                    return 1\n\n        variables", "                elif not header.startswith(b\"DF_\"):\n                    sys.stderr.write(f\"unknown file header {header}\\n\")\n                    return 1\n\n        variables")],
  "updating variables of a file of another Dustforce type, such as a replay", "the file is overwritten",
  """
import json, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    data = b"DF_RPL4" + bytes(40)
    open(d + "/a", "wb").write(data)
    json.dump({"vars": {}, "schema": {}}, open(d + "/j", "w"))
    subprocess.call([sys.executable, "-m", "dustmaker", "variables", d + "/a", d + "/j"], stderr=subprocess.DEVNULL)
    assert open(d + "/a", "rb").read() == data
""")
S("C28-mary", "C28", [(CS, "            b\"mary2\",\n", "            b\"coretemple\",\n"), (CS, "            b\"coretemple\",\n            b\"abyss\",\n", "            b\"mary2\",\n            b\"abyss\",\n")],
  "never, both levels are in the same tier", "nothing", "raise SystemExit(0)")
S("C28-red-default", "C28", [(CS, "        if key > 0:\n            keys_used[key - 1] += 1\n", "        if key > 0 and score[\"overall\"].value >= 0:\n            keys_used[key - 1] += 1\n")],
  "a scored level with a negative overall value", "its key is not counted",
  """
from dustmaker.cmd.save_convert import migrate_stats
from dustmaker.variable import *
sc = VariableStruct({"file_name": VariableString(b"momentum"), "combo": VariableInt(1), "time": VariableFloat(1.0), "thorough": VariableFloat(1.0), "best_time": VariableFloat(1.0), "overall": VariableInt(-1)})
out = migrate_stats({"score": VariableArray(VariableStruct, [sc])})
assert list(out["k_wood_used"]) == [1]
""")
S("C29-merge-shares", "C29", [(LV, "        self.entities.update(copy.deepcopy(other_level.entities))\n", "        self.entities.update(copy.copy(other_level.entities))\n")],
  "changing an entity of the merged level afterwards", "the level it was merged into changes too",
  """
from dustmaker.level import Level
from dustmaker.entity import Entity
a, b = Level(), Level()
b.add_entity(0.0, 0.0, Entity(), 100)
a.merge(b)
b.entities[100][2].rotation = 77
assert [e[2].rotation for e in a.entities.values()] == [0]
""")
S("C30-pipe", "C30", [(B, "        except (AttributeError, IOError):\n", "        except AttributeError:\n")],
  "reading from a pipe", "the reader cannot be created",
  """
import os
from dustmaker.bitio import BitIOReader
r, w = os.pipe()
os.write(w, b"A")
os.close(w)
assert BitIOReader(os.fdopen(r, "rb")).read(8) == 65
""")
S("C30-exception-leaves-open", "C30", [(B, "    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.close()\n", "    def __exit__(self, exc_type, exc_val, exc_tb):\n        if exc_type is None:\n            self.close()\n")],
  "leaving the context of a writer by an exception", "the stream stays open and the last byte is missing",
  """
import io
from dustmaker.bitio import BitIOWriter
f = io.BytesIO()
try:
    with BitIOWriter(f) as w:
        w.write(3, 5)
        raise KeyError
except KeyError:
    pass
assert f.closed
""")
SEEDS[:] = [s for s in SEEDS if s["id"] != "C28-mary"]
