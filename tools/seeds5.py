"""Fifth round of planted bugs: thresholds, coincidences and rare layouts."""
SEEDS = []
B, R, W, LV, T, E, V, X, P, RP = ("dustmaker/" + n for n in (
    "bitio.py", "dfreader.py", "dfwriter.py", "level.py", "tile.py", "entity.py", "variable.py", "transform.py", "prop.py", "replay.py"))
VA = "dustmaker/cmd/variables.py"


def S(id_, prop, edits, needs, what, demo):
    SEEDS.append({"id": id_, "prop": prop, "edits": edits, "needs": needs, "what": what, "demo": demo})


S("C17-node-lookup", "C17", [(E, "        for i, pos in enumerate(nodes):\n            nodes[i] = mat.sample(*pos)\n", "        for pos in list(nodes):\n            nodes[nodes.index(pos)] = mat.sample(*pos)\n")],
  "waypoints that the transformation maps onto a later waypoint, such as points on a line under a translation", "one waypoint is moved twice and another one not at all",
  """
from dustmaker.entity import AIController
from dustmaker.transform import TxMatrix
e = AIController()
for i in range(4):
    e.nodes.append((48.0 * i, 0.0))
e.transform(TxMatrix.IDENTITY.translate(48.0, 0.0))
assert [tuple(p) for p in e.nodes] == [(48.0 * (i + 1), 0.0) for i in range(4)], list(e.nodes)
""")
S("C11-entity-records", "C11", [(R, "                entity = rep.entities.setdefault(entity_uid, replay.EntityData())\n", "                entity = rep.entities[entity_uid] = replay.EntityData()\n")],
  "a replay that stores the frames of one entity in two records", "the frames of the first record are lost",
  """
import io, zlib
from dustmaker import DFReader
body = (0).to_bytes(4, "little") + (2).to_bytes(4, "little")
for n in (1, 2):
    body += b"".join(v.to_bytes(4, "little") for v in (9, 0, 1, n, 10, 20, 30, 40))
data = b"DF_RPL3" + (0).to_bytes(2, "little") + len(body).to_bytes(4, "little") + (5).to_bytes(4, "little") + b"\\x01x" + zlib.compress(body)
rep = DFReader(io.BytesIO(data)).read_replay()
assert [f.frame for f in rep.entities[9].frames] == [1, 2], rep.entities
""")
S("C21-lone-entity", "C21", [(LV, "        for _, _, entity in self.entities.values():\n            entity.remap_ids(entity_remap)\n", "        if len(entity_remap) > 1:\n            for _, _, entity in self.entities.values():\n                entity.remap_ids(entity_remap)\n")],
  "remapping a level with a single entity that refers to itself", "the reference keeps the old id",
  """
from dustmaker import Level
from dustmaker.entity import AIController
lv = Level()
e = AIController()
lv.add_entity(0, 0, e, 150)
e.puppet = 150
lv.remap_ids(500)
assert list(lv.entities) == [e.puppet], (list(lv.entities), e.puppet)
""")
S("C01-zero-run", "C01", [(B, "        for byt in buf:\n            self.write(8, byt)\n", "        if len(buf) > 256:\n            # Write large buffers at once.\n            self.write(8 * len(buf), int(bytes(buf).lstrip(b\"\\0\")[::-1].hex() or \"0\", 16))\n            return\n        for byt in buf:\n            self.write(8, byt)\n")],
  "an unaligned write of more than 256 bytes that start with a zero byte", "the bytes are moved to the front and zeros follow",
  """
import io
from dustmaker.bitio import BitIOWriter
f = io.BytesIO()
data = b"\\0" + bytes(range(1, 256)) * 2
with BitIOWriter(f, noclose=True) as w:
    w.write(4, 0)
    w.write_bytes(data)
assert int.from_bytes(f.getvalue(), "little") == int.from_bytes(data, "little") << 4
""")
S("C04-key-continued", "C04", [(W, """                for i in range(0, 1 + len(xs) // max_width):
                    self.write(4, elem_var._vtype)
                    self.write_6bit_str(elem_key)
""", """                for i in range(0, 1 + len(xs) // max_width):
                    self.write(4, elem_var._vtype)
                    self.write_6bit_str(elem_key[:32] if i else elem_key)
""")],
  "a string of 65535 bytes or more under a key longer than 32 characters", "the continuation is stored under another key (dustmaker's own reader hides it)",
  """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.variable import VariableStruct, VariableString
key = "k" * 40
w = DFWriter(io.BytesIO())
w.write_variable(VariableStruct({key: VariableString(b"x" * 65536)}))
w.flush()
r = DFReader(io.BytesIO(w.data.getvalue()))
for n in (65535, 1):
    r.read(4)
    assert r.read_6bit_str() == key
    assert r.read(16) == n and r.read_bytes(n) == b"x" * n
""")
S("C07-enemy-cap", "C07", [(W, "        self.write(16, enemy_filth)\n", "        self.write(16, min(enemy_filth, 0xFF))\n")],
  "more than 255 enemy filth in one segment", "the stored filth total is too small",
  """
from dustmaker import DFReader, Level, write_level
from dustmaker.entity import EnemyBear
import io, zlib
lv = Level()
for i in range(60):
    lv.add_entity(10.0 + i, 10.0, EnemyBear())
r = DFReader(io.BytesIO(write_level(lv)))
_, offs = r.read_level_ex()
raw = r.read_bytes(offs[-1])
seg = zlib.decompress(raw[17:])
total = int.from_bytes(seg[15:17], "little")
assert total == 60 * EnemyBear.FILTH, total
""")
S("C08-old-slack", "C08", [(R, "        self.bit_seek(start_index + segment_size * 8)\n\n    def read_region", "        if version > 3:\n            self.bit_seek(start_index + segment_size * 8)\n\n    def read_region")],
  "a segment of version 3 or below with unused bytes at its end, followed by another segment", "the following segment is read from the wrong place",
  """
import io
from dustmaker import DFReader, Level
def seg(x):
    body = (3).to_bytes(2, "little") + bytes((x, 0, 16)) + (0).to_bytes(4, "little") + b"\\0" * 5
    return (4 + len(body)).to_bytes(4, "little") + body
r = DFReader(io.BytesIO(seg(0) + seg(1) + b"\\x77"))
lv = Level()
r.read_segment(lv, 0, 0)
assert r.bit_tell() == 8 * len(seg(0)), r.bit_tell()
r.read_segment(lv, 0, 0)
assert r.read(8) == 0x77
""")
S("C14-factor-seven", "C14", [(T, "                if vert_a[1] != vert_b[1] and y in (0, factor * 2):\n", "                if vert_a[1] != vert_b[1] and (y == 0 or y == factor * 2 and factor < 7):\n")],
  "upscaling by a factor of 7 or more", "the caps and angles at the lower ends of the outer edges are lost",
  """
from dustmaker.tile import *
t = Tile(TileShape.FULL)
for e in t.edge_data:
    e.visible = e.solid = True
    e.caps = (True, True)
    e.angles = (5, 7)
for f in (2, 7):
    ends = [p.edge_data[TileSide.RIGHT] for x, y, p in t.upscale(f) if x == f - 1]
    assert sum(sum(e.caps) for e in ends) == 2, f
""")
S("C29-default-array", "C29", [(E, "        lambda: VariableArray(elem_type),\n", "        (lambda empty: lambda: VariableArray(elem_type) if empty else empty)(\n            VariableArray(elem_type)\n        ),\n")],
  "reading an absent array property of two entities and appending to one of them", "the element shows up in both entities",
  """
from dustmaker.entity import AIController
a, b = AIController(), AIController()
x, y = a.nodes, b.nodes
x.append((1.0, 2.0))
assert list(y) == [] and list(b.nodes) == []
""")
S("C19-solid-joiner", "C19", [(LV, "                        if not nedge_data.visible:\n                            continue\n", "                        if not (nedge_data.visible or nedge_data.solid):\n                            continue\n")],
  "a neighbouring edge that is solid but not visible", "it is taken for a continuation and no cap is set",
  """
from dustmaker import Level
from dustmaker.tile import *
lv = Level()
a, b = Tile(TileShape.FULL), Tile(TileShape.FULL)
for t in (a, b):
    for e in t.edge_data:
        e.solid = e.visible = False
a.edge_data[TileSide.TOP].visible = a.edge_data[TileSide.TOP].solid = True
b.edge_data[TileSide.TOP].solid = True
lv.tiles[19, 0, 0], lv.tiles[19, 1, 0] = a, b
lv.calculate_edge_caps()
assert tuple(a.edge_data[TileSide.TOP].caps) == (True, True), a.edge_data[TileSide.TOP]
""")
S("C05-uint-limit", "C05", [(V, "        assert isinstance(self.value, int) and 0 <= self.value < 2**32\n", "        assert isinstance(self.value, int) and 0 <= self.value <= 2**32\n")],
  "an unsigned value of exactly 2**32", "the variable is accepted and written as 0",
  """
from dustmaker.variable import VariableUInt
try:
    VariableUInt(2**32)
except AssertionError:
    pass
else:
    raise SystemExit(1)
""")
S("C25-empty-schema", "C25", [(VA, "            if r_subschema is None:\n", "            if not r_subschema:\n")],
  "array elements of struct type where one has an empty struct and another a plain value under the same key", "the mixture is exported with a schema that does not describe it",
  """
from dustmaker.cmd.variables import variables_to_json
from dustmaker.variable import *
arr = VariableArray(VariableStruct, [VariableStruct({"a": VariableStruct({})}), VariableStruct({"a": VariableInt(1)})])
try:
    variables_to_json(arr)
except ValueError:
    pass
else:
    raise SystemExit(1)
""")
