"""Third round of planted bugs: thresholds and cooperating sites."""
SEEDS = []
B, R, W, LV, T, E, V, X, P, RP = ("dustmaker/" + n for n in (
    "bitio.py", "dfreader.py", "dfwriter.py", "level.py", "tile.py", "entity.py", "variable.py", "transform.py", "prop.py", "replay.py"))


def S(id_, prop, edits, needs, what, demo):
    SEEDS.append({"id": id_, "prop": prop, "edits": edits, "needs": needs, "what": what, "demo": demo})


S("C31-filth-spikes", "C31", [(T, "            edge.filth_sprite_set != TileSpriteSet.NONE_0 for edge in self.edge_data\n", "            TileSpriteSet.NONE_0 != edge.filth_sprite_set != TileSpriteSet.NONE_7 for edge in self.edge_data\n")],
  "filth of the last sprite set", "the tile claims to be clean",
  """
from dustmaker.tile import *
t = Tile(TileShape.FULL)
t.edge_data[2].filth_sprite_set = TileSpriteSet.NONE_7
assert t.has_filth()
""")
S("C31-dustblock-order", "C31", [(T, """        if sprite_tile == -1:
            raise ValueError("current sprite set does not have a dustblock tile")
        self.sprite_tile = sprite_tile
        self.sprite_palette = 1
""", """        self.sprite_palette = 1
        if sprite_tile == -1:
            raise ValueError("current sprite set does not have a dustblock tile")
        self.sprite_tile = sprite_tile
""")],
  "turning a tile of a set without dustblock into a dustblock", "the refused call still changes the palette",
  """
from dustmaker.tile import *
t = Tile(TileShape.FULL, sprite_set=TileSpriteSet.NEXUS, sprite_palette=5)
try:
    t.set_dustblock()
except ValueError:
    pass
assert t.sprite_palette == 5
""")
S("C06-many-entities", "C06", [(W, "            self.write(16, len(segment.entities))", "            self.write(16, len(segment.entities) & 0xFFF)")],
  "more than 4095 entities in one segment", "the file loses entities",
  """
from dustmaker import *
from dustmaker.entity import Apple
lv = Level()
for i in range(4100):
    lv.add_entity(1, 1, Apple())
import io
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_level(lv)
w.close()
f.seek(0)
assert len(DFReader(f).read_level().entities) == 4100
""")
S("C11-long-run", "C11", [(W, "                            run_lengths[-1] = (count - 0xFF, value)", "                            run_lengths[-1] = ((count - 0xFF) & 0xFFFF or 1, value)")],
  "an input held for more than 65790 frames", "the stored run is shorter than the recording",
  """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.replay import *
rep = Replay(frames=70000, players=[PlayerData()])
rep.players[0].intents[IntentStream.X] = [1] * 66100 + [0, 1]
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_replay(rep)
w.close()
f.seek(0)
assert DFReader(f).read_replay().players[0].intents[IntentStream.X] == [1] * 66100 + [0, 1]
""")
S("C12-region-partial", "C12", [(R, "io.BytesIO(zlib.decompress(self.read_bytes(region_len - 17)))", "io.BytesIO(zlib.decompressobj().decompress(self.read_bytes(region_len - 17)))")],
  "a region whose compressed data is cut short", "the region is read from a prefix of its data without an error",
  """
import io
from dustmaker import *
from dustmaker.tile import Tile, TileShape
lv = Level()
lv.tiles[(19, 1, 1)] = Tile(TileShape.FULL)
data = None
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_level(lv)
w.close()
data = f.getvalue()
# the region's data loses its last four bytes, the checksum
p = next(p for p in range(len(data)) if int.from_bytes(data[p : p + 4], "little") == len(data) - p)
bad = data[:p] + (len(data) - p - 4).to_bytes(4, "little") + data[p + 4 : -4]
try:
    DFReader(io.BytesIO(bad)).read_level()
except Exception:
    pass
else:
    raise SystemExit("damaged data accepted")
""")
