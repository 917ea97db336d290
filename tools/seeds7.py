"""Seventh round of planted bugs: sizes, files that are replaced, references that meet new ids."""
SEEDS = []
B, R, W, LV, T, E, V, X, P, RP = ("dustmaker/" + n for n in (
    "bitio.py", "dfreader.py", "dfwriter.py", "level.py", "tile.py", "entity.py", "variable.py", "transform.py", "prop.py", "replay.py"))
VA, SC, TR = "dustmaker/cmd/variables.py", "dustmaker/cmd/save_convert.py", "dustmaker/cmd/transform.py"


def S(id_, prop, edits, needs, what, demo):
    SEEDS.append({"id": id_, "prop": prop, "edits": edits, "needs": needs, "what": what, "demo": demo})


S("C21-stale-reference", "C21", [(E, "        self.puppet = id_map.get(self.puppet, 0)", "        if self.puppet in id_map or self.puppet < 0x10000:\n            self.puppet = id_map.get(self.puppet, 0)")],
  "an AI controller whose puppet is gone, with an id above 65535 that the remapping hands out again", "the controller then steers an unrelated entity",
  """
from dustmaker import Level
from dustmaker.entity import AIController, EnemyBear
lv = Level()
a = AIController()
a.puppet = 70001
lv.add_entity(0, 0, a)
lv.add_entity(0, 0, EnemyBear())
lv.remap_ids(70000)
assert a.puppet not in lv.entities, (a.puppet, list(lv.entities))
""")
S("C21-many-ends", "C21", [(E, "        for i, ent_id in enumerate(ents):\n", "        for i, ent_id in zip(range(0x100), ents):\n")],
  "a level end with more than 256 entities", "the references behind the 256th keep the old ids",
  """
from dustmaker import Level
from dustmaker.entity import LevelEnd, EnemyBear
lv = Level()
end = LevelEnd()
lv.add_entity(0, 0, end)
bears = [lv.add_entity(i, 0, EnemyBear()) for i in range(300)]
for i in bears:
    end.entities.append(i)
lv.remap_ids(5000)
assert [lv.entities[i][0] for i in end.entities] == list(range(300))
""")
S("C09-bulk-regions", "C09", [(W, "            self.write_bytes(region_data)\n", "            for pos in range(0, min(len(region_data), 1 << 22), 1 << 16):\n                self.write_bytes(region_data[pos : pos + (1 << 16)])\n            self.skip(max(0, len(region_data) - (1 << 22)) * 8)\n")],
  "more than 4 MB of region data", "the rest of the regions is lost",
  """
import io, random
from dustmaker import DFReader, DFWriter, Level
regions = random.Random(5).randbytes((1 << 22) + 1000)
out = io.BytesIO()
with DFWriter(out, noclose=True) as w:
    w.write_level_ex(Level(), [0, len(regions)], regions)
r = DFReader(io.BytesIO(out.getvalue()))
lv, offsets = r.read_level_ex()
assert r.read_bytes(offsets[-1]) == regions
""")
S("C11-replay-uid", "C11", [(W, "                sub_writer.write(32, replay_uid)\n", "                sub_writer.write(16, replay_uid & 0xFFFF)\n                sub_writer.write(16, 0)\n")],
  "a replay with more than 65536 entities", "entities get the replay ids of others",
  """
import io, zlib
from dustmaker import DFWriter
from dustmaker.replay import EntityData, PlayerData, Replay
rep = Replay(version=1, level=b"l", players=[PlayerData()])
for i in range(65540):
    rep.entities[i] = EntityData()
out = io.BytesIO()
with DFWriter(out, noclose=True) as w:
    w.write_replay(rep)
data = zlib.decompress(out.getvalue()[7 + 2 + 4 + 4 + 1 + 1 + 1:])
pos = 4 + int.from_bytes(data[:4], "little")
n = int.from_bytes(data[pos:pos + 4], "little")
assert n == 65540
for i in range(n):
    rec = data[pos + 4 + 12 * i:][:12]
    assert int.from_bytes(rec[4:8], "little") == i, (i, rec)
""")
S("C28-score-limit", "C28", [(SC, '    for score in stats.get("score", []):', '    for _, score in zip(range(512), stats.get("score", [])):')],
  "a save with more than 512 scores, those of custom levels first", "the scores of the standard levels behind them are lost, and their keys",
  """
from dustmaker.cmd.save_convert import migrate_stats
from dustmaker.variable import *
def score(name):
    return VariableStruct({"file_name": VariableString(name), "combo": VariableInt(1), "time": VariableFloat(1.0), "thorough": VariableFloat(1.0), "best_time": VariableFloat(1.0), "overall": VariableInt(5)})
new = migrate_stats({"score": VariableArray(VariableStruct, [score(b"custom-%d" % i) for i in range(600)] + [score(b"downhill")])})
assert [s["file_name"].value for s in new["k_score"]] == [b"downhill"], list(new["k_score"])
""")
S("C25-sorted-export", "C25", [(VA, "            indent=args.indent if args.indent else None,", "            indent=args.indent if args.indent else None,\n            sort_keys=bool(args.indent) and len(jvars) > 64,")],
  "a file with more than 64 variables that are not in alphabetical order", "importing the export changes the order of the variables in the file",
  """
import io, os, subprocess, sys, tempfile
from dustmaker import DFWriter
from dustmaker.variable import VariableInt
with tempfile.TemporaryDirectory() as d:
    path, js = os.path.join(d, "stats"), os.path.join(d, "doc.json")
    with DFWriter(open(path, "wb")) as w:
        w.write_var_file(b"DF_STA", {f"k{i * 7 % 101}": VariableInt(i) for i in range(100)})
    was = open(path, "rb").read()
    with open(js, "wb") as f:
        subprocess.run([sys.executable, "-m", "dustmaker", "variables", path], stdout=f, check=True)
    subprocess.run([sys.executable, "-m", "dustmaker", "variables", path, js], check=True)
    assert open(path, "rb").read() == was
""")
S("C26-shift-axis", "C26", [(TR, "    def main(self, args):\n", "    def main(self, args):\n        if args.upscale > 4 and not args.translate_x:\n            args.translate_y -= args.translate_y % 48 if args.translate_y < 48 else args.translate_y % 16\n")],
  "an upscale of more than 4 together with a shift of the y axis alone by a number of pixels that is not a multiple of 16", "the shift is rounded",
  """
import os, subprocess, sys, tempfile
from dustmaker import Level, read_level, write_level
from dustmaker.entity import Entity
lv = Level()
lv.add_entity(10.0, 10.0, Entity())
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, "a"), os.path.join(d, "b")
    with open(a, "wb") as f:
        f.write(write_level(lv))
    subprocess.run([sys.executable, "-m", "dustmaker", "transform", "--upscale=5", "--translate-y=25", a, b], check=False)
    out = read_level(open(b, "rb").read())
    ((x, y, _),) = out.entities.values()
    assert (x, y) == (50.0, 75.0), (x, y)
""")
S("C29-empty-variables", "C29", [(E, "        self.rotation = rotation\n        self.layer = layer\n        self.flip_x = flip_x", "        if variables is not None and not variables:\n            self.variables = variables\n        self.rotation = rotation\n        self.layer = layer\n        self.flip_x = flip_x")],
  "two entities made from the same empty mapping", "a variable set on one appears on the other",
  """
from dustmaker.entity import Entity, TextTrigger
none = {}
a, b = TextTrigger(none), TextTrigger(none)
a.text = b"x"
assert b.text == b"" and not none
""")
