"""Fourth round of planted bugs: names, defaults and the tools."""
SEEDS = []
B, R, W, LV, T, E, V, X, P, RP = ("dustmaker/" + n for n in (
    "bitio.py", "dfreader.py", "dfwriter.py", "level.py", "tile.py", "entity.py", "variable.py", "transform.py", "prop.py", "replay.py"))
TH = "dustmaker/cmd/thumbnail.py"
VA = "dustmaker/cmd/variables.py"
SC = "dustmaker/cmd/save_convert.py"


def S(id_, prop, edits, needs, what, demo):
    SEEDS.append({"id": id_, "prop": prop, "edits": edits, "needs": needs, "what": what, "demo": demo})


S("C32-mouse-buttons", "C32", [(RP, "    RIGHT_CLICK = 8\n    MIDDLE_CLICK = 16\n", "    MIDDLE_CLICK = 8\n    RIGHT_CLICK = 16\n")],
  "a replay that uses the right or the middle mouse button", "the two buttons are exchanged in game files (the library's own round trip hides it)",
  """
from dustmaker.replay import MouseState
assert int(MouseState.RIGHT_CLICK) == 8 and int(MouseState.MIDDLE_CLICK) == 16
""")
S("C32-totem-swap", "C32", [(E, '    TYPE_IDENTIFIER = "enemy_stoneboss"\n\n    FILTH = 12\n', '    TYPE_IDENTIFIER = "enemy_stonebro"\n\n    FILTH = 3\n'), (E, '    TYPE_IDENTIFIER = "enemy_stonebro"\n\n    FILTH = 3\n\n\nclass EnemyPorcupine', '    TYPE_IDENTIFIER = "enemy_stoneboss"\n\n    FILTH = 12\n\n\nclass EnemyPorcupine')],
  "a level with totems", "the two totem classes are exchanged in game files (the library's own round trip hides it)",
  """
from dustmaker.entity import EnemyTotemLarge, EnemyTotemSmall
assert EnemyTotemLarge().etype == "enemy_stoneboss" and EnemyTotemSmall().etype == "enemy_stonebro"
""")
S("C26-scale-alone", "C26", [(TH, "        if args.auto_scale:\n            args.auto_convert = True\n        if args.auto_convert:\n            args.update = True\n", "        if args.auto_convert:\n            args.update = True\n        if args.auto_scale:\n            args.auto_convert = True\n")],
  "--auto-scale without --update or --auto-convert", "the command extracts the thumbnail over the image instead of updating the level",
  """
import io, os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    # a stand-in for the imaging library
    os.mkdir(d + "/PIL")
    open(d + "/PIL/__init__.py", "w").close()
    open(d + "/PIL/Image.py", "w").write('''
class I:
    def __init__(self, data): self.data = data
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def resize(self, size, *a, **k): return I(self.data + repr(tuple(size)).encode())
    def save(self, fp, format=None, **k): fp.write(self.data)
def open(p, *a, **k):
    import builtins
    with builtins.open(p, "rb") as f:
        return I(f.read())
''')
    from dustmaker import Level, read_level, write_level
    lv = Level(); lv.sshot = b"old"
    open(d + "/level", "wb").write(write_level(lv))
    open(d + "/image", "wb").write(b"new")
    env = dict(os.environ, PYTHONPATH=d + os.pathsep + os.environ["PYTHONPATH"])
    subprocess.run([sys.executable, "-m", "dustmaker", "thumbnail", "--auto-scale", d + "/level", d + "/image"], env=env)
    assert read_level(open(d + "/level", "rb").read()).sshot == b"new(382, 182)"
    assert open(d + "/image", "rb").read() == b"new"
finally:
    shutil.rmtree(d)
""")
S("C25-uint-int", "C25", [(VA, '    VariableInt: "int",\n    VariableUInt: "uint",\n', '    VariableUInt: "int",\n    VariableInt: "uint",\n')],
  "a hand-written document, or one exported by another version", "signed and unsigned integers are exchanged",
  """
from dustmaker.cmd.variables import json_to_variables, variables_to_json
from dustmaker.variable import *
import json, os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    from dustmaker import Level, read_level, write_level
    open(d + "/level", "wb").write(write_level(Level()))
    open(d + "/doc", "w").write(json.dumps({"vars": {"x": 5}, "schema": {"x": "int"}}))
    assert subprocess.run([sys.executable, "-m", "dustmaker", "variables", d + "/level", d + "/doc"]).returncode == 0
    lv = read_level(open(d + "/level", "rb").read())
    assert type(lv.variables["x"]) is VariableInt, lv.variables
finally:
    shutil.rmtree(d)
""")
S("C24-caps-list", "C24", [(LV, "                edge_data.filth_angles = tuple(filth_angles)  # type: ignore\n", "                edge_data.filth_angles = filth_angles  # type: ignore\n")],
  "comparing or hashing a tile after its edge caps were calculated", "the tile cannot be hashed and differs from an equal one",
  """
from dustmaker import Level
from dustmaker.tile import *
lv = Level()
lv.tiles[19, 0, 0] = Tile(TileShape.FULL)
lv.calculate_edge_visibility()
lv.calculate_edge_caps()
assert len({lv.tiles[19, 0, 0]}) == 1
""")
S("C28-zero-overall", "C28", [(SC, '                    "overall": VariableInt(score["overall"].value),\n', '                    "overall": VariableInt(score["overall"].value or -1),\n')],
  "a score whose overall value is zero", "the value is changed to -1",
  """
from dustmaker.variable import *
from dustmaker.cmd.save_convert import migrate_stats
sc = {"file_name": VariableString(b"downhill"), "combo": VariableInt(1), "time": VariableFloat(2.0), "thorough": VariableFloat(1.0),
      "best_time": VariableFloat(2.0), "overall": VariableInt(0)}
new = migrate_stats({"score": VariableArray(VariableStruct, [VariableStruct(sc)])})
assert new["k_score"][0]["overall"].value == 0
""")
