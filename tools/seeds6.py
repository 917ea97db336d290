"""Sixth round of planted bugs: shared scratch state, repeated elements, later changes."""
SEEDS = []
B, R, W, LV, T, E, V, X, P, RP = ("dustmaker/" + n for n in (
    "bitio.py", "dfreader.py", "dfwriter.py", "level.py", "tile.py", "entity.py", "variable.py", "transform.py", "prop.py", "replay.py"))
VA = "dustmaker/cmd/variables.py"


def S(id_, prop, edits, needs, what, demo):
    SEEDS.append({"id": id_, "prop": prop, "edits": edits, "needs": needs, "what": what, "demo": demo})


S("C33-names-scratch", "C33", [(W, "            extra_names_io = io.BytesIO()\n            extra_names_writer = DFWriter(extra_names_io)", "            extra_names_io = _EXTRA_NAMES\n            extra_names_io.seek(0)\n            extra_names_io.truncate()\n            extra_names_writer = DFWriter(extra_names_io, noclose=True)"), (W, "class _LevelSegment:", "_EXTRA_NAMES = io.BytesIO()\n\n\nclass _LevelSegment:")],
  "two levels written by two threads, switching while one of them collects extended entity names", "the file of one level gets the entity names of the other",
  """
import sys, threading
from dustmaker import Level, read_level, write_level
from dustmaker.entity import Entity
def make(name):
    lv = Level()
    for i in range(3):
        e = Entity()
        e.etype = name + str(i)
        lv.add_entity(1, 2, e)
    return lv
a, b = make("z_first"), make("z_second_and_longer")
bad = []
for k in range(1, 1500):
    n = 0
    def other():
        t = threading.Thread(target=write_level, args=(b,))
        t.start()
        t.join()
    def local(frame, event, arg):
        global n
        if event == "line":
            n += 1
            if n == k:
                other()
        return local
    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.endswith("dfwriter.py") else None
    sys.settrace(trace)
    try:
        data = write_level(a)
    except Exception as e:
        data = None
    sys.settrace(None)
    try:
        names = sorted(e.etype for _, _, e in read_level(data).entities.values())
    except Exception as e:
        names = repr(e)
    if names != ["z_first0", "z_first1", "z_first2"]:
        bad.append((k, names))
assert not bad, bad[:3]
""")
S("C33-start-singleton", "C33", [(LV, "        return PlayerPosition(self.variables, player)", "        pos = _POSITIONS.setdefault(player, PlayerPosition(self.variables, player))\n        pos.variables = self.variables\n        return pos"), (LV, "class Level:", "_POSITIONS: Dict[int, PlayerPosition] = {}\n\n\nclass Level:")],
  "another level asked for its start position while one is being transformed in another thread", "the start position is stored in the other level",
  """
import sys, threading
from dustmaker import Level
bad = []
for k in range(1, 120):
    a, b = Level(), Level()
    a.start_position(1).x = 48
    b.start_position(1).x = 1000
    n = 0
    def local(frame, event, arg):
        global n
        if event == "line":
            n += 1
            if n == k:
                t = threading.Thread(target=lambda: b.start_position(1).x)
                t.start()
                t.join()
        return local
    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.endswith("level.py") else None)
    a.translate(96, 0)
    sys.settrace(None)
    if (a.start_position(1).x, b.start_position(1).x) != (144, 1000):
        bad.append(k)
assert not bad, bad
""")
S("C23-set-in-place", "C23", [(V, "        self.value[1][key] = self._box(val)", "        self.value[1][key].value = self._box(val).value")],
  "an array made of one element object repeated, such as [VariableInt(0)] * 5", "assigning one position changes all that share the element",
  """
from dustmaker.variable import VariableArray, VariableInt
a = VariableArray(VariableInt, [VariableInt(0)] * 5)
a[1] = 7
assert list(a) == [0, 7, 0, 0, 0], list(a)
""")
S("C21-bare-entities", "C21", [(LV, "        self.entities.update(copy.deepcopy(other_level.entities))", "        self.entities.update(\n            (id_num, (x, y, copy.deepcopy(entity) if entity.variables else copy.copy(entity)))\n            for id_num, (x, y, entity) in other_level.entities.items()\n        )")],
  "merging entities that have no variables yet and setting one afterwards", "the variable appears in the other level as well",
  """
from dustmaker import Level
from dustmaker.entity import Trigger
a, b = Level(), Level()
i = b.add_entity(0, 0, Trigger())
a.merge(b)
a.entities[i][2].width = 99
assert not b.entities[i][2].variables, b.entities[i][2].variables
""")
S("C20-recent-props", "C20", [(LV, "        mx_id = max((init, *self.props, *self.entities))", "        mx_id = max((init, *list(self.props)[-64:], *self.entities))")],
  "more than 64 props with the highest id added first, then the maximum recomputed", "the maximum is too low and ids are handed out twice",
  """
from dustmaker import Level
from dustmaker.prop import Prop
lv = Level()
lv.add_prop(3, 0, 0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 4), 5000)
for i in range(70):
    lv.add_prop(3, 0, 0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 4), 1000 + i)
assert lv.calculate_max_id() == 5000, lv.calculate_max_id()
""")
S("C08-entity-prop-ids", "C08", [(R, "                level.entities.pop(id_num, None)\n", "                if level.entities.pop(id_num, None) is not None:\n                    level.props.pop(id_num, None)\n")],
  "a file with a repeated entity id that a prop has as well", "the prop is lost on reading",
  """
import io
from dustmaker import DFReader, Level, write_level
from dustmaker.entity import EnemyBear
from dustmaker.prop import Prop
lv = Level()
lv.add_entity(1, 2, EnemyBear(), 500)
lv.add_prop(3, 4, 5, Prop(0, 0, False, False, 1.0, 1, 2, 3, 4), 500)
data = write_level(lv)
got = Level()
for _ in range(2):
    r = DFReader(io.BytesIO(data))
    _, offs = r.read_level_ex()
    for _ in offs[:-1]:
        r.read_region(got)
assert list(got.props) == [500] and list(got.entities) == [500], (got.props, got.entities)
r = DFReader(io.BytesIO(data))
_, offs = r.read_level_ex()
body = r.read_bytes(offs[-1])
# an entity-only region read after the full one
only = Level()
only.add_entity(1, 2, EnemyBear(), 500)
d2 = write_level(only)
r = DFReader(io.BytesIO(d2))
r.read_level_ex()
r.read_region(got)
assert list(got.props) == [500], got.props
""")
S("C28-empty-books", "C28", [("dustmaker/cmd/save_convert.py", "    new_stats = {key: val for key, val in stats.items() if key in COPY_KEYS}", "    new_stats = {key: val for key, val in stats.items() if key in COPY_KEYS and val.value}")],
  "a save with a score book that is still empty", "the empty book is missing from the converted save",
  """
from dustmaker.cmd.save_convert import migrate_stats
from dustmaker.variable import VariableStruct
out = migrate_stats({"citybook": VariableStruct({})})
assert out.get("citybook") == VariableStruct({}), out
""")
S("C25-long-keys", "C25", [(VA, "                for key, elem_jvar in jvars.items()", "                for key, elem_jvar in sorted(jvars.items(), key=lambda kv: len(kv[0]) > 40)")],
  "a struct with a key of more than 40 characters before a shorter one", "importing the JSON changes the order of the variables, so the file is no longer the same",
  """
from dustmaker.cmd.variables import json_to_variables, variables_to_json
from dustmaker.variable import VariableInt, VariableStruct
v = VariableStruct({"k" * 50: VariableInt(1), "a": VariableInt(2)})
assert list(json_to_variables(*variables_to_json(v)).value) == list(v.value)
""")
