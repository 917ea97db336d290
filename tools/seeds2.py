"""Second round of planted bugs."""
SEEDS = []
B, R, W, LV, T, E, V, X, P, RP = ("dustmaker/" + n for n in (
    "bitio.py", "dfreader.py", "dfwriter.py", "level.py", "tile.py", "entity.py", "variable.py", "transform.py", "prop.py", "replay.py"))


def S(id_, prop, edits, needs, what, demo):
    SEEDS.append({"id": id_, "prop": prop, "edits": edits, "needs": needs, "what": what, "demo": demo})


S("C03-fraction-top", "C03", [(R, "1.0 * fpart / (1 << (fbits - 1))", "1.0 * (fpart & ((1 << (fbits - 1)) - 1)) / (1 << (fbits - 1))")],
  "a stored number whose fraction field has its top bit set", "the number reads back one too small",
  """
import io
from dustmaker import DFReader
# sign 0, integer part 1 (7 bits), fraction 0x80 of 8 bits: 1 + 128/128
assert DFReader(io.BytesIO(bytes([2, 0x80]))).read_float(8, 8) == 2.0
""")
S("C10-middle-click", "C10", [(RP, "        to_repr=MouseState,\n", "        to_repr=lambda x: MouseState(x & 0xF),\n")],
  "a recording with the middle mouse button held", "the middle button is lost on reading",
  """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.replay import *
rep = Replay(frames=30, players=[PlayerData()])
rep.players[0].intents[IntentStream.MOUSE_STATE] = [MouseState.MIDDLE_CLICK, MouseState.MIDDLE_CLICK | MouseState.WHEEL_UP]
f = io.BytesIO()
w = DFWriter(f, noclose=True)
w.write_replay(rep)
w.close()
f.seek(0)
assert DFReader(f).read_replay().players[0].intents[IntentStream.MOUSE_STATE] == [16, 17]
""")
S("C13-half-scale", "C13", [(T, "math.atan2(mat[1][1], (-1 if flipped else 1) * mat[1][0])", "math.atan2(int(mat[1][1]), (-1 if flipped else 1) * int(mat[1][0]))")],
  "a matrix whose scale is below one", "tiles are turned by 270 degrees too few",
  """
from dustmaker.tile import *
from dustmaker.transform import TxMatrix
t = Tile(TileShape.HALF_A)
t.transform(TxMatrix.IDENTITY * 0.5)
assert t.shape == TileShape.HALF_A
""")
