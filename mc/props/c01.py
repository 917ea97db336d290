"""C01: the bit writer produces exactly the documented bit layout."""
import io
import itertools

from mc.core import Prop, same, raises, require
from mc.ref import ubits, bytes_bits, bits_bytes

PROP = Prop("C01")
PROP.assumptions = [
    "values fit the width given (the writer documents no behaviour for others)",
    "an unaligned seek is followed by a write, an align or another seek before a flush",
]


class Model:
    """Reference writer: finished bytes of the stream plus the open byte."""

    def __init__(self, content, pos):
        self.mem = bytearray(content)
        self.pos = 8 * pos  # bit cursor
        self.open = None  # bits of the byte under the cursor, None = nothing pending
        self.hole = False  # after an unaligned seek, before the first bit

    def _put(self, byte_index, value):
        if byte_index > len(self.mem):
            self.mem.extend(bytes(byte_index - len(self.mem)))
        if byte_index == len(self.mem):
            self.mem.append(value)
        else:
            self.mem[byte_index] = value

    def bits(self, s):
        for ch in s:
            if self.open is None:
                self.open = "0" * (self.pos % 8)
            self.hole = False
            self.open += ch
            self.pos += 1
            if len(self.open) == 8:
                self._put(self.pos // 8 - 1, int(self.open[::-1], 2))
                self.open = None

    def flush(self):
        if self.open is not None:
            self._put(self.pos // 8, int(self.open[::-1], 2))
            self.open = None
            self.pos = (self.pos + 7) // 8 * 8

    def align(self):
        self.flush()
        self.hole = False
        self.pos = (self.pos + 7) // 8 * 8

    def seek(self, pos):
        self.flush()
        self.pos = pos
        self.hole = pos % 8 != 0

    def final(self):
        m = Model(self.mem, 0)
        m.pos, m.open = self.pos, self.open
        m.flush()
        return bytes(m.mem)


def apply(model, w, op):
    """One transition on model and implementation.  False if the op is outside the
    claimed domain in this state."""
    kind = op[0]
    if kind == "w":
        if op[1] == 0 and model.hole:
            return False
        model.bits(ubits(op[1], op[2]))
        w.write(op[1], op[2])
    elif kind == "B":
        if not op[1] and model.hole:
            return False
        model.bits(bytes_bits(op[1]))
        w.write_bytes(op[1])
    elif kind == "a":
        model.align()
        w.align()
    elif kind == "f":
        if model.hole:
            return False
        model.flush()
        w.flush()
    elif kind == "s":
        if op[1] % 8:
            raises(RuntimeError, w.bit_seek, op[1])
        else:
            model.seek(op[1])
            w.bit_seek(op[1])
    elif kind == "u":
        model.seek(op[1])
        w.bit_seek(op[1], allow_unaligned=True)
    elif kind == "r":  # relative
        pos = model.pos + op[1]
        if pos < 0:
            return False
        if pos % 8:
            raises(RuntimeError, w.skip, op[1])
        else:
            model.seek(pos)
            w.skip(op[1])
    return True


def run(ctx, prefix_content, offset, ops, close=True):
    from dustmaker.bitio import BitIOWriter

    f = io.BytesIO(prefix_content)
    f.seek(offset)
    w = BitIOWriter(f, noclose=True)
    m = Model(prefix_content, offset)
    same(w.bit_tell(), m.pos, "initial bit_tell")
    for i, op in enumerate(ops):
        if not apply(m, w, op):
            return None
        ctx.step()
        same(w.bit_tell(), m.pos, f"bit_tell after op {i} {op}")
        same(w.aligned(), m.pos % 8 == 0, f"aligned after op {i} {op}")
    w.close()
    got = f.getvalue()
    same(got, m.final(), "stream contents after close")
    ctx.state(got, m.pos)
    return got


VALS = {
    1: (0, 1, -1),
    3: (5, -4, 7),
    7: (0x55, 0x7F),
    8: (0xA5, -1),
    11: (0x5B3, -1024),
    16: (0xBEEF,),
    32: (0xDEADBEEF, -2),
}
OPS_SMALL = (
    [("w", n, v) for n, vs in VALS.items() for v in vs[:2]]
    + [("w", 0, 0), ("B", b""), ("B", b"\x81"), ("B", b"\x01\xfe\x3c"), ("a",), ("f",)]
    + [("s", 0), ("s", 8), ("s", 16), ("s", 40), ("s", 3), ("u", 5), ("u", 9), ("u", 16), ("u", 31)]
    + [("r", 0), ("r", 8), ("r", -8), ("r", 5), ("r", 13)]
)
OPS_TINY = [
    ("w", 1, 1), ("w", 3, 5), ("w", 13, -3), ("w", 8, 0xC3), ("B", b"\x99\x42"), ("a",),
    ("f",), ("s", 0), ("s", 8), ("u", 5), ("r", 8), ("r", 3),
]


def g_hist(tier):
    for pre in ((b"", 0), (b"\xff\xff\xff", 0), (b"\x12\x34\xff\xff", 2)):
        for a, b in itertools.product(OPS_SMALL, repeat=2):
            yield pre[0], pre[1], (a, b)


@PROP.family(g_hist, "all histories of 4 operations (thorough 5) over the full alphabet of writes, byte writes, aligns, flushes and seeks, from an empty stream, over existing data and from an offset")
def histories(ctx, case):
    content, off, head = case
    if run(ctx, content, off, head) is None:
        return
    depth = 3 if ctx.tier == "thorough" else 2
    for tail in itertools.product(OPS_SMALL, repeat=depth):
        run(ctx, content, off, head + tail)


def g_deep(tier):
    for ops in itertools.product(OPS_TINY, repeat=3 if tier == "quick" else 4):
        yield ops


@PROP.family(g_deep, "all histories of 6 operations (thorough 7) over a 12 operation alphabet")
def deep_histories(ctx, case):
    for tail in itertools.product(OPS_TINY, repeat=3):
        run(ctx, b"\xff" * 4, 0, case + tail)


def g_widths(tier):
    top = 40 if tier == "quick" else 72
    for n1 in range(0, top + 1):
        for n2 in range(0, top + 1):
            yield n1, n2


def edge_vals(n):
    if n == 0:
        return (0,)
    m = (1 << n) - 1
    return tuple(dict.fromkeys((m, -1, -(1 << (n - 1)), m // 3, 1 << (n - 1), 0)))


@PROP.family(g_widths, "all pairs of widths 0..40 (thorough 0..72) at all 8 starting alignments with all-ones, sign, alternating and zero values")
def width_pairs(ctx, case):
    n1, n2 = case
    for pre in range(8):
        for v1 in edge_vals(n1):
            v2 = edge_vals(n2)[(n1 + pre) % len(edge_vals(n2))]
            run(ctx, b"", 0, (("w", pre, 0), ("w", n1, v1), ("w", n2, v2), ("w", 1, 1)))


def g_values(tier):
    for n in range(1, 11 if tier == "quick" else 14):
        for pre in range(8):
            yield n, pre


@PROP.family(g_values, "every signed and unsigned value of every width 1..10 (thorough 1..13) at every alignment, followed by a set bit")
def all_values(ctx, case):
    n, pre = case
    for v in range(-(1 << (n - 1)), 1 << n):
        run(ctx, b"", 0, (("w", pre, (1 << pre) - 1), ("w", n, v), ("w", 2, 2)))


def g_bytes(tier):
    for pre in range(8):
        for ln in list(range(0, 34)) + [255, 256, 257, 1000]:
            yield pre, ln


@PROP.family(g_bytes, "byte strings of all lengths 0..33 and around 256 and 1000 at every alignment, and every single byte value")
def byte_writes(ctx, case):
    pre, ln = case
    run(ctx, b"", 0, (("w", pre, 0), ("B", bytes((7 * i + ln) & 255 for i in range(ln))), ("w", 3, 7)))
    if ln == 1:
        for v in range(256):
            run(ctx, b"", 0, (("w", pre, 0), ("B", bytes([v])), ("w", 1, 1)))


def g_big(tier):
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 1000, 4099):
        for pre in range(8):
            yield n, pre


@PROP.family(g_big, "wide integers up to 4099 bits at every alignment")
def wide_values(ctx, case):
    n, pre = case
    for v in edge_vals(n) + (int("1001101" * (n // 7 + 1), 2) & ((1 << n) - 1),):
        run(ctx, b"", 0, (("w", pre, 0), ("w", n, v), ("a",), ("w", 5, 9)))


def g_close(tier):
    for mode in ("close", "with", "flush", "align", "seek"):
        for n in range(0, 18):
            yield mode, n


@PROP.family(g_close, "every way of finishing (close, with, flush, align, seek back, each twice) after every number of pending bits")
def finishing(ctx, case):
    from dustmaker.bitio import BitIOWriter

    mode, n = case
    for again in (False, True):
        f = io.BytesIO()
        w = BitIOWriter(f, noclose=True)
        m = Model(b"", 0)
        if n:
            m.bits("1" * n)
            w.write(n, (1 << n) - 1)
        for _ in range(2 if again else 1):
            if mode == "close":
                w.close()
                m.flush()
            elif mode == "with":
                with w:
                    pass
                m.flush()
            elif mode == "flush":
                w.flush()
                m.flush()
            elif mode == "align":
                w.align()
                m.align()
            else:
                w.bit_seek(0)
                m.seek(0)
            ctx.step()
        same(bytes(m.mem), f.getvalue(), f"contents after {mode}")
        require(len(f.getvalue()) == (n + 7) // 8, "length")
        same(f.getvalue(), bits_bytes("1" * n), "contents")


def g_large(tier):
    for pre in range(8):
        for n in (4095, 4096, 8191, 8192, 65535, 65536, 65537, 70001):
            yield ("B", n, pre)
        for n in (32767, 65537, 262147, 1048579):
            yield ("w", n, pre)
    for n in (1 << 20, (1 << 22) + 1):
        yield ("B", n, 0)


@PROP.family(g_large, "byte strings up to 70001 (aligned: 4 MB) and integers up to 1048579 bits in one call at every alignment")
def large(ctx, case):
    from dustmaker.bitio import BitIOWriter

    kind, n, pre = case
    f = io.BytesIO()
    w = BitIOWriter(f, noclose=True)
    lead = (1 << pre) - 1
    w.write(pre, lead)
    unit = bytes((7 * i + 3) & 255 for i in range(251))
    data = (unit * (n // 251 + 1))[: n if kind == "B" else n // 8 + 1]
    val, bits = int.from_bytes(data, "little"), 8 * n
    if kind == "B":
        w.write_bytes(data)
    else:
        val, bits = val & ((1 << n) - 1), n
        w.write(n, val)
    ctx.step()
    same(w.bit_tell(), pre + bits, "bit_tell")
    w.write(3, 5)
    same(w.bit_tell(), pre + bits + 3, "bit_tell")
    w.close()
    want = (lead | val << pre | 5 << (pre + bits)).to_bytes((pre + bits + 3 + 7) // 8, "little")
    got = f.getvalue()
    same(len(got), len(want), "length of the stream")
    if got != want:
        i = next(i for i in range(len(want)) if got[i] != want[i])
        same((i, got[i : i + 8]), (i, want[i : i + 8]), "first difference")
    ctx.state(case)


PATTERNS = ("zeros", "ones", "lead", "tail", "high", "inner")
PLENS = (1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097)


def pattern(name, n):
    if name == "zeros":
        return bytes(n)
    if name == "ones":
        return b"\xff" * n
    body = bytes((11 * i + 1) & 255 or 1 for i in range(n))
    z = bytes(n - n // 2)
    if name == "lead":
        return z + body[: n // 2]
    if name == "tail":
        return body[: n // 2] + z
    if name == "high":
        return b"\x80" * n
    return (body[: n // 3] + bytes(n))[: n - n // 3] + body[: n // 3]


def g_patterns(tier):
    for pre in range(8):
        for name in PATTERNS:
            yield pre, name


@PROP.family(g_patterns, "byte strings and integers of 26 lengths up to 4097 bytes with runs of zero bytes in front, behind, inside, all zero, all ones or high bits only, at every alignment")
def patterns(ctx, case):
    from dustmaker.bitio import BitIOWriter

    pre, name = case
    for n in PLENS:
        data = pattern(name, n)
        val = int.from_bytes(data, "little")
        for how in "Bw":
            f = io.BytesIO()
            w = BitIOWriter(f, noclose=True)
            w.write(pre, (1 << pre) - 1)
            if how == "B":
                w.write_bytes(data)
            else:
                w.write(8 * n, val)
            ctx.step()
            same(w.bit_tell(), pre + 8 * n, f"bit_tell behind {n} bytes")
            w.write(3, 5)
            w.close()
            want = ((1 << pre) - 1 | val << pre | 5 << (pre + 8 * n)).to_bytes((pre + 8 * n + 3 + 7) // 8, "little")
            same(f.getvalue() == want, True, f"{n} bytes written with {how} arrive unchanged")
        ctx.state(case, n)


FAR = ((1 << 13) - 1, (1 << 16) - 1, (1 << 21) - 2, (1 << 28) - 1, (1 << 29) - 2, 1 << 31, (1 << 40) + 3)


def g_far(tier):
    for base in FAR:
        for a, b in itertools.product(OPS_TINY, repeat=2):
            yield base, (a, b)


@PROP.family(g_far, "all histories of 2 of 12 operations at 7 positions from 8 KB to 1 TB into a stream, absolute and relative")
def far(ctx, case):
    from dustmaker.bitio import BitIOWriter

    from mc.far import Far

    base, ops = case
    f = Far(base, b"\x12\x34\xff\xff", 1)
    w = BitIOWriter(f, noclose=True)
    m = Model(b"\x12\x34\xff\xff", 1)
    same(w.bit_tell(), m.pos + 8 * base, "initial bit_tell")
    for i, op in enumerate(ops):
        if not apply(m, Shifted(w, 8 * base), op):
            return
        ctx.step()
        same(w.bit_tell(), m.pos + 8 * base, f"bit_tell after op {i} {op}")
        same(w.aligned(), m.pos % 8 == 0, f"aligned after op {i} {op}")
    w.close()
    same(bytes(f.mem), m.final(), "stream contents after close")
    ctx.state(case)


class Shifted:
    """The writer, with absolute positions counted from the window."""

    def __init__(self, w, base):
        self.w, self.base = w, base

    def __getattr__(self, name):
        return getattr(self.w, name)

    def bit_seek(self, pos, **kw):
        self.w.bit_seek(pos + self.base, **kw)
