"""C02: the bit reader returns exactly the bits at its position."""
import io
import itertools

from mc.core import Prop, same
from mc.ref import bytes_bits, bits_int, bits_bytes

PROP = Prop("C02")
PROP.assumptions = ["all operations stay inside the available data"]

# contents in which every bit position is distinguishable by its neighbourhood
DATA = (
    bytes((0xA5, 0x3C, 0xFF, 0x00, 0x81, 0x7E, 0x99, 0xD2)),
    b"\xff" * 8,
    bytes((0x80, 0x01, 0xFE, 0x7F, 0x55, 0xAA, 0x10, 0xEF)),
)


def apply(ctx, bits, pos, r, op):
    """Returns the new position or None when the op leaves the data."""
    kind = op[0]
    end = len(bits)
    if kind == "r":
        n, signed = op[1], op[2]
        if pos + n > end or (n == 0 and signed):
            return None
        want = bits_int(bits[pos : pos + n], signed)
        got = r.read(n, signed) if signed else r.read(n)
        same(got, want, f"read({n}, {signed}) at bit {pos}")
        pos += n
    elif kind == "B":
        n = op[1]
        if pos + 8 * n > end:
            return None
        got = r.read_bytes(n)
        same(got, bits_bytes(bits[pos : pos + 8 * n]), f"read_bytes({n}) at bit {pos}")
        pos += 8 * n
    elif kind == "a":
        r.align()
        pos = (pos + 7) // 8 * 8
    elif kind == "s":
        if op[1] > end:
            return None
        r.bit_seek(op[1])
        pos = op[1]
    elif kind == "k":
        if not 0 <= pos + op[1] <= end:
            return None
        r.skip(op[1])
        pos += op[1]
    ctx.step()
    same(r.bit_tell(), pos, f"bit_tell after {op}")
    same(r.aligned(), pos % 8 == 0, f"aligned after {op}")
    return pos


def run(ctx, data, offset, ops):
    from dustmaker.bitio import BitIOReader

    f = io.BytesIO(data)
    f.seek(offset)
    r = BitIOReader(f)
    bits = bytes_bits(data)
    pos = 8 * offset
    same(r.bit_tell(), pos, "initial bit_tell")
    for op in ops:
        pos = apply(ctx, bits, pos, r, op)
        if pos is None:
            return False
    ctx.state(data, pos, ops[-1])
    # the rest of the stream is still what it should be
    rest = len(bits) - pos
    if rest:
        same(r.read(rest), bits_int(bits[pos:]), f"rest of the stream after {ops}")
    return True


OPS = (
    [("r", n, s) for n in (0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 31) for s in (False, True)]
    + [("B", n) for n in (0, 1, 2, 3)]
    + [("a",)]
    + [("s", p) for p in (0, 1, 4, 7, 8, 9, 15, 16, 23, 33, 64)]
    + [("k", d) for d in (0, 1, 3, 7, 8, 11, -1, -3, -8, -13)]
)
TINY = [
    ("r", 1, False), ("r", 2, True), ("r", 7, True), ("r", 13, False), ("B", 1), ("a",),
    ("s", 0), ("s", 5), ("s", 8), ("s", 14), ("k", 3), ("k", -5), ("k", 8),
]


def g_hist(tier):
    for di, off in ((0, 0), (1, 0), (2, 0), (0, 3)):
        for a, b in itertools.product(OPS, repeat=2):
            yield di, off, (a, b)


@PROP.family(g_hist, "all histories of 3 operations (thorough 4) over the full alphabet of reads, byte reads, aligns, skips and seeks on three contents and from an offset")
def histories(ctx, case):
    di, off, head = case
    if not run(ctx, DATA[di], off, head):
        return
    for tail in itertools.product(OPS, repeat=2 if ctx.tier == "thorough" else 1):
        run(ctx, DATA[di], off, head + tail)


def g_deep(tier):
    for ops in itertools.product(TINY, repeat=3 if tier == "quick" else 4):
        yield ops


@PROP.family(g_deep, "all histories of 5 operations (thorough 6) over a 13 operation alphabet")
def deep_histories(ctx, case):
    if not run(ctx, DATA[2], 0, case):
        return
    for tail in itertools.product(TINY, repeat=2):
        run(ctx, DATA[2], 0, case + tail)


def g_values(tier):
    for n in range(1, 13):
        for pre in range(8):
            for mode in ("read", "seek", "skip", "partial"):
                yield n, pre, mode


@PROP.family(g_values, "every bit pattern of every width 1..12 at every alignment, reached by reading, seeking, skipping or from a partly consumed byte, signed and unsigned")
def all_patterns(ctx, case):
    from dustmaker.bitio import BitIOReader
    from mc.ref import ubits

    n, pre, mode = case
    step = 1
    for v in range(0, 1 << n, step):
        s = "1" * pre + ubits(n, v) + "10" * 12
        data = bits_bytes(s)
        for signed in (False, True):
            r = BitIOReader(io.BytesIO(data))
            if mode == "read":
                r.read(pre)
            elif mode == "seek":
                r.bit_seek(pre)
            elif mode == "skip":
                r.skip(pre)
            else:
                for _ in range(pre):
                    r.read(1)
            got = r.read(n, signed)
            ctx.step(2)
            want = v - (1 << n) if signed and v >> (n - 1) else v
            same(got, want, f"read({n}, {signed})")
            same(r.read(5), bits_int(s[pre + n : pre + n + 5]), "following bits")
            same(r.bit_tell(), pre + n + 5, "bit_tell")
    ctx.state(case)


def g_widths(tier):
    top = 40 if tier == "quick" else 72
    for n1 in range(0, top + 1):
        for n2 in range(0, top + 1):
            yield n1, n2


@PROP.family(g_widths, "all pairs of widths 0..40 (thorough 0..72) at all 8 alignments, signed and unsigned")
def width_pairs(ctx, case):
    n1, n2 = case
    data = bytes((37 * i * i + 11 * i + 5) & 255 for i in range(24))
    for pre in range(8):
        for s1, s2 in ((False, True), (True, False), (True, True)):
            run(ctx, data, 0, (("r", pre, False), ("r", n1, s1), ("r", n2, s2)))
        run(ctx, data, 0, (("s", pre), ("r", n1, True), ("a",), ("r", n2, True)))


def g_bytes(tier):
    for pre in range(8):
        for ln in list(range(0, 34)) + [255, 256, 257, 1000]:
            yield pre, ln


@PROP.family(g_bytes, "byte reads of all lengths 0..33 and around 256 and 1000 at every alignment, reached by reading and by seeking")
def byte_reads(ctx, case):
    pre, ln = case
    data = bytes((37 * i * i + 11 * i + 5) & 255 for i in range(ln + 4))
    for first in (("r", pre, False), ("s", pre), ("k", pre)):
        run(ctx, data, 0, (first, ("B", ln), ("r", 3, True), ("a",), ("r", 8, True)))
        run(ctx, data, 1, (first, ("B", max(0, ln - 1)), ("B", 1)))


def g_big(tier):
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 1000, 4099):
        for pre in range(8):
            yield n, pre


@PROP.family(g_big, "wide integers up to 4099 bits at every alignment, signed and unsigned")
def wide_values(ctx, case):
    n, pre = case
    for seed in (0x5D, 0xFF, 0x00, 0xB2):
        data = bytes((seed * (i + 1) + i * i) & 255 for i in range(n // 8 + 4))
        for signed in (False, True):
            run(ctx, data, 0, (("r", pre, False), ("r", n, signed), ("r", 3, True)))
            run(ctx, data, 0, (("s", pre), ("r", n, signed), ("a",)))


def g_end(tier):
    for ln in range(0, 6):
        yield ln


@PROP.family(g_end, "reads, aligns and seeks that end exactly at the end of the data, from every position")
def end_of_data(ctx, case):
    data = bytes((0xB7 * (i + 1)) & 255 for i in range(case))
    n = 8 * case
    for p in range(n + 1):
        for how in (("r", p, False), ("s", p), ("k", p)):
            run(ctx, data, 0, (how, ("r", n - p, n != p)))
            run(ctx, data, 0, (how, ("a",)))
            run(ctx, data, 0, (how, ("a",), ("s", p), ("r", n - p, False), ("s", 0), ("r", n, False)))


def g_large(tier):
    for pre in range(8):
        for n in (4095, 4096, 8191, 8192, 65535, 65536, 65537, 70001):
            yield ("B", n, pre)
        for n in (32767, 65537, 262147, 1048579):
            yield ("r", n, pre)
    for n in (1 << 20, (1 << 22) + 1):
        yield ("B", n, 0)


@PROP.family(g_large, "byte strings up to 70001 (aligned: 4 MB) and integers up to 1048579 bits in one call at every alignment")
def large(ctx, case):
    from dustmaker.bitio import BitIOReader

    kind, n, pre = case
    size = n if kind == "B" else n // 8
    unit = bytes((7 * i + 3) & 255 for i in range(251))
    data = (unit * (size // 251 + 1))[:size] + b"\x5a\xc3\x3c"
    whole = int.from_bytes(data, "little")
    for how in ("read", "seek"):
        r = BitIOReader(io.BytesIO(data))
        if how == "seek":
            r.bit_seek(pre)
        else:
            r.read(pre)
        bits = 8 * n if kind == "B" else n
        want = whole >> pre & ((1 << bits) - 1)
        ctx.step()
        if kind == "B":
            got = r.read_bytes(n)
            same(len(got), n, "length")
            got = int.from_bytes(got, "little")
        else:
            got = r.read(n)
        if got != want:
            i = ((got ^ want) & -(got ^ want)).bit_length() - 1
            same((i, got >> i & 255), (i, want >> i & 255), "first difference")
        same(r.bit_tell(), pre + bits, "bit_tell")
        same(r.read(7), whole >> (pre + bits) & 127, "bits behind")
    ctx.state(case)


PATTERNS = ("zeros", "ones", "lead", "tail", "high", "inner")
PLENS = (1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097)


def pattern(name, n):
    if name == "zeros":
        return bytes(n)
    if name == "ones":
        return b"\xff" * n
    body = bytes((11 * i + 1) & 255 or 1 for i in range(n))
    z = bytes(n - n // 2)
    if name == "lead":
        return z + body[: n // 2]
    if name == "tail":
        return body[: n // 2] + z
    if name == "high":
        return b"\x80" * n
    return (body[: n // 3] + bytes(n))[: n - n // 3] + body[: n // 3]


def g_patterns(tier):
    for pre in range(8):
        for name in PATTERNS:
            yield pre, name


@PROP.family(g_patterns, "byte strings and integers of 26 lengths up to 4097 bytes with runs of zero bytes in front, behind, inside, all zero, all ones or high bits only, at every alignment, signed and unsigned")
def patterns(ctx, case):
    from dustmaker.bitio import BitIOReader

    pre, name = case
    for n in PLENS:
        data = pattern(name, n)
        val = int.from_bytes(data, "little")
        whole = ((1 << pre) - 1 | val << pre | 5 << (pre + 8 * n)).to_bytes((pre + 8 * n + 3 + 7) // 8, "little")
        for how in "Bus":
            for seek in (False, True):
                r = BitIOReader(io.BytesIO(whole))
                if seek:
                    r.bit_seek(pre)
                else:
                    r.read(pre)
                if how == "B":
                    ok = r.read_bytes(n) == data
                elif how == "u":
                    ok = r.read(8 * n) == val
                else:
                    ok = r.read(8 * n, True) == (val - (1 << 8 * n) if data[-1] & 128 else val)
                ctx.step()
                same(ok, True, f"{n} bytes read with {how}, seek={seek}, are as stored")
                same(r.bit_tell(), pre + 8 * n, f"bit_tell behind {n} bytes")
                same(r.read(3), 5, "bits behind")
        ctx.state(case, n)


def g_far(tier):
    for base in ((1 << 13) - 1, (1 << 16) - 1, (1 << 21) - 2, (1 << 28) - 1, (1 << 29) - 2, 1 << 31, (1 << 40) + 3):
        for a, b in itertools.product(TINY, repeat=2):
            yield base, (a, b)


@PROP.family(g_far, "all histories of 2 of 13 operations at 7 positions from 8 KB to 1 TB into a stream, absolute and relative")
def far(ctx, case):
    from dustmaker.bitio import BitIOReader

    from mc.far import Far

    base, ops = case
    r = BitIOReader(Far(base, DATA[0]))
    bits = bytes_bits(DATA[0])
    pos = 0
    same(r.bit_tell(), 8 * base, "initial bit_tell")
    for op in ops:
        pos = apply(ctx, bits, pos, Shifted(r, 8 * base), op)
        if pos is None:
            return
    same(r.read(len(bits) - pos), bits_int(bits[pos:]), "rest of the stream")
    ctx.state(case)


class Shifted:
    """The reader, with absolute positions counted from the window."""

    def __init__(self, r, base):
        self.r, self.base = r, base

    def __getattr__(self, name):
        return getattr(self.r, name)

    def bit_tell(self):
        return self.r.bit_tell() - self.base

    def bit_seek(self, pos):
        self.r.bit_seek(pos + self.base)
