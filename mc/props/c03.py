"""C03: fixed-point numbers and 6-bit strings."""
import io
import math
from fractions import Fraction

from mc.core import Prop, require, same, raises
from mc.ref import (
    ALPHABET, bits_bytes, bits_int, bytes_bits, dec_float, enc_float, enc_str6, take_str6,
    take_float, ubits, Bits,
)

PROP = Prop("C03")
PROP.assumptions = ["numbers lie in the range of the field (|floor(x)| < 2**(ibits-1))"]

WIDTHS = ((32, 32), (32, 8), (28, 4))
SMALL = ((2, 1), (2, 2), (3, 3), (4, 2), (5, 4), (1, 3), (6, 5))


def writer():
    from dustmaker import DFWriter

    return DFWriter(io.BytesIO(), noclose=True)


def reader(data):
    from dustmaker import DFReader

    return DFReader(io.BytesIO(data))


def wr_float(ctx, ib, fb, pre, val):
    w = writer()
    w.write(pre, (1 << pre) - 1)
    w.write_float(ib, fb, val)
    same(w.bit_tell(), pre + ib + fb, "bits written for a number")
    w.write(3, 5)
    w.close()
    bits = bytes_bits(w.data.getvalue())
    ctx.step(2)
    same(bits[pre + ib + fb : pre + ib + fb + 3], "101", "bits after the number")
    same(bits[:pre], "1" * pre, "bits before the number")
    r = reader(w.data.getvalue())
    r.read(pre)
    back = r.read_float(ib, fb)
    same(r.bit_tell(), pre + ib + fb, "reader position")
    same(r.read(3), 5, "reader continues behind the number")
    return bits[pre : pre + ib + fb], back


def check_number(ctx, ib, fb, pre, val):
    """val: float in range."""
    unit = Fraction(1, 1 << (fb - 1))
    bits, back = wr_float(ctx, ib, fb, pre, val)
    stored = dec_float(ib, fb, bits[0] == "1", bits_int(bits[1:ib]), bits_int(bits[ib:]))
    exact = Fraction(val) % unit == 0
    require(abs(stored - Fraction(val)) < unit, "stored value off by a unit or more", val, ib, fb, bits)
    require(abs(Fraction(back) - Fraction(val)) <= unit, "read value off by more than a unit", val, back)
    if exact:
        same(bits, enc_float(ib, fb, val), f"stored fields of {val!r} ({ib},{fb})")
        same(back, val, "read back value of a representable number")
    ctx.state(ib, fb, bits)


def g_small(tier):
    for ib, fb in SMALL:
        for pre in range(8):
            yield ib, fb, pre


@PROP.family(g_small, "every representable number of seven small formats at every alignment, and points between the representable ones")
def small_formats(ctx, case):
    ib, fb, pre = case
    top = 1 << (ib - 1)
    den = 1 << (fb - 1)
    for n in range(-(top - 1) * den, top * den):
        check_number(ctx, ib, fb, pre, n / den)
        for off in (0.25, 0.5, 0.75):
            v = (n + off) / den
            if v > -(top - 1):
                check_number(ctx, ib, fb, pre, v)


def g_patterns(tier):
    for ib, fb in SMALL:
        for pre in range(8):
            yield ib, fb, pre


@PROP.family(g_patterns, "every stored bit pattern of the small formats reads as the number it denotes")
def small_patterns(ctx, case):
    ib, fb, pre = case
    for v in range(1 << (ib + fb)):
        body = ubits(ib + fb, v)
        r = reader(bits_bytes("1" * pre + body + "110"))
        r.read(pre)
        want = dec_float(ib, fb, body[0] == "1", bits_int(body[1:ib]), bits_int(body[ib:]))
        same(Fraction(r.read_float(ib, fb)), want, f"value of pattern {body}")
        same(r.read(3), 3, "following bits")
        ctx.step()
        ctx.state(ib, fb, v)


def int_points(ib):
    top = (1 << (ib - 1)) - 1
    pts = {0, 1, 2, 3, 5, 15, 16, 17, 47, 48, 49, 127, 128, 255, 256, 257, 1000, 4095, 65535, 65536,
           10**6, top, top - 1, (top + 1) // 2, (top + 1) // 2 - 1}
    pts |= {1 << k for k in range(ib - 1)} | {(1 << k) - 1 for k in range(ib)}
    return sorted(p for p in pts if p <= top)


def frac_points(fb):
    den = 1 << (fb - 1)
    pts = {0, 1, 2, 3, den // 2, den // 2 + 1, den // 3, den // 4 * 3, den - 1, den - 2}
    pts |= {1 << k for k in range(fb - 1)} | {(1 << k) - 1 for k in range(fb)}
    return sorted(p % den for p in pts)


WIDER = ((33, 8), (40, 8), (48, 4), (16, 40), (9, 44), (50, 2))


def g_used(tier):
    for ib, fb in WIDTHS + WIDER:
        for ip in int_points(ib):
            yield ib, fb, ip


@PROP.family(g_used, "the formats in use (32.32, 32.8, 28.4) and six wider ones: all powers of two and limits of the integer part with all powers of two and limits of the fraction, both signs, all alignments")
def used_formats(ctx, case):
    ib, fb, ip = case
    den = 1 << (fb - 1)
    top = (1 << (ib - 1)) - 1
    for n, fp in enumerate(frac_points(fb)):
        for sg in (1, -1):
            q = Fraction(sg * ip) + Fraction(fp, den)
            v = float(q)
            if Fraction(v) != q or not -top <= v <= top + 1 - Fraction(1, den):
                continue
            if q.numerator // q.denominator < -top:
                continue
            check_number(ctx, ib, fb, (n + ip) % 8, v)
    for off in (1 / 3, 0.1, 0.7, 1e-9, 1 - 1e-9, 0.999):
        for sg in (1, -1):
            v = sg * ip + off
            if -top <= v < top + 1:
                check_number(ctx, ib, fb, ip % 8, v)


@PROP.family(g_used, "bit patterns of the formats in use and six wider ones (including non-canonical fractions) at all alignments")
def used_patterns(ctx, case):
    ib, fb, ip = case
    pts = set(frac_points(fb)) | {(1 << fb) - 1, 1 << (fb - 1), (1 << (fb - 1)) + 1}
    for n, fp in enumerate(sorted(pts)):
        for s in (0, 1):
            for pre in (n % 8, (n + 3) % 8):
                body = ubits(1, s) + ubits(ib - 1, ip) + ubits(fb, fp)
                r = reader(bits_bytes("0" * pre + body + "101"))
                r.read(pre)
                got = r.read_float(ib, fb)
                want = dec_float(ib, fb, s, ip, fp)
                ctx.step()
                if Fraction(float(want)) == want:
                    same(Fraction(got), want, f"value of pattern s={s} i={ip} f={fp} ({ib},{fb})")
                else:
                    require(abs(Fraction(got) - want) <= max(Fraction(1, 1 << (fb - 1)), Fraction(math.ulp(got))), "read value off", s, ip, fp, got)
                same(r.read(3), 5, "following bits")
                ctx.state(ib, fb, s, ip, fp)


def str_case(ctx, text, pre):
    w = writer()
    w.write(pre, 0)
    w.write_6bit_str(text)
    w.write(2, 3)
    w.close()
    want = "0" * pre + enc_str6(text) + "11"
    same(w.data.getvalue(), bits_bytes(want), f"encoding of {text!r}")
    r = reader(bits_bytes(want))
    r.read(pre)
    same(r.read_6bit_str(), text, "string read back")
    same(r.read(2), 3, "bits after the string")
    same(r.bit_tell(), len(want), "reader position")
    ctx.step(2)
    ctx.state(text)


def g_pairs(tier):
    for a in ALPHABET:
        for pre in range(8):
            yield a, pre


@PROP.family(g_pairs, "all strings of length 1 and 2 over the 64 symbols at every alignment (thorough: length 3)")
def short_strings(ctx, case):
    a, pre = case
    str_case(ctx, a, pre)
    for b in ALPHABET:
        str_case(ctx, a + b, pre)
        if ctx.tier == "thorough":
            for c in ALPHABET:
                str_case(ctx, a + b + c, pre)


def g_len(tier):
    for n in range(64):
        for pre in range(8):
            yield n, pre


@PROP.family(g_len, "all lengths 0..63 at every alignment, rotated so that every symbol appears at every place")
def lengths(ctx, case):
    n, pre = case
    for rot in range(0, 64, 1 if ctx.tier == "thorough" else 7):
        str_case(ctx, (ALPHABET + ALPHABET)[rot : rot + n], pre)
    str_case(ctx, "{" * n, pre)


def g_bad(tier):
    for cp in list(range(0, 0x250)) + [0x3B1, 0x660, 0xFF10, 0xFF21, 0xFF41, 0x1D7CE, 0x10FFFF, 0x2028, 0xDC80]:
        if chr(cp) not in ALPHABET:
            yield cp
    for n in (64, 65, 66, 100, 127, 128, 129, 255, 256, 1000, 65536):
        yield -n


@PROP.family(g_bad, "every other character up to U+024F (and digits/letters of other scripts) at the start, middle and end, and strings of 64 and more characters, are refused")
def refused(ctx, case):
    if case < 0:
        for ch in "a0{":
            raises(ValueError, writer().write_6bit_str, ch * -case)
            ctx.step()
        return
    ch = chr(case)
    for text in (ch, ch + "abc", "ab" + ch + "c", "abc" + ch, "a" * 62 + ch, ch * 2):
        raises(ValueError, writer().write_6bit_str, text)
        ctx.step()
    ctx.state(case)


def g_codes(tier):
    for pre in range(8):
        yield pre


@PROP.family(g_codes, "every 6-bit code reads as its symbol, and read_6bit_str of the reference encoding of random-access positions")
def codes(ctx, case):
    text = ALPHABET
    s = "1" * case
    offs = []
    for i in range(0, 64, 9):
        offs.append(len(s))
        s += enc_str6(text[i : i + 9])
    b = Bits(s + "0" * 8)
    b.p = case
    r = reader(bits_bytes(s))
    for n, o in reversed(list(enumerate(offs))):
        r.bit_seek(o)
        b.p = o
        same(r.read_6bit_str(), take_str6(b), "string at position")
        ctx.step()


def g_expect(tier):
    for pre in range(8):
        for n in range(0, 9):
            yield pre, n


@PROP.family(g_expect, "read_expect accepts exactly the expected bytes at every alignment")
def expect(ctx, case):
    from dustmaker import LevelParseException

    pre, n = case
    want = bytes(range(65, 65 + n))
    data = bits_bytes("1" * pre + bytes_bits(want) + "1010")
    r = reader(data)
    r.read(pre)
    r.read_expect(want)
    same(r.read(4), 5, "bits after the expected bytes")
    for i in range(n):
        for flip in (1, 0x80):
            bad = want[:i] + bytes([want[i] ^ flip]) + want[i + 1 :]
            r = reader(data)
            r.read(pre)
            raises(LevelParseException, r.read_expect, bad)
            ctx.step()


assert take_float  # re-exported for the replay tool
