"""C04: variable trees and variable files survive write and read."""
import io
import itertools

from mc.core import Prop, require, same, raises
from mc import ref
from mc.ref import ALPHABET, MAXW, bits_bytes, enc_var

PROP = Prop("C04")
PROP.assumptions = [
    "floats are compared at the stored resolution of 2**-31",
    "no empty string follows a string continuation ambiguity: the last piece of a string is shorter than 65535 bytes",
]

LEAVES = {
    "b": [("b", False), ("b", True)],
    "i": [("i", v) for v in (0, 1, -1, 5, -77, 255, 256, -256, 65535, 2**31 - 1, -(2**31), -(2**31) + 1, 0x01020304)],
    "u": [("u", v) for v in (0, 1, 2, 255, 65536, 2**31 - 1, 2**31, 2**32 - 1, 0xA5C3_0F81)],
    "f": [("f", v) for v in (0.0, 1.0, -1.0, 0.5, -0.5, -0.25, 1.75, -2.75, 2.0**-31, -(2.0**-31), 1 - 2.0**-31,
                             -1 + 2.0**-31, 123456.0625, -123456.0625, 2.0**31 - 1, -(2.0**31) + 1, 1073741824.5)],
    "s": [("s", v) for v in (b"", b"a", b"\x00", b"\xff", b"ab\x00c", bytes(range(256)), b"{}" * 100, b"x" * 255, b"y" * 256)],
    "v": [("v", v) for v in ((0.0, 0.0), (1.0, -1.0), (-0.5, 0.25), (2.0**31 - 1, -(2.0**31) + 1), (3.75, 2.0**-31))],
}
ONE = {k: v[1 if k in "bius" else -2] for k, v in LEAVES.items()}
ONE["S"] = ("S", (("k", ("i", -3)), ("z", ("b", True))))
ONE["A"] = ("A", "i", (("i", 7), ("i", -8)))
KINDS = "biufsvSA"


def vtype(k):
    from dustmaker.variable import VariableType

    return VariableType(ref.VT[k])


def round_trip(ctx, tree, pre=0, what="tree"):
    """write at alignment pre, compare with the reference encoding, read both ways."""
    from dustmaker import DFReader, DFWriter

    var = ref.build_var(tree)
    w = DFWriter(io.BytesIO(), noclose=True)
    w.write(pre, (1 << pre) - 1)
    w.write_variable(var)
    w.write(3, 5)
    w.close()
    want_bits = enc_var(ref.stored_tree(tree))
    got = w.data.getvalue()
    ctx.step(2)
    if got != bits_bytes("1" * pre + want_bits + "101"):
        b = ref.Bits(got)
        b.p = pre
        try:
            dec = ref.take_var(b, tree[0])
        except ref.FormatError as e:
            dec = e
        same(dec, ref.stored_tree(tree), f"{what} decoded independently")
        same(got, bits_bytes("1" * pre + want_bits + "101"), f"encoding of the {what}")
    r = DFReader(io.BytesIO(got))
    r.read(pre)
    back = r.read_variable(vtype(tree[0]))
    same(r.bit_tell(), pre + len(want_bits), "reader position after the variable")
    same(r.read(3), 5, "bits after the variable")
    same(ref.snap_var(back), ref.stored_tree(tree), f"{what} read back")
    if ref.stored_tree(tree) == tree:
        require(back == var, "the variable read back is not equal to the one written")
    ctx.state(hash(got))


def leaves():
    for k in "biufsv":
        yield from LEAVES[k]


def g_leaf(tier):
    for t in leaves():
        for pre in range(8):
            yield t, pre


@PROP.family(g_leaf, "every leaf of the boundary alphabets, bare, in a struct and in an array, at every alignment")
def leaf(ctx, case):
    t, pre = case
    round_trip(ctx, t, pre)
    round_trip(ctx, ("S", (("key", t),)), pre)
    round_trip(ctx, ("A", t[0], (t,)), pre)
    round_trip(ctx, ("A", t[0], (t, t)), pre)
    round_trip(ctx, ("S", (("a", t), ("b", ("A", t[0], (t,))), ("c", t))), pre)


def wraps(t, depth):
    """All containers around t up to the given depth."""
    yield t
    if depth == 0:
        return
    k = t[0]
    forms = [
        ("S", (("k", t),)),
        ("S", (("p", ONE["b"]), ("k", t), ("q", ONE["s"]))),
        ("A", k, (t,)),
        ("A", k, (t, t, t)),
    ]
    for f in forms:
        yield from wraps(f, depth - 1)


def g_nest(tier):
    for k in KINDS:
        for pre in range(8):
            yield k, pre
    for k in KINDS:
        yield ("empty", k), 0


@PROP.family(g_nest, "all nestings of structs and arrays of depth up to 4 (thorough 5) around every kind, including empty arrays and structs")
def nesting(ctx, case):
    k, pre = case
    depth = 5 if ctx.tier == "thorough" else 4
    if isinstance(k, tuple):
        for base in (("A", k[1], ()), ("S", ()), ("A", "A", (("A", k[1], ()), ONE["A"], ("A", "S", ())))):
            for t in wraps(base, depth):
                round_trip(ctx, t, 3)
        return
    for t in wraps(ONE[k], depth if pre == 0 else 3):
        round_trip(ctx, t, pre)


def g_seq(tier):
    n = 3 if tier == "quick" else 4
    for ks in itertools.product(KINDS, repeat=n):
        yield ks


@PROP.family(g_seq, "structs holding every sequence of 3 kinds (thorough 4): key order and neighbouring values")
def sequences(ctx, case):
    items = tuple((f"k{len(case) - i}", ONE[k]) for i, k in enumerate(case))
    round_trip(ctx, ("S", items), 1)
    round_trip(ctx, ("S", (("s", ("S", items)), ("t", ("A", "S", (("S", items), ("S", items[::-1])))))), 6)


def g_count(tier):
    for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024]:
        for k in KINDS:
            if n <= 300 or k in "bis":
                yield n, k
    yield 65535, "b"
    yield 65535, "s"
    yield 2000, "i"
    yield 32768, "i"


@PROP.family(g_count, "array lengths 0..19, all powers of two +-1 up to 1024, and 65535, for every element kind; structs with the same number of keys")
def counts(ctx, case):
    n, k = case
    if k == "i":
        elems = tuple(("i", i - n // 2) for i in range(n))
    elif k == "s" and n < 1000:
        elems = tuple(("s", b"%d" % i) for i in range(n))
    elif k == "s":
        elems = tuple(("s", b"") for i in range(n))
    elif k == "b":
        elems = tuple(("b", i % 3 == 0) for i in range(n))
    else:
        elems = (ONE[k],) * n
    round_trip(ctx, ("A", k, elems), n % 8)
    if n <= 300 or k == "i":
        keys = [f"key_{i}" for i in range(n)]
        round_trip(ctx, ("S", tuple(zip(keys[::-1], elems))), n % 8)


def g_keys(tier):
    for n in range(64):
        yield n


@PROP.family(g_keys, "struct keys of all lengths 0..63 over the whole symbol alphabet, in both orders")
def keys(ctx, case):
    n = case
    key = (ALPHABET * 2)[n : n + n] if n else ""
    for k in KINDS:
        round_trip(ctx, ("S", ((key, ONE[k]), ("other", ONE[k]))), n % 8)
        round_trip(ctx, ("S", (("other", ONE[k]), (key, ONE[k]))), (n + 3) % 8)
    if n < 2:
        for ch in ALPHABET:
            round_trip(ctx, ("S", ((ch, ONE["b"]), (ch + ch, ONE["u"]))), n)


LONG = (MAXW - 1, MAXW, MAXW + 1, 2 * MAXW - 1, 2 * MAXW, 2 * MAXW + 1, 3 * MAXW, 3 * MAXW + 2)


def text(n, salt=0):
    return bytes(((i * 131 + (i >> 8) * 7 + salt) & 255) for i in range(n))


def g_ends(tier):
    for b in range(256):
        yield b


@PROP.family(g_ends, "strings starting, ending and consisting of every byte value, bare, in structs and in arrays, at every alignment")
def byte_ends(ctx, b):
    end = bytes((b,)) * (1 + b % 3)
    strings = tuple(("s", s) for s in (end, end + b"m" + end, b"x" + end, end + b"y", end * 40))
    round_trip(ctx, strings[1], b % 8)
    round_trip(ctx, ("A", "s", strings), b // 8 % 8)
    round_trip(ctx, ("S", tuple((f"k{i}", s) for i, s in enumerate(strings))), b // 32)


def g_long(tier):
    lens = LONG if tier == "thorough" else LONG[:7]
    for n in lens:
        for form in range(6):
            yield n, form
    for n in LONG if tier == "thorough" else LONG[1:3]:
        for pre in range(1, 8):
            yield n, 10 + pre


@PROP.family(g_long, "strings of 65534..3*65535 bytes (every continuation boundary) alone, before and after other entries, in structs and arrays, followed by empty and short strings and by each other")
def long_strings(ctx, case):
    n, form = case
    s = ("s", text(n))
    if form >= 10:
        round_trip(ctx, ("S", (("txt", s), ("u", ("s", b"")))), form - 10)
        round_trip(ctx, ("A", "s", (s, ("s", b"t"))), form - 10)
    elif form == 0:
        round_trip(ctx, ("S", (("txt", s),)))
        round_trip(ctx, ("A", "s", (s,)))
    elif form == 1:
        round_trip(ctx, ("S", (("a", ("b", True)), ("txt", s), ("z", ("s", b"tail")), ("i", ("i", -1)))))
    elif form == 2:
        round_trip(ctx, ("A", "s", (("s", b""), s, ("s", b""), ("s", b"x"))))
    elif form == 3:
        m = LONG[(LONG.index(n) + 1) % 3]
        round_trip(ctx, ("A", "s", (s, ("s", text(m, 9)))), 0)
        round_trip(ctx, ("S", (("a", s), ("b", ("s", text(m, 9))))), 0)
    elif form == 4:
        round_trip(ctx, ("S", (("q", ("A", "s", (s, ("s", b"k")))), ("r", ("S", (("txt", s),))))), 5)
    elif n == MAXW - 1 or n == MAXW:
        round_trip(ctx, ("s", text(n)), n % 8)


def g_longer(tier):
    for k in (4, 5, 6, 9, 17) if tier == "quick" else (4, 5, 6, 7, 8, 9, 16, 17, 33):
        for d in (-1, 0, 1):
            yield ("parts", k * MAXW + d)
    for ln in range(0, 64):
        yield ("key", ln)


@PROP.family(g_longer, "strings of up to 17 (thorough 33) parts in structs and arrays; strings of several parts under keys of every length 0..63")
def longer_strings(ctx, case):
    from dustmaker import DFReader, DFWriter

    kind, n = case
    if kind == "key":
        key = (ALPHABET * 2)[n % 7 : n % 7 + n]
        # the bits of a continued string, from the format: each part repeats type and key
        s = text(2 * MAXW + 3, n)
        parts = [s[:MAXW], s[MAXW : 2 * MAXW], s[2 * MAXW :]]
        w = DFWriter(io.BytesIO(), noclose=True)
        w.write_variable(ref.build_var(("S", ((key, ("s", s)), ("z", ("b", True))))))
        w.close()
        got = w.data.getvalue()
        b = DFReader(io.BytesIO(got))
        for part in parts:
            same((b.read(4), b.read_6bit_str(), b.read(16), b.read_bytes(len(part)) == part), (int(_string_type()), key, len(part), True), f"part of a string under a key of length {n}")
        back = DFReader(io.BytesIO(got)).read_variable_map()
        same(list(back), [key, "z"], "keys")
        same(back[key].value == s, True, "string under a long key")
        ctx.step(3)
    else:
        s = text(n)
        for tree in (("S", (("a", ("s", s)), ("b", ("s", b"")), ("c", ("b", True)))), ("A", "s", (("s", b"x"), ("s", s), ("s", b""), ("s", b"y")))):
            w = DFWriter(io.BytesIO(), noclose=True)
            w.write_variable(ref.build_var(tree))
            w.close()
            back = DFReader(io.BytesIO(w.data.getvalue())).read_variable(_type_of(tree[0]))
            ctx.step(2)
            same(ref.snap_var(back) == tree, True, f"{tree[0]} with a string of {n} bytes comes back equal")
    ctx.state(case)


def _string_type():
    return _type_of("s")


def _type_of(k):
    from dustmaker.variable import VariableType

    return {"s": VariableType.STRING, "S": VariableType.STRUCT, "A": VariableType.ARRAY}[k]


def g_bulk(tier):
    for n in (2, 17, 33, 257):
        yield n


@PROP.family(g_bulk, "variable files of 130 KB, 1.1 MB, 2.1 MB and 16.8 MB: size field, header and mapping")
def bulk_files(ctx, n):
    from dustmaker import DFReader, DFWriter
    from dustmaker.variable import VariableString

    s = text(MAXW - 1)
    tree = {f"k{i:04d}": VariableString(s[i:] + s[:i]) for i in range(n)}
    w = DFWriter(io.BytesIO(), noclose=True)
    w.write_var_file(b"DF_CFG", tree)
    w.close()
    got = w.data.getvalue()
    ctx.step()
    bits = 6 * 8 + 16 + 32 + n * (4 + 6 + 6 * 5 + 16 + 8 * (MAXW - 1)) + 4
    same(len(got), (bits + 7) // 8, "length of the file")
    same((got[:6], int.from_bytes(got[8:12], "little")), (b"DF_CFG", len(got)), "header and stored size")
    back = DFReader(io.BytesIO(got)).read_var_file(b"DF_CFG")
    ctx.step()
    same(list(back) == list(tree) and back == tree, True, "mapping comes back equal")
    ctx.state(n)


def g_limits(tier):
    for name in ("bare65536", "bare131070", "arr65536", "arr70000", "sarr65536", "cont65536", "cont65536b",
                 "cont65535", "cont2x", "nested", "nested2", "struct_in", "arr_in_struct"):
        yield name


@PROP.family(g_limits, "contents at and just beyond the limits: 65535/65536 slots with and without continuations, bare strings of 65535/65536 bytes")
def limits(ctx, case):
    from dustmaker import DFWriter

    big = ("A", "b", (("b", True),) * 65536)
    trees = {
        "bare65536": ("s", b"x" * 65536),
        "bare131070": ("s", b"x" * 131070),
        "arr65536": big,
        "arr70000": ("A", "b", (("b", False),) * 70000),
        "sarr65536": ("A", "s", (("s", b""),) * 65536),
        "cont65536": ("A", "s", (("s", b""),) * 65534 + (("s", text(MAXW)),)),
        "cont65536b": ("A", "s", (("s", text(MAXW)),) + (("s", b"q"),) * 65534),
        "cont2x": ("A", "s", (("s", text(2 * MAXW)),) + (("s", b""),) * 65533),
        "nested": ("A", "A", (ONE["A"], big)),
        "nested2": ("A", "s", (("s", b""),) * 65535 + (("s", b"z"),)),
        "struct_in": ("S", (("a", ("S", (("b", big),))),)),
        "arr_in_struct": ("S", (("a", ONE["i"]), ("b", ("A", "s", (("s", b""),) * 65536)))),
    }
    if case == "cont65535":
        # exactly 65535 slots, still legal
        round_trip(ctx, ("A", "s", (("s", b""),) * 65533 + (("s", text(MAXW)),)))
        round_trip(ctx, ("A", "s", (("s", text(MAXW + 5)),) + (("s", b""),) * 65533), 3)
        return
    t = trees[case]
    w = DFWriter(io.BytesIO(), noclose=True)
    w.write(4, 9)
    var = ref.build_var(t)
    raises(ValueError, w.write_variable, var)
    ctx.step()
    if case not in ("nested", "struct_in", "arr_in_struct"):
        same(w.bit_tell(), 4, "bits written although the contents were refused")
        w.close()
        same(w.data.getvalue(), b"\x09", "bytes written although the contents were refused")


FILE_TREES = (
    ("S", ()),
    ("S", (("a", ("b", True)),)),
    ("S", (("score", ("A", "S", (ONE["S"], ("S", ()), ONE["S"]))), ("name", ("s", b"\xffq")), ("n", ("i", -5)))),
    ("S", (("zz", ("f", -2.75)), ("aa", ("v", (1.5, -2.5))), ("mm", ("A", "A", (ONE["A"],))))),
    ("S", tuple((f"k{i}", ("b", i % 2 == 0)) for i in range(9))),
)


def g_files(tier):
    for header in (b"DF_STA", b"DF_CFG", b"DF_FOG", b"", b"X", b"long header 123"):
        for ti in range(len(FILE_TREES)):
            for off in (0, 1, 7, 300):
                yield header, ti, off


@PROP.family(g_files, "variable files with headers of several lengths at several stream offsets: header, size field, mapping and key order, several files in a row, wrong headers")
def files(ctx, case):
    from dustmaker import DFReader, DFWriter, LevelParseException

    header, ti, off = case
    tree = FILE_TREES[ti]
    f = io.BytesIO(b"\xee" * off)
    f.seek(off)
    w = DFWriter(f, noclose=True)
    w.write_var_file(header, ref.build_map(tree))
    size1 = w.bit_tell() // 8 - off
    w.write_var_file(header, ref.build_map(FILE_TREES[(ti + 1) % 5]))
    w.close()
    ctx.step(2)
    data = f.getvalue()
    same(data[:off], b"\xee" * off, "bytes before the file")
    body = bits_bytes(enc_var(ref.stored_tree(tree)))
    want = header + b"\x01\x00" + (len(header) + 6 + len(body)).to_bytes(4, "little") + body
    same(data[off : off + size1], want, "variable file bytes")
    body2 = bits_bytes(enc_var(FILE_TREES[(ti + 1) % 5]))
    same(len(data), off + len(want) + len(header) + 6 + len(body2), "total length of two files")
    f.seek(off)
    r = DFReader(f)
    same(ref.snap_map(r.read_var_file(header)), ref.stored_tree(tree), "mapping read back")
    r.align()
    same(ref.snap_map(r.read_var_file(header)), FILE_TREES[(ti + 1) % 5], "second mapping read back")
    if header:
        f.seek(off)
        raises(LevelParseException, DFReader(f).read_var_file, header[:-1] + bytes([header[-1] ^ 1]))
        f.seek(off + len(header))
        same(ref.snap_map(DFReader(f).read_var_file(b"")), ref.stored_tree(tree), "header already consumed")
    # the public conveniences agree
    r = DFReader(io.BytesIO(body))
    same(ref.snap_map(r.read_variable_map()), ref.stored_tree(tree), "read_variable_map")
    ctx.state(data)


def g_float(tier):
    for i in range(0, 64):
        yield i


@PROP.family(g_float, "floats and vec2s that are not representable come back within one unit of 2**-31, in every container")
def inexact(ctx, case):
    from dustmaker import DFReader, DFWriter

    base = (1 / 3, 0.1, 2 / 7, 1e-12)[case % 4]
    v = (base + case // 8) * (-1 if case & 4 else 1)
    for tree in (("f", v), ("S", (("k", ("f", v)), ("m", ("v", (v, -v))))), ("A", "f", (("f", v), ("f", -v)))):
        w = DFWriter(io.BytesIO(), noclose=True)
        w.write_variable(ref.build_var(tree))
        w.close()
        back = ref.snap_var(DFReader(io.BytesIO(w.data.getvalue())).read_variable(vtype(tree[0])))
        ctx.step(2)

        def flat(t):
            if t[0] == "f":
                return [t[1]]
            if t[0] == "v":
                return list(t[1])
            return [x for e in (t[1] if t[0] == "S" else t[2]) for x in flat(e[1] if t[0] == "S" else e)]

        for a, b in zip(flat(tree), flat(back), strict=True):
            require(abs(a - b) <= 2.0**-31, "number off by more than a unit", a, b)


def g_decode(tier):
    for n in range(0, 12):
        yield n


@PROP.family(g_decode, "independently encoded trees decode exactly, from any bit position")
def decode(ctx, case):
    from dustmaker import DFReader

    trees = list(wraps(ONE[KINDS[case % 8]], 2)) + list(FILE_TREES)
    s = "1" * case
    pos = []
    for t in trees:
        pos.append(len(s))
        s += enc_var(t) + "1"
    r = DFReader(io.BytesIO(bits_bytes(s)))
    r.read(case)
    for t in trees:
        same(ref.snap_var(r.read_variable(vtype(t[0]))), t, "decoded tree")
        same(r.read(1), 1, "separator")
        ctx.step()
    for t, p in reversed(list(zip(trees, pos))):
        r.bit_seek(p)
        same(ref.snap_var(r.read_variable(vtype(t[0]))), t, "decoded tree after a seek")
        ctx.step()
