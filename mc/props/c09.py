"""C09: metadata-only rewrites never disturb region data."""
import io
import itertools

from mc import levelcases as L
from mc import ref
from mc.core import Prop, raises, require, same

PROP = Prop("C09")
PROP.assumptions = ["variables and thumbnails are within the limits of the format"]


def regions(n):
    """n encoded regions with distinct contents and lengths."""
    out = []
    for i in range(n):
        tl = [(19, [(j, i % 16, L.FULLT) for j in range(1 + i % 5)])]
        pr = [ref.enc_prop_new(200 + i, 3, 100.0 + i, 50.0, L.PROPV, 32)]
        en = [(ref.enc_entity(300 + i, 5.0 + i, 6.0, L.ENTV, "enemy_bear"), None)]
        out.append(ref.enc_region(i - 1, -i, [ref.enc_segment(8, i % 16, 3, tl, None, pr, en)],
                                  ref.enc_segment(8, 0, 0, tl) if i % 2 else None, level=(1, 6, 9)[i % 3]))
    return out


def pad(n):
    return L.pad_vars(n)


def edit(level, how):
    """Apply a metadata change; returns (vars tree, sshot) expected afterwards."""
    kind = how[0]
    if kind == "none":
        pass
    elif kind == "pad":
        level.variables = ref.build_map(pad(how[1]))
    elif kind == "tree":
        level.variables = ref.build_map(L.META_TREES[how[1]])
    elif kind == "add":
        level.variables["zz_added"] = ref.build_var(("s", b"v" * how[1]))
    elif kind == "clear":
        level.variables.clear()
    elif kind == "sshot":
        level.sshot = (b"DF_LVL\0" + bytes(range(256)) * (how[1] // 256 + 1))[: how[1]]
    elif kind == "image":
        end = bytes((how[1],)) * (1 + how[1] % 3)
        level.sshot = end + b"PNG" + end
    elif kind == "name":
        level.name = b"n" * how[1]
        level.level_type = 6
        level.start_position(2).x = -17
    return ref.stored_tree(ref.snap_map(level.variables)), bytes(level.sshot)


def chunks(data, mode):
    if mode == "whole":
        return data
    if mode == "one":
        return [data]
    if mode == "gen":
        return (data[i : i + 7] for i in range(0, len(data), 7))
    if mode == "bytes":
        return [data[i : i + 1] for i in range(len(data))]
    if mode == "empties":
        return [b"", data[:1], b"", data[1:], b""]
    if mode == "tuple":
        h = len(data) // 2
        return (data[:h], data[h:])
    raise ValueError(mode)


MODES = ("whole", "one", "gen", "bytes", "empties", "tuple")


def rewrite(ctx, data, how, mode, roff, woff):
    from dustmaker import DFReader, DFWriter, read_level

    f = io.BytesIO(b"\xaa" * roff + data)
    f.seek(roff)
    r = DFReader(f)
    level, offs = r.read_level_ex()
    require(r.aligned(), "reader is not aligned after read_level_ex")
    at = r.bit_tell() // 8 - roff
    same(offs[-1], len(data) - at, "length of the region data")
    same(len(offs) - 1, int.from_bytes(data[12:16], "little"), "number of regions")
    body = r.read_bytes(offs[-1])
    same(body, data[at:], "region data read")
    want_vars, want_sshot = edit(level, how)
    g = io.BytesIO()
    g.write(b"\x55" * woff)
    w = DFWriter(g, noclose=True)
    w.write_level_ex(level, offs, chunks(body, mode))
    end = w.bit_tell()
    w.close()
    out = g.getvalue()
    ctx.step(4)
    same(out[:woff], b"\x55" * woff, "bytes before the level")
    out = out[woff:]
    same(end, 8 * (woff + len(out)), "position of the writer")
    # structure, by the independent decoder
    b = ref.Bits(out)
    same(b.by(6), b"DF_LVL", "magic")
    same(b.u(16), 44, "version")
    same(b.u(32), len(out), "file size field")
    nreg = b.u(32)
    same(nreg, len(offs) - 1, "region count")
    same(b.by(6), b"DF_MTD", "metadata magic")
    b.u(16)
    b.u(32)
    next_id = b.u(32)
    b.raw(96)
    same(b.by(b.u(32)), want_sshot, "thumbnail")
    same(ref.take_var(b, "S"), want_vars, "variables")
    same([b.u(32) for _ in range(nreg)], offs[:-1], "region directory")
    b.align()
    same(out[b.p // 8 :], body, "region data written")
    # the public reader agrees
    r2 = DFReader(io.BytesIO(out))
    lv2, offs2 = r2.read_level_ex()
    same(offs2, offs, "region offsets of the new file")
    same(ref.snap_map(lv2.variables), want_vars, "variables of the new file")
    same(lv2.sshot, want_sshot, "thumbnail of the new file")
    ctx.state(out)
    return out, next_id, want_vars, want_sshot


def full(ctx, data, out, want_vars, want_sshot, next_id):
    from dustmaker import read_level

    a = ref.snap_level(read_level(data))
    b = ref.snap_level(read_level(out))
    ctx.step(2)
    want = dict(a, vars=want_vars, sshot=want_sshot)
    ref.diff_levels(b, want, "full read of the rewritten file")
    ids = list(a["props"]) + list(a["ents"]) + list(a["bd_props"])
    require(next_id > max(ids, default=0), "stored next id", next_id, "not above the ids in use", max(ids, default=0))


HOWS = (
    [("none",), ("clear",)]
    + [("add", n) for n in (0, 1, 2, 3, 255, 65535)]
    + [("tree", i) for i in range(len(L.META_TREES))]
    + [("sshot", n) for n in (0, 1, 3, 255, 256, 70000)]
    + [("name", n) for n in (0, 1, 5)]
)


def g_edits(tier):
    for nreg in (0, 1, 2, 3, 17):
        for fv in (43, 44):
            for vi in range(len(L.META_TREES)):
                for how in HOWS:
                    if vi in (6, 7) and nreg not in (0, 2) and tier == "quick":
                        continue
                    yield (nreg, fv, vi, how)


@PROP.family(g_edits, "0..17 regions x file versions x 9 variable sections x every kind of metadata edit")
def edits(ctx, case):
    nreg, fv, vi, how = case
    data = ref.enc_level(fv, L.META_TREES[vi], b"oldimage" if fv > 43 else b"", regions(nreg))
    out, nid, v, s = rewrite(ctx, data, how, "whole", 0, 0)
    full(ctx, data, out, v, s, nid)


def g_bits(tier):
    for a in range(24):
        for b in range(24):
            for nreg in (0, 1, 2, 3):
                yield (a, b, nreg)


@PROP.family(g_bits, "every bit length (modulo 24) of the old and of the new variable section with 0..3 regions")
def bits(ctx, case):
    a, b, nreg = case
    data = ref.enc_level(44, pad(a), b"i", regions(nreg))
    out, nid, v, s = rewrite(ctx, data, ("pad", b), "whole", 0, 0)
    if b % 8 == 0:
        full(ctx, data, out, v, s, nid)


def g_pieces(tier):
    for nreg in (0, 1, 3):
        for n in range(8):
            for mode in MODES:
                for roff in (0, 1, 5):
                    for woff in (0, 1, 2, 9):
                        yield (nreg, n, mode, roff, woff)


@PROP.family(g_pieces, "region data whole and in every kind of pieces, file and output starting at several stream offsets, 8 variable lengths")
def pieces(ctx, case):
    nreg, n, mode, roff, woff = case
    data = ref.enc_level(44, pad(3), b"img", regions(nreg))
    rewrite(ctx, data, ("pad", n), mode, roff, woff)


def g_written(tier):
    for ks in ("", "t", "tp", "tpebq", "q", "b"):
        for layout in range(5):
            for how in (("none",), ("pad", 3), ("sshot", 9), ("clear",)):
                yield (ks, layout, how)


@PROP.family(g_written, "levels written by the library itself (all layouts of the shared level cases)")
def written(ctx, case):
    from dustmaker import write_level

    ks, layout, how = case
    data = write_level(ref.build_level(L.make(("subset", ks, layout))))
    out, nid, v, s = rewrite(ctx, data, how, "whole", 0, 0)
    full(ctx, data, out, v, s, nid)


def g_opaque(tier):
    for lens in itertools.product((0, 1, 2, 17, 300), repeat=3):
        for n in range(0, 8):
            yield (lens, n)


@PROP.family(g_opaque, "region bytes are opaque: arbitrary byte strings of any length survive")
def opaque(ctx, case):
    lens, n = case
    regs = [bytes((7 * i + j) % 256 for j in range(k)) for i, k in enumerate(lens)]
    data = ref.enc_level(44, pad(n), b"", regs)
    rewrite(ctx, data, ("pad", n + 5), "whole", 0, 0)


def g_bulk(tier):
    for n in (70001, 2**20 + 3, 2**22 + 5, 2**24 + 1):
        for m in (0, 70001, 2**20 + 7):
            for mode in ("whole", "one"):
                yield (n, m, mode)


@PROP.family(g_bulk, "up to 16 MB of region data together with thumbnails of up to 1 MB that grow or shrink")
def bulk(ctx, case):
    n, m, mode = case
    block = bytes(range(256)) + b"DF_LVL"
    regs = [b"first", (block * (n // len(block) + 1))[:n], b"last"]
    for was, now in ((m, 5), (5, m)):
        data = ref.enc_level(44, pad(3), (block * (was // len(block) + 1))[:was], regs)
        rewrite(ctx, data, ("sshot", now), mode, 0, 0)
    ctx.state(case)


def g_ends(tier):
    for b in range(256):
        yield b


@PROP.family(g_ends, "old and new thumbnails and region bytes that start and end with every byte value")
def ends(ctx, b):
    end = bytes((b,)) * (1 + b % 4)
    data = ref.enc_level(44, pad(b % 8), end + b"old" + end, [end + b"r" + end, end])
    rewrite(ctx, data, ("image", b), "whole", 0, 0)
    rewrite(ctx, data, ("pad", b % 5), "gen", 3, 5)


def g_amount(tier):
    for nreg in (0, 1, 2):
        for delta in (-1000, -2, -1, 1, 2, 17):
            for n in range(8):
                for mode in MODES:
                    yield (nreg, delta, n, mode)


@PROP.family(g_amount, "a different amount of region data is refused")
def amount(ctx, case):
    from dustmaker import DFReader, DFWriter
    from dustmaker.exceptions import LevelParseException

    nreg, delta, n, mode = case
    data = ref.enc_level(44, pad(n), b"", regions(nreg))
    r = DFReader(io.BytesIO(data))
    level, offs = r.read_level_ex()
    body = r.read_bytes(offs[-1])
    bad = body + b"\0" * delta if delta > 0 else body[:delta]
    if len(bad) == len(body):
        return
    w = DFWriter(io.BytesIO())
    raises(LevelParseException, w.write_level_ex, level, offs, chunks(bad, mode))
    ctx.step(2)
    ctx.state(case)


def g_manual(tier):
    for nreg in (0, 1, 2, 5):
        for n in range(8):
            yield (nreg, n)


@PROP.family(g_manual, "documented use: read_level_ex then read_region for every offset equals read_level; metadata_only equals read_level_ex")
def manual(ctx, case):
    from dustmaker import DFReader, read_level

    nreg, n = case
    data = ref.enc_level(44, pad(n), b"im", regions(nreg))
    r = DFReader(io.BytesIO(data))
    level, offs = r.read_level_ex()
    pos = r.bit_tell() // 8
    for o in offs[:-1]:
        same(r.bit_tell() // 8 - pos, o, "region offset")
        r.read_region(level)
    same(r.bit_tell() // 8 - pos, offs[-1], "end of the region data")
    ref.diff_levels(ref.snap_level(level), ref.snap_level(read_level(data)), "manual read")
    m = DFReader(io.BytesIO(data)).read_level(metadata_only=True)
    want = ref.empty_level()
    want["vars"], want["sshot"] = ref.stored_tree(pad(n)), b"im"
    ref.diff_levels(ref.snap_level(m), want, "metadata only read")
    ctx.step(4 + nreg)
    ctx.state(data)


def g_many(tier):
    for nreg in (255, 256, 257, 1000, 4096, 4097, 5000) + ((65536, 70001) if tier == "thorough" else ()):
        for n in (0, 3):
            yield (nreg, n)


@PROP.family(g_many, "up to 5000 (thorough 70001) small regions, up to 1000 of them also in every kind of pieces")
def many_regions(ctx, case):
    nreg, n = case
    regs = [bytes((i % 251, i // 251 % 256))[: 1 + i % 3] for i in range(nreg)]
    data = ref.enc_level(44, pad(n), b"im", regs)
    for mode in MODES if nreg <= 1000 else ("whole", "gen"):
        rewrite(ctx, data, ("pad", n + 2), mode, 0, 0)
