"""C08: well-formed level files of every supported version read correctly."""
import io
import itertools

from mc import levelcases as L
from mc import ref
from mc.core import Prop, raises, require

PROP = Prop("C08")
PROP.assumptions = [
    "file versions 43 and 44, segment versions 1 to 8",
    "records are laid out by the independent encoder in mc/ref.py",
]

TILE = (3, 5, 2, 77, 9, L.EDGES)
NOFILTH = tuple(e[:4] + ref.BLANK_EDGE[4:] for e in L.EDGES)


def blank(t):
    return t[:5] + (tuple(e[:4] + ref.BLANK_EDGE[4:] for e in t[5]),)


# A file model: list of regions (rx, ry, [segment...], backdrop segment or None);
# segment := dict(v=version, at=(sx, sy), tiles=[(layer, x, y, tile)] or None,
#                 dusts=[(x, y, tile)], props=[(id, layer, x, y, prop, k)], ents=[(id, x, y, ent)])


def new_props(version, ltype):
    return version > 6 or ltype == 6


def enc(model, ltype=None, fv=44, vars_=("S", ()), sshot=b"", level=6, **kw):
    if ltype is not None:
        vars_ = ("S", tuple(vars_[1]) + (("level_type", ("i", ltype)),))
    regs = []
    for rx, ry, segs, bd in model:
        regs.append(
            ref.enc_region(
                rx, ry, [enc_seg(s, ltype) for s in segs],
                enc_seg(bd, ltype) if bd is not None else None, level=level, **kw
            )
        )
    return ref.enc_level(fv, vars_, sshot, regs)


def enc_seg(s, ltype):
    v = s["v"]
    layers = None
    if s.get("tiles") is not None:
        layers = []
        for layer, x, y, t in s["tiles"]:
            if not layers or layers[-1][0] != layer or s.get("split"):
                layers.append((layer, []))
            layers[-1][1].append((x, y, t))
        if s.get("empty_layer"):
            layers.insert(0, (7, []))
    dusts = None
    if s.get("dusts") is not None:
        dusts = [(x, y, ref.enc_dust_data(t)) for x, y, t in s["dusts"]]
    props = None
    if s.get("props") is not None:
        props = []
        for pid, layer, x, y, p, k in s["props"]:
            if pid < 0:
                props.append(ref.ubits(32, pid))
            elif new_props(v, ltype):
                props.append(ref.enc_prop_new(pid, layer, x, y, p, k))
            else:
                props.append(ref.enc_prop_old(pid, layer, x, y, p))
    ents = None
    if s.get("ents") is not None:
        ents = []
        for eid, x, y, e in s["ents"]:
            if eid < 0:
                ents.append((ref.ubits(32, eid), None))
            elif v > 7 and (e[0] == "entity" or e[0].startswith("z_")):
                ents.append((ref.enc_entity(eid, x, y, e, "entity"), e[0]))
            else:
                ents.append((ref.enc_entity(eid, x, y, e, e[0]), None))
    return ref.enc_segment(
        v, s["at"][0], s["at"][1], layers, dusts, props, ents,
        slack=s.get("slack", 0), names_gap=s.get("gap", 0), width=s.get("width", 16),
        totals=s.get("totals", (0, 0, 0, 0)), uid=s.get("uid", 0),
    )


def meaning(model, ltype=None, fv=44, vars_=("S", ()), sshot=b"", **_kw):
    lv = ref.empty_level()
    if ltype is not None:
        vars_ = ("S", tuple(vars_[1]) + (("level_type", ("i", ltype)),))
    lv["vars"] = ref.stored_tree(vars_)
    lv["sshot"] = sshot if fv > 43 else b""
    for rx, ry, segs, bd in model:
        for s in segs:
            apply_seg(lv, s, "tiles", "props", rx * 256, ry * 256, ltype)
        if bd is not None:
            apply_seg(lv, bd, "bd_tiles", "bd_props", rx * 16, ry * 16, ltype)
    return lv


def apply_seg(lv, s, tk, pk, ox, oy, ltype):
    ox += s["at"][0] * 16
    oy += s["at"][1] * 16
    for layer, x, y, t in s.get("tiles") or ():
        lv[tk][(layer, ox + x, oy + y)] = blank(t)
    for x, y, t in s.get("dusts") or ():
        old = lv[tk].get((19, ox + x, oy + y))
        if old is not None:
            lv[tk][(19, ox + x, oy + y)] = ref.apply_dust_data(old, ref.enc_dust_data(t))
    for pid, layer, x, y, p, k in s.get("props") or ():
        if pid < 0:
            continue
        if new_props(s["v"], ltype):
            lv[pk][pid] = (layer, float(int(x)), float(int(y)), p[:4] + (ref.scale_step(k),) + p[5:])
        else:
            lv[pk][pid] = (layer, ref.quant(4, x), ref.quant(4, y), p[:4] + (1.0,) + p[5:])
    for eid, x, y, e in s.get("ents") or ():
        if eid < 0:
            continue
        lv["ents"][eid] = (ref.quant(8, x), ref.quant(8, y), (e[0], ref.stored_tree(e[1])) + e[2:])


def judge(ctx, model, **kw):
    from dustmaker import read_level

    data = enc(model, **kw)
    lv = read_level(data)
    ctx.step()
    ctx.state(data)
    got = ref.snap_level(lv)
    ref.diff_levels(got, meaning(model, **kw), "level read")
    for _, _, e in lv.entities.values():
        cls = ref.entity_classes().get(e.etype)
        require(cls is None or type(e) is cls, "entity class", e.etype, type(e))
    return data


PROPREC = (100, 6, -300.5, 1000.125, (11, 0x7123, True, False, 1.0, 4, 3021, 17, 200), 37)
ENTREC = (500, -1000.25, 3.5, ("enemy_wolf", L.VARS, 0x1234, 17, True, False, True))
EXTREC = (501, 7.0, -9.0, ("z_thing", ("S", ()), 1, 2, False, True, False))


def seg(v, mask, at=(1, 2), **kw):
    s = {"v": v, "at": at}
    if mask & 1:
        s["tiles"] = [(19, 3, 4, TILE), (18, 15, 0, TILE)]
    if mask & 2:
        s["dusts"] = [(3, 4, TILE), (9, 9, TILE)]
    if mask & 4:
        s["props"] = [PROPREC, (101,) + PROPREC[1:]]
    if mask & 8:
        s["ents"] = [ENTREC, EXTREC if v > 7 else (501,) + ENTREC[1:]]
    s.update(kw)
    return s


def g_versions(tier):
    for fv in (43, 44):
        for v in range(1, 9):
            for ltype in (None, 0, 1, 2, 3, 4, 6):
                for mask in range(16):
                    for bd in (0, 1, 2):
                        yield (fv, v, ltype, mask, bd)


@PROP.family(g_versions, "file versions 43, 44 x segment versions 1..8 x level types x all subsets of record kinds x with/without/only backdrop")
def versions(ctx, case):
    fv, v, ltype, mask, bd = case
    model = [(-1, 2, [seg(v, mask)] if bd < 2 else [], seg(v, mask & 7, (0, 0)) if bd else None)]
    judge(ctx, model, ltype=ltype, fv=fv, sshot=b"img" if fv > 43 else b"")


def g_large(tier):
    for v in range(1, 9):
        for kind in ("tiles", "props", "ents", "all"):
            for n in (250, 1100) if tier == "quick" else (250, 1100, 5000):
                yield (v, kind, n)


@PROP.family(g_large, "segments of versions 1..8 with full layers of tiles and filth, or up to 1100 (thorough 5000) props or entities, or all of them, in the level and the backdrop, followed by another segment and region")
def large(ctx, case):
    v, kind, n = case
    s = {"v": v, "at": (3, 4)}
    if kind in ("tiles", "all"):
        k = min(n // 250, 20)
        s["tiles"] = [(layer, x, y, TILE) for layer in range(20 - k, 20) for y in range(16) for x in range(16)]
        s["dusts"] = [(x, y, TILE) for y in range(16) for x in range(16)]
    if kind in ("props", "all"):
        s["props"] = [(100 + i, i % 21, 5.0 * (i % 40), -3.0, PROPREC[4], i % 49) for i in range(n)]
    bd = dict(s, v=9 - v, at=(0, 0))
    if kind in ("ents", "all"):
        e = ENTREC[3]
        s["ents"] = [(100 + i, 1.5 * (i % 300), -2.0, (f"z_n{i}" if v > 7 and i % 3 == 0 else e[0],) + e[1:2] + (i % 65536,) + e[3:]) for i in range(n)]
    judge(ctx, [(0, 0, [s, seg(8, 15, at=(9, 9), props=[(99999,) + PROPREC[1:]], ents=[(99999,) + EXTREC[1:]])], None if kind == "ents" else bd), (0, 1, [seg(7, 1)], None)])
    ctx.state(case)


def g_records(tier):
    n = 3 if tier == "quick" else 4
    for place in range(4):
        for r in range(0, n + 1):
            for seq in itertools.product(range(6), repeat=r):
                for v in (8,) if tier == "quick" and r > 2 and place else (1, 6, 7, 8):
                    yield (f"p{v}", place, seq)
            for seq in itertools.product(range(8), repeat=r):
                if r < 3:
                    yield ("e1", place, seq)
                yield ("e7", place, seq)
                yield ("e8", place, seq)


PALPHA = (
    (100, 1, 10.0, 20.0, L.PROPV, 32),
    (100, 2, -900.0, 700.0, L.PROPV[:5] + (9, 9, 9, 9), 40),
    (101, 3, 11.0, 21.0, L.PROPV[:1] + (1,) + L.PROPV[2:], 0),
    (-1, 0, 0.0, 0.0, L.PROPV, 0),
    (-(2**31), 0, 0.0, 0.0, L.PROPV, 0),
    (0, 4, 12.0, 22.0, L.PROPV, 55),
)
E0 = ("S", ())
EALPHA = (
    (500, 1.0, 2.0, ("enemy_bear", E0, 1, 18, False, False, True)),
    (500, -800.0, 2.5, ("z_new", L.VARS, 2, 18, True, True, False)),
    (501, 3.0, 4.0, ("entity", E0, 3, 18, False, False, True)),
    (502, 3.0, 4.0, ("z_string_list", L.VARS, 3, 18, False, False, True)),
    (-1, 0.0, 0.0, None),
    (-7, 0.0, 0.0, None),
    (0, 5.0, 6.0, ("unknown_one", E0, 4, 18, False, False, True)),
    (0, 7.0, 6.0, ("z_zero", L.VARS, 5, 17, False, True, True)),
)


def spread(kind, recs, place, v):
    """All in one segment, one segment each, one region each, split in two."""
    if place == 0:
        return [(0, 0, [{"v": v, "at": (0, 0), kind: recs}], None)]
    if place == 1:
        return [(0, 0, [{"v": v, "at": (i, 15 - i), kind: [r]} for i, r in enumerate(recs)], None)]
    if place == 2:
        return [(i - 1, -i, [{"v": v, "at": (3, 3), kind: [r]}], None) for i, r in enumerate(recs)]
    h = len(recs) // 2
    return [(0, 0, [{"v": v, "at": (2, 2), kind: recs[:h]}, {"v": v, "at": (2, 2), kind: recs[h:]}], None)]


@PROP.family(g_records, "all sequences of up to 3 (thorough 4) prop or entity records over repeated ids, negative ids, ordinary and extended names, in segments of versions 1, 6, 7, 8, in 4 placements over segments and regions")
def records(ctx, case):
    what, place, seq = case
    v = int(what[1])
    if what[0] == "p":
        judge(ctx, spread("props", [PALPHA[i] for i in seq], place, v))
    else:
        judge(ctx, spread("ents", [EALPHA[i] for i in seq], place, v))


MIXED = [(k, i, n) for k in "PEB" for i in (100, 101) for n in (0, 1)]


def g_shared(tier):
    for seq in itertools.product(range(len(MIXED)), repeat=3):
        for place in (0, 1):
            yield (seq, place)


@PROP.family(g_shared, "all sequences of three records out of props, entities and backdrop props over two ids used by all of them, in one region or one each: every kind has ids of its own")
def shared_ids(ctx, case):
    seq, place = case
    model = []
    for j, m in enumerate(seq):
        k, i, n = MIXED[m]
        s = {"v": 8, "at": (j, 1)}
        if k == "E":
            s["ents"] = [(i,) + EALPHA[n][1:]]
        else:
            s["props"] = [(i,) + PALPHA[n][1:]]
        if k == "B":
            s["at"] = (0, 0)
            model.append((j, 1, [], s))
        else:
            model.append((j, 1, [s], None))
    if place and not any(b for _, _, _, b in model):
        model = [(2, 2, [s for _, _, (s,), _ in model], None)]
    judge(ctx, model)


def g_bdrecords(tier):
    for r in range(0, 4):
        for seq in itertools.product(range(6), repeat=r):
            yield seq


@PROP.family(g_bdrecords, "the same prop records in backdrop segments of one or two regions")
def backdrop_records(ctx, case):
    recs = [PALPHA[i] for i in case]
    for v in (8,) if len(recs) > 2 else (1, 6, 7, 8):
        judge(ctx, [(2, -3, [], {"v": v, "at": (0, 0), "props": recs})])
    h = len(recs) // 2
    judge(
        ctx,
        [
            (2, -3, [], {"v": 8, "at": (0, 0), "props": recs[:h]}),
            (2, 3, [{"v": 8, "at": (0, 0), "props": recs}], {"v": 8, "at": (0, 0), "props": recs[h:]}),
        ],
    )


TA = (2, 4, 3, 5, 1, L.EDGES)
TB = (19, 3, 1, 21, 2, L.EDGES[::-1])
TALPHA = ((19, 0, 0, TA), (19, 0, 0, TB), (18, 0, 0, TA), (19, 15, 15, TA), (0, 7, 3, TB), (20, 0, 1, TB))
DALPHA = ((0, 0, TA), (0, 0, TB), (15, 15, TB), (4, 4, TA), (7, 3, TA))


def g_tiles(tier):
    n = 3 if tier == "quick" else 4
    for r in range(0, n + 1):
        for seq in itertools.product(range(len(TALPHA)), repeat=r):
            for split in (0, 1):
                yield ("t", seq, (), split)
    for r in range(0, 3):
        for tseq in itertools.product(range(len(TALPHA)), repeat=2):
            for seq in itertools.product(range(len(DALPHA)), repeat=r):
                yield ("t", tseq, seq, 0)


@PROP.family(g_tiles, "all sequences of tile records (repeated cells, layers given once or repeatedly) and filth records with and without a collision tile, in a level and in a backdrop")
def tiles(ctx, case):
    _, tseq, dseq, split = case
    s = {"v": 8, "at": (5, 6), "tiles": [TALPHA[i] for i in tseq], "split": split}
    if dseq:
        s["dusts"] = [DALPHA[i] for i in dseq]
    judge(ctx, [(-2, 1, [s], None)])
    judge(ctx, [(-2, 1, [], dict(s, at=(0, 0)))])
    if not tseq:
        judge(ctx, [(0, 0, [dict(s, empty_layer=1)], None)])


def g_layout(tier):
    for v in range(1, 9):
        for slack in range(0, 9):
            yield ("slack", v, slack)
    for gap in range(0, 6):
        for mask in (8, 9, 12, 15):
            yield ("gap", gap, mask)
    for level in range(0, 10):
        yield ("zlib", level)
    for width in (0, 1, 16, 255):
        yield ("width", width)
    for perm in itertools.permutations(range(4)):
        yield ("order", perm)
        yield ("regions", perm)
    for t in (0, 1, 255, 65535):
        yield ("totals", t)
    for rv in (0, 1, 13, 14, 65535):
        yield ("rversion", rv)
    for off in (1, 2, 7, 100):
        for trail in (b"", b"x", b"DF_LVL", b"\xff" * 50):
            yield ("stream", off, trail)
    for ti in range(len(L.META_TREES)):
        for n in (0, 1, 2):
            yield ("vars", ti, n)
    for n in range(0, 30):
        yield ("pad", n)
    for s in range(256):
        yield ("segpos", s)
    for rx in (0, 1, -1, 127, -128, 32767, -32768):
        for ry in (0, 1, -1, 255, -256, 32767, -32768):
            yield ("regpos", rx, ry)
    for n in (0, 1, 2, 255, 256, 65536):
        yield ("sshot", n)
    for kind in ("props", "ents"):
        for v in (6, 8):
            for n in (255, 256, 257, 1024, 4097):
                yield ("many", kind, v, n)
    for n in (255, 256, 257, 1000):
        yield ("regcount", n)


@PROP.family(g_layout, "legal layouts: slack in segments, gaps behind extended names, compression levels, orders of segments and regions, every segment position, unused header fields, stream offsets and trailing data, every bit length of the variables")
def layout(ctx, case):
    from dustmaker import DFReader

    kind = case[0]
    full = [(0, 0, [seg(8, 15)], seg(8, 7, (0, 0)))]
    if kind == "slack":
        _, v, slack = case
        for mask in (0, 1, 2, 4, 8 if v < 8 else 5, 7):
            judge(ctx, [(0, 0, [seg(v, mask, slack=slack), seg(v, 1, (3, 3))], None)])
            judge(ctx, [(0, 0, [seg(v, mask, slack=slack)], seg(v, 5, (0, 0)))])
        judge(ctx, [(0, 0, [], seg(v, 7, (0, 0), slack=slack))])
    elif kind == "gap":
        judge(ctx, [(0, 0, [seg(8, case[2], gap=case[1]), seg(8, 1, (3, 3))], seg(8, 5, (0, 0)))])
    elif kind == "zlib":
        judge(ctx, full, level=case[1])
    elif kind == "width":
        judge(ctx, [(0, 0, [seg(8, 15, width=case[1])], None)])
    elif kind == "order":
        segs = [seg(8, m, (i, 9 - i)) for i, m in enumerate((15, 5, 1, 9))]
        judge(ctx, [(0, 0, [segs[i] for i in case[1]], seg(8, 7, (0, 0)))])
    elif kind == "regions":
        regs = [(x, y, [seg(8, m)], None) for x, y, m in ((0, 0, 15), (-1, 3, 5), (2, -2, 1), (0, 1, 9))]
        judge(ctx, [regs[i] for i in case[1]])
    elif kind == "totals":
        t = case[1]
        judge(ctx, [(0, 0, [seg(8, 15, totals=(t, t, t, t), uid=t)], None)])
    elif kind == "rversion":
        judge(ctx, full, version=case[1])
    elif kind == "stream":
        data = enc(full, vars_=L.VARS, sshot=b"abc")
        f = io.BytesIO(b"\x55" * case[1] + data + case[2])
        f.seek(case[1])
        r = DFReader(f)
        ref.diff_levels(ref.snap_level(r.read_level()), meaning(full, vars_=L.VARS, sshot=b"abc"), "level read at offset")
        require(r.bit_tell() == 8 * (case[1] + len(data)), "reader position after the level", r.bit_tell())
        ctx.step()
    elif kind == "vars":
        model = [(i, -i, [seg(8, 15 if i == 0 else 1)], None) for i in range(case[2])]
        judge(ctx, model, vars_=L.META_TREES[case[1]] if case[1] not in (2, 3) else L.VARS)
    elif kind == "pad":
        n = case[1]
        vars_ = ("S", tuple((("a" * (i + 1)), ("b", i % 2 == 0)) for i in range(n)))
        judge(ctx, full, vars_=vars_)
        judge(ctx, full + [(1, 1, [seg(8, 1)], None)], vars_=vars_)
    elif kind == "segpos":
        at = (case[1] % 16, case[1] // 16)
        judge(ctx, [(-1, 0, [seg(8, 3, at)], None)])
    elif kind == "regpos":
        judge(ctx, [(case[1], case[2], [seg(8, 15)], seg(8, 7, (0, 0)))])
    elif kind == "sshot":
        n = case[1]
        judge(ctx, full, sshot=(b"DF_MTD" + bytes(range(256)) * (n // 256 + 1))[:n])
    elif kind == "many":
        _, what, v, n = case
        recs = [((1000 + i,) + PROPREC[1:]) if what == "props" else ((1000 + i,) + ENTREC[1:3] + (("enemy_bear", E0, i & 0xFFFF, 18, False, False, True),)) for i in range(n)]
        judge(ctx, [(0, 0, [{"v": v, "at": (3, 4), what: recs}, seg(v, 1, (7, 7))], None)])
    elif kind == "regcount":
        judge(ctx, [(i % 50 - 25, i // 50, [seg(8, 1)], None) for i in range(case[1])])


def g_mixed(tier):
    for v in range(1, 9):
        for w in range(1, 9):
            for ltype in (None, 0, 6):
                for place in range(4):
                    yield (v, w, ltype, place)


def renum(s, by):
    """The same segment with every id moved up, so that two of them can share a level."""
    s = dict(s)
    if s.get("props"):
        s["props"] = [(r[0] + by,) + r[1:] for r in s["props"]]
    if s.get("ents"):
        s["ents"] = [(r[0] + by,) + r[1:] for r in s["ents"]]
    return s


@PROP.family(g_mixed, "every ordered pair of segment versions in one file: in one region, in two regions, as level and backdrop, as two backdrops")
def mixed(ctx, case):
    v, w, ltype, place = case
    a, b = seg(v, 15, (1, 2)), renum(seg(w, 15, (2, 2)), 50)
    if place == 0:
        model = [(0, 0, [a, b], None)]
    elif place == 1:
        model = [(0, 0, [a], None), (1, -1, [b], None)]
    elif place == 2:
        model = [(0, 0, [a], renum(seg(w, 7, (0, 0)), 50))]
    else:
        model = [(0, 0, [], seg(v, 7, (0, 0))), (1, 0, [a], renum(seg(w, 7, (0, 0)), 50))]
    judge(ctx, model, ltype=ltype)


def g_bytes(tier):
    for i in range(12):
        for v in range(256):
            yield ("tile", i, v)
            yield ("dust", i, v)
    for shape in range(21):
        for fl in range(8):
            yield ("head", shape, fl)


@PROP.family(g_bytes, "every value of every byte of the tile and filth records, every shape and flag value")
def raw_bytes(ctx, case):
    from dustmaker import read_level

    what, i, v = case
    td = bytearray(range(17, 29))
    td[10] = 0x35
    dd = bytearray(b"\x12\x34\x05\xfe\x09\x80\x7f\x81\x01\xff\xa6\x00")
    shape, fl = 4, 3
    if what == "tile":
        if i == 10 and v & 8:
            return
        td[i] = v
    elif what == "dust":
        dd[i] = v
    else:
        shape, fl = i, v
    body = (
        ref.ubits(8, 1) + ref.ubits(8, 19) + ref.ubits(10, 1)
        + ref.ubits(5, 6) + ref.ubits(5, 7) + ref.ubits(5, shape) + ref.ubits(3, fl) + ref.bytes_bits(bytes(td))
        + ref.ubits(10, 1) + ref.ubits(5, 6) + ref.ubits(5, 7) + ref.bytes_bits(bytes(dd))
    )
    hdr = 32 + 16 + 24 + 64 + 32 + 32
    body += "0" * (-(hdr + len(body)) % 8)
    raw = (
        ref.ubits(32, (hdr + len(body)) // 8) + ref.ubits(16, 8) + ref.ubits(24, 0x100000)
        + ref.ubits(64, 0) + ref.ubits(32, 0) + ref.ubits(32, 3) + body
    )
    data = ref.enc_level(44, ("S", ()), b"", [ref.enc_region(0, 0, [ref.bits_bytes(raw)])])
    lv = read_level(data)
    ctx.step()
    ctx.state(data)
    want = ref.empty_level()
    want["tiles"][(19, 6, 7)] = ref.apply_dust_data(ref.dec_tile_data(shape, fl, bytes(td)), bytes(dd))
    ref.diff_levels(ref.snap_level(lv), want, "level read")


def g_numbers(tier):
    for xk in range(16):
        for yk in range(16):
            yield ("scale", xk, yk)
    for s in (0, 1):
        for ip in (0, 1, 2, 47, 48, 767, 768, 65535, 65536, 2**26, 2**27 - 1):
            for fp in range(16):
                yield ("old", s, ip, fp)
            yield ("new", s, ip, 0)
    for s in (0, 1):
        for ip in (0, 1, 47, 48, 12288, 2**20, 2**31 - 1):
            for fp in (0, 1, 2, 63, 64, 127, 128, 129, 255):
                yield ("ent", s, ip, fp)
    for m in range(8):
        yield ("flags", m, 0, 0)
    for name in ("layer", "sub", "rot", "set", "group", "index", "pal"):
        bits = {"rot": 16, "group": 12, "index": 12}.get(name, 8)
        for v in sorted({0, 1, 2, 3, 127, 128, 255, (1 << bits) - 1, (1 << bits) // 2, (1 << bits) // 2 - 1}):
            yield ("pf", name, v, 0)


@PROP.family(g_numbers, "every prop scale nibble pair, old and new coordinate encodings with every fraction, entity coordinates, flags and field limits, as raw fields")
def numbers(ctx, case):
    from dustmaker import read_level

    kind, a, b = case[0], case[1], case[2]
    want = ref.empty_level()
    if kind in ("scale", "new", "old", "pf"):
        f = {"layer": 5, "sub": 6, "rot": 7, "set": 8, "group": 9, "index": 10, "pal": 11}
        version = 8
        xs, xi, xk = 0, 100, 0
        ys, yi, yk = 1, 200, 4
        if kind == "scale":
            xk, yk = a, b
        elif kind == "new":
            xs, xi = a, b
            ys, yi = 1 - a, b
        elif kind == "pf":
            f[a] = b
        else:
            version = 6
        k = (xk & 7 ^ 4) * 7 + (yk & 7 ^ 4)
        scale = ref.scale_step(k)
        if kind == "old":
            scale = 1.0
            fp = case[3]
            pos = ref.ubits(1, a) + ref.ubits(27, b) + ref.ubits(4, fp) + ref.ubits(1, 1 - a) + ref.ubits(27, b) + ref.ubits(4, 15 - fp)
            x = float(ref.dec_float(28, 4, a, b, fp))
            y = float(ref.dec_float(28, 4, 1 - a, b, 15 - fp))
        else:
            pos = ref.ubits(1, xs) + ref.ubits(27, xi) + ref.ubits(4, xk) + ref.ubits(1, ys) + ref.ubits(27, yi) + ref.ubits(4, yk)
            x, y = float(-xi if xs else xi), float(-yi if ys else yi)
        rec = (
            ref.ubits(32, 123) + ref.ubits(8, f["layer"]) + ref.ubits(8, f["sub"]) + pos + ref.ubits(16, f["rot"])
            + "10" + ref.ubits(8, f["set"]) + ref.ubits(12, f["group"]) + ref.ubits(12, f["index"]) + ref.ubits(8, f["pal"])
        )
        sg = ref.enc_segment(version, 0, 0, props=[rec])
        want["props"][123] = (f["layer"], x, y, (f["sub"], f["rot"], True, False, scale, f["set"], f["group"], f["index"], f["pal"]))
    else:
        fp = case[3]
        m = a if kind == "flags" else 5
        if kind == "ent":
            x = float(ref.dec_float(32, 8, a, b, fp))
            y = float(ref.dec_float(32, 8, 1 - a, b, 255 - fp))
            pos = ref.ubits(1, a) + ref.ubits(31, b) + ref.ubits(8, fp) + ref.ubits(1, 1 - a) + ref.ubits(31, b) + ref.ubits(8, 255 - fp)
        else:
            x = y = 0.0
            pos = "0" * 80
        rec = ref.ubits(32, 123) + ref.enc_str6("enemy_key") + pos + ref.ubits(16, 0x8001) + ref.ubits(8, 200) + ref.ubits(3, m) + "0000"
        sg = ref.enc_segment(8, 0, 0, ents=[(rec, None)])
        want["ents"][123] = (x, y, ("enemy_key", ("S", ()), 0x8001, 200, not m & 1, not m & 2, bool(m & 4)))
    data = ref.enc_level(44, ("S", ()), b"", [ref.enc_region(0, 0, [sg])])
    lv = read_level(data)
    ctx.step()
    ctx.state(data)
    ref.diff_levels(ref.snap_level(lv), want, "level read")


def g_refuse(tier):
    for v in range(0, 43):
        yield ("version", v, 0)
    for i in range(6):
        for b in range(256):
            yield ("magic", i, b)
            yield ("meta", i, b)


@PROP.family(g_refuse, "every unsupported file version and every one-byte change of both magics is refused")
def refuse(ctx, case):
    from dustmaker import read_level
    from dustmaker.exceptions import LevelParseException

    what, a, b = case
    data = bytearray(enc([(0, 0, [seg(8, 15)], None)], vars_=L.VARS))
    if what == "version":
        data[6:8] = a.to_bytes(2, "little")
    else:
        at = a if what == "magic" else 16 + a
        if data[at] == b:
            return
        data[at] = b
    raises(LevelParseException, read_level, bytes(data))
    ctx.step()
    ctx.state(case)
