"""Reference model of the Dustforce formats.

Independent of /repo: bit strings are Python strings of '0'/'1' in stream order
(least significant bit of every byte first), trees and levels are plain tuples and
dicts.  Only the functions at the end (build_* / snap_*) touch the code under test,
through its public API.
"""
import zlib
from fractions import Fraction

# --------------------------------------------------------------------------- bits


def ubits(n, v):
    """n-bit field holding v (two's complement if negative), stream order."""
    if n == 0:
        return ""
    assert -(1 << (n - 1)) <= v < (1 << n), (n, v)
    return format(v & ((1 << n) - 1), f"0{n}b")[::-1]


def bytes_bits(b):
    if not b:
        return ""
    return format(int.from_bytes(b, "little"), f"0{8 * len(b)}b")[::-1]


def bits_bytes(s):
    """Pad with zero bits to a byte boundary."""
    n = (len(s) + 7) // 8
    if n == 0:
        return b""
    return int(s[::-1], 2).to_bytes(n, "little")


def bits_int(s, signed=False):
    if not s:
        return 0
    v = int(s[::-1], 2)
    if signed and s[-1] == "1":
        v -= 1 << len(s)
    return v


class FormatError(Exception):
    """The bytes are not a well-formed file."""


class Bits:
    """Strict cursor over a bit string."""

    def __init__(self, data):
        self.s = data if isinstance(data, str) else bytes_bits(data)
        self.p = 0

    def raw(self, n):
        if self.p + n > len(self.s):
            raise FormatError("out of data")
        r = self.s[self.p : self.p + n]
        self.p += n
        return r

    def u(self, n):
        return bits_int(self.raw(n))

    def i(self, n):
        return bits_int(self.raw(n), True)

    def by(self, n):
        return bits_bytes(self.raw(8 * n))

    def align(self, zero=True):
        pad = self.raw(-self.p % 8)
        if zero and "1" in pad:
            raise FormatError("non-zero padding")


# ------------------------------------------------------------- numbers and strings

ALPHABET = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
assert len(ALPHABET) == 64


def enc_float(ibits, fbits, val):
    """sign bit, ibits-1 bits |floor(val)|, fbits bits of the fraction in units of
    2**-(fbits-1)  (value = sign * int + frac, the fraction always counts up)."""
    val = Fraction(val)
    fl = val.numerator // val.denominator
    frac = (val - fl) * (1 << (fbits - 1))
    fr = frac.numerator // frac.denominator
    return ubits(1, 1 if val < 0 else 0) + ubits(ibits - 1, abs(fl)) + ubits(fbits, fr)


def dec_float(ibits, fbits, sign, ip, fp):
    return (-ip if sign else ip) + Fraction(fp, 1 << (fbits - 1))


def take_float(b, ibits, fbits):
    s = b.u(1)
    ip = b.u(ibits - 1)
    fp = b.u(fbits)
    return float(dec_float(ibits, fbits, s, ip, fp))


def quant(fbits, val):
    """The representable number that the format stores for val."""
    f = Fraction(val) * (1 << (fbits - 1))
    return float(Fraction(f.numerator // f.denominator, 1 << (fbits - 1)))


def enc_str6(text):
    assert len(text) < 64
    return ubits(6, len(text)) + "".join(ubits(6, ALPHABET.index(c)) for c in text)


def take_str6(b):
    n = b.u(6)
    return "".join(ALPHABET[b.u(6)] for _ in range(n))


# ----------------------------------------------------------------------- variables
# tree := ("b", bool) ("i", int) ("u", int) ("f", float) ("s", bytes) ("v", (f, f))
#         ("S", ((key, tree), ...)) ("A", elemkind, (tree, ...))

VT = {"b": 1, "i": 2, "u": 3, "f": 4, "s": 5, "v": 10, "S": 14, "A": 15}
VT_REV = {v: k for k, v in VT.items()}
MAXW = 65535


def split_string(s):
    """Continuation pieces: full pieces of 65535 bytes and one shorter last piece."""
    return [s[i * MAXW : (i + 1) * MAXW] for i in range(1 + len(s) // MAXW)]


def enc_var(t):
    k = t[0]
    if k == "b":
        return ubits(1, int(t[1]))
    if k in "iu":
        return ubits(32, t[1])
    if k == "f":
        return enc_float(32, 32, t[1])
    if k == "v":
        return enc_float(32, 32, t[1][0]) + enc_float(32, 32, t[1][1])
    if k == "s":
        assert len(t[1]) <= MAXW
        return ubits(16, len(t[1])) + bytes_bits(t[1])
    if k == "A":
        if t[1] == "s":
            pieces = [p for e in t[2] for p in split_string(e[1])]
            body = "".join(enc_var(("s", p)) for p in pieces)
            n = len(pieces)
        else:
            body = "".join(enc_var(e) for e in t[2])
            n = len(t[2])
        return ubits(4, VT[t[1]]) + ubits(16, n) + body
    assert k == "S"
    out = []
    for key, e in t[1]:
        pre = ubits(4, VT[e[0]]) + enc_str6(key)
        if e[0] == "s":
            for p in split_string(e[1]):
                out.append(pre + enc_var(("s", p)))
        else:
            out.append(pre + enc_var(e))
    out.append("0000")
    return "".join(out)


def take_var(b, k):
    if k == "b":
        return ("b", b.u(1) == 1)
    if k == "i":
        return ("i", b.i(32))
    if k == "u":
        return ("u", b.u(32))
    if k == "f":
        return ("f", take_float(b, 32, 32))
    if k == "v":
        return ("v", (take_float(b, 32, 32), take_float(b, 32, 32)))
    if k == "s":
        return ("s", b.by(b.u(16)))
    if k == "A":
        vt = b.u(4)
        if vt not in VT_REV:
            raise FormatError("bad array type")
        ek = VT_REV[vt]
        n = b.u(16)
        elems = []
        if ek != "s":
            elems = [take_var(b, ek) for _ in range(n)]
        else:
            cur = None
            for _ in range(n):
                piece = take_var(b, "s")[1]
                cur = piece if cur is None else cur + piece
                if len(piece) < MAXW:
                    elems.append(("s", cur))
                    cur = None
            if cur is not None:
                raise FormatError("dangling continuation")
        return ("A", ek, tuple(elems))
    out = []
    while True:
        vt = b.u(4)
        if vt == 0:
            break
        if vt not in VT_REV:
            raise FormatError("bad variable type")
        key = take_str6(b)
        e = take_var(b, VT_REV[vt])
        if e[0] == "s":
            piece = e[1]
            val = piece
            while len(piece) == MAXW:
                if b.u(4) != VT["s"] or take_str6(b) != key:
                    raise FormatError("bad string continuation")
                piece = take_var(b, "s")[1]
                val += piece
            e = ("s", val)
        out.append((key, e))
    return ("S", tuple(out))


# ---------------------------------------------------------------------------- tiles
# edge := (solid, visible, (cap, cap), (ang, ang), fset, fspike, (fcap, fcap), (fang, fang))
# tile := (shape, flags, set, tile, palette, (edge * 4))      sides: top bottom left right

BLANK_EDGE = (False, False, (False, False), (0, 0), 0, False, (False, False), (0, 0))
SWAPPED = (1, 2)  # bottom and left are stored with their corners exchanged


def swp(side, pair):
    return pair[::-1] if side in SWAPPED else pair


def enc_tile_data(t):
    d = [0] * 12
    for side, e in enumerate(t[5]):
        d[0] |= (int(e[0]) << side) | (int(e[1]) << (4 + side))
        c = swp(side, e[2])
        d[1] |= (int(c[0]) << (2 * side)) | (int(c[1]) << (2 * side + 1))
        a = swp(side, e[3])
        d[2 + 2 * side] = a[0] & 255
        d[3 + 2 * side] = a[1] & 255
    d[10] = t[2] | (t[4] << 4)
    d[11] = t[3]
    return bytes(d)


def s8(v):
    return v - 256 if v >= 128 else v


def dec_tile_data(shape, flags, d):
    edges = []
    for side in range(4):
        edges.append(
            (
                bool(d[0] >> side & 1),
                bool(d[0] >> (4 + side) & 1),
                swp(side, (bool(d[1] >> (2 * side) & 1), bool(d[1] >> (2 * side + 1) & 1))),
                swp(side, (s8(d[2 + 2 * side]), s8(d[3 + 2 * side]))),
            )
            + BLANK_EDGE[4:]
        )
    return (shape, flags, d[10] & 15, d[11], d[10] >> 4, tuple(edges))


def enc_dust_data(t):
    d = [0] * 12
    for side, e in enumerate(t[5]):
        d[side >> 1] |= (e[4] | (8 if e[5] else 0)) << (4 * (side & 1))
        c = swp(side, e[6])
        d[10] |= (int(c[0]) << (2 * side)) | (int(c[1]) << (2 * side + 1))
        a = swp(side, e[7])
        d[2 + 2 * side] = a[0] & 255
        d[3 + 2 * side] = a[1] & 255
    return bytes(d)


def apply_dust_data(t, d):
    edges = []
    for side, e in enumerate(t[5]):
        nib = d[side >> 1] >> (4 * (side & 1)) & 15
        edges.append(
            e[:4]
            + (
                nib & 7,
                bool(nib & 8),
                swp(side, (bool(d[10] >> (2 * side) & 1), bool(d[10] >> (2 * side + 1) & 1))),
                swp(side, (s8(d[2 + 2 * side]), s8(d[3 + 2 * side]))),
            )
        )
    return t[:5] + (tuple(edges),)


def has_filth(t):
    return any(e[4] for e in t[5])


DUSTBLOCK = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}


# --------------------------------------------------------------------------- levels
# prop   := (layer_sub, rotation, flip_x, flip_y, scale, set, group, index, palette)
# entity := (etype, vars_tree, rotation, layer, flip_x, flip_y, visible)
# level  := {"vars": tree "S", "sshot": bytes, "tiles": {(l,x,y): tile},
#            "props": {id: (layer, x, y, prop)}, "ents": {id: (x, y, entity)},
#            "bd_tiles": ..., "bd_props": ...}

LEVEL_KEYS = ("vars", "sshot", "tiles", "props", "ents", "bd_tiles", "bd_props")


def empty_level():
    return {
        "vars": ("S", ()),
        "sshot": b"",
        "tiles": {},
        "props": {},
        "ents": {},
        "bd_tiles": {},
        "bd_props": {},
    }


def scale_step(k):
    """Scale of step k = 0..55 (7 * xs + ys)."""
    return pow(50.0, (k - 32) / 24.0)


FILTH = {
    "enemy_tutorial_square": 1,
    "enemy_tutorial_hexagon": 1,
    "enemy_slime_beast": 9,
    "enemy_slime_barrel": 3,
    "enemy_spring_ball": 5,
    "enemy_slime_ball": 3,
    "enemy_trash_tire": 3,
    "enemy_trash_beast": 9,
    "enemy_trash_can": 9,
    "enemy_trash_ball": 3,
    "enemy_bear": 9,
    "enemy_stoneboss": 12,
    "enemy_stonebro": 3,
    "enemy_porcupine": 1,
    "enemy_wolf": 5,
    "enemy_critter": 3,
    "enemy_flag": 5,
    "enemy_scrolls": 1,
    "enemy_treasure": 1,
    "enemy_chest_treasure": 9,
    "enemy_chest_scrolls": 9,
    "enemy_butler": 1,
    "enemy_maid": 1,
    "enemy_knight": 9,
    "enemy_gargoyle_big": 5,
    "enemy_gargoyle_small": 3,
    "enemy_book": 3,
    "enemy_hawk": 3,
    "enemy_key": 1,
    "enemy_door": 0,
}


def take_segment(b):
    """Strict decode of one (byte aligned) segment; returns a dict."""
    start = b.p
    if start % 8:
        raise FormatError("segment not aligned")
    size = b.u(32)
    version = b.u(16)
    sx, sy = b.u(8), b.u(8)
    width = b.u(8)
    seg = {"version": version, "sx": sx, "sy": sy, "width": width, "size": size}
    if version > 4:
        seg["uid"] = b.u(32)
        seg["dust"] = b.u(16)
        seg["enemy"] = b.u(16)
    if version > 5:
        seg["surface"] = b.u(16)
        seg["dustblock"] = b.u(16)
    flags = b.u(32)
    seg["flags"] = flags
    tiles, dusts, props, ents = [], [], [], []
    if flags & ~15:
        raise FormatError("unknown segment flags")
    if flags & 1:
        for _ in range(b.u(8)):
            layer = b.u(8)
            n = b.u(10)
            if n == 0:
                raise FormatError("empty tile layer")
            for _ in range(n):
                x, y, shape, tf = b.u(5), b.u(5), b.u(5), b.u(3)
                if x > 15 or y > 15:
                    raise FormatError("tile outside of segment")
                tiles.append((layer, x, y, shape, tf, b.by(12)))
        if not tiles:
            raise FormatError("tile flag without tiles")
    if flags & 2:
        for _ in range(b.u(10)):
            x, y = b.u(5), b.u(5)
            if x > 15 or y > 15:
                raise FormatError("dust outside of segment")
            dusts.append((x, y, b.by(12)))
        if not dusts:
            raise FormatError("dust flag without dust")
    if flags & 8:
        for _ in range(b.u(16)):
            pid, layer, sub = b.i(32), b.u(8), b.u(8)
            xs, xi, xk = b.u(1), b.u(27), b.u(4)
            ys, yi, yk = b.u(1), b.u(27), b.u(4)
            rot, fx, fy = b.u(16), b.u(1), b.u(1)
            pset, grp, ind, pal = b.u(8), b.u(12), b.u(12), b.u(8)
            k = (xk & 7 ^ 4) * 7 + (yk & 7 ^ 4)
            props.append(
                (
                    pid,
                    layer,
                    float(-xi if xs else xi),
                    float(-yi if ys else yi),
                    (sub, rot, fx == 1, fy == 1, k, pset, grp, ind, pal),
                )
            )
        if not props:
            raise FormatError("prop flag without props")
    if flags & 4:
        n = b.u(16)
        for _ in range(n):
            eid = b.i(32)
            etype = take_str6(b)
            x, y = take_float(b, 32, 8), take_float(b, 32, 8)
            rot, layer = b.u(16), b.u(8)
            fx, fy, vis = b.u(1), b.u(1), b.u(1)
            var = take_var(b, "S")
            ents.append([eid, etype, x, y, var, rot, layer, fx == 0, fy == 0, vis == 1])
        if not ents:
            raise FormatError("entity flag without entities")
        after_ents = b.p
        if version > 7:
            end = start + 8 * size
            tail = Bits(b.s)
            tail.p = end - 32
            namebits = tail.u(32)
            names = Bits(b.s)
            names.p = end - 32 - namebits
            if names.p < after_ents:
                raise FormatError("extended names overlap the entity records")
            for e in ents:
                if e[1] == "entity":
                    e[1] = take_str6(names)
            if names.p > end - 32:
                raise FormatError("extended names too long")
            if end - 32 - names.p >= 16:
                raise FormatError("extended names size field inconsistent")
            b.p = end
    if b.p > start + 8 * size:
        raise FormatError("segment longer than its size field")
    if start + 8 * size - b.p >= 8:
        raise FormatError("segment shorter than its size field")
    b.align()
    seg.update(tiles=tiles, dusts=dusts, props=props, ents=[tuple(e) for e in ents])
    return seg


def decode_level(data):
    """Strict decoder of a complete level file as the current format version stores
    it.  Returns (level, info); raises FormatError on any inconsistency."""
    b = Bits(data)
    if b.by(6) != b"DF_LVL":
        raise FormatError("magic")
    version = b.u(16)
    if version != 44:
        raise FormatError("level version")
    if b.u(32) != len(data):
        raise FormatError("file size field")
    nreg = b.u(32)
    if b.by(6) != b"DF_MTD":
        raise FormatError("metadata magic")
    mver, _off, ent_uid, prop_uid = b.u(16), b.u(32), b.u(32), b.u(32)
    b.u(32)
    b.u(32)
    sshot = b.by(b.u(32))
    vars_ = take_var(b, "S")
    offs = [b.u(32) for _ in range(nreg)]
    b.align()
    base = b.p // 8
    lvl = {
        "vars": vars_,
        "sshot": sshot,
        "tiles": {},
        "props": {},
        "ents": {},
        "bd_tiles": {},
        "bd_props": {},
    }
    info = {"next": (ent_uid, prop_uid), "mver": mver, "regions": [], "offsets": offs}
    pos = base
    place = {}
    for ri in range(nreg):
        if offs[ri] != pos - base:
            raise FormatError(f"region offset {ri}: {offs[ri]} != {pos - base}")
        r = Bits(bytes_bits(data[pos : pos + 17]))
        rlen, ulen, rx, ry, rver, nseg, hasbd = (
            r.u(32), r.u(32), r.i(16), r.i(16), r.u(16), r.u(16), r.u(8),
        )
        if rver != 14:
            raise FormatError("region version")
        if pos + rlen > len(data):
            raise FormatError("region length")
        raw = zlib.decompress(data[pos + 17 : pos + rlen])
        if len(raw) != ulen:
            raise FormatError("uncompressed length")
        pos += rlen
        s = Bits(raw)
        segs = []
        for _ in range(nseg):
            segs.append((take_segment(s), False))
        if hasbd not in (0, 1):
            raise FormatError("backdrop flag")
        if hasbd:
            segs.append((take_segment(s), True))
        if s.p != len(s.s):
            raise FormatError("trailing data in region")
        if not segs:
            raise FormatError("empty region")
        info["regions"].append((rx, ry, segs))
        seen = set()
        for seg, bd in segs:
            key = (seg["sx"], seg["sy"])
            if not bd:
                if key in seen or max(key) > 15:
                    raise FormatError("segment repeated or out of range")
                seen.add(key)
            elif key != (0, 0):
                raise FormatError("backdrop segment position")
            if seg["version"] != 8 or seg["width"] != 16:
                raise FormatError("segment version or width")
            if seg["flags"] == 0:
                raise FormatError("empty segment")
            merge_segment(lvl, seg, bd, rx, ry, place)
    if pos != len(data):
        raise FormatError("trailing data")
    keys = [(rx % 65536, ry % 65536) for rx, ry, _ in info["regions"]]
    if keys != sorted(set(keys)):
        raise FormatError("region order")
    info["place"] = place
    return lvl, info


def merge_segment(lvl, seg, bd, rx, ry, place):
    """Add the records of a decoded segment to lvl; duplicates are a FormatError."""
    mul = 16 if bd else 256
    ox, oy = rx * mul + seg["sx"] * 16, ry * mul + seg["sy"] * 16
    tiles = lvl["bd_tiles" if bd else "tiles"]
    mine = {}
    for layer, x, y, shape, tf, d in seg["tiles"]:
        key = (layer, ox + x, oy + y)
        if key in tiles:
            raise FormatError(f"tile {key} twice")
        tiles[key] = dec_tile_data(shape, tf, d)
        mine[key] = True
    seen = set()
    for x, y, d in seg["dusts"]:
        key = (19, ox + x, oy + y)
        if key not in mine or key in seen:
            raise FormatError(f"dust {key} without tile or twice")
        seen.add(key)
        tiles[key] = apply_dust_data(tiles[key], d)
    props = lvl["bd_props" if bd else "props"]
    for pid, layer, x, y, p in seg["props"]:
        if pid in props:
            raise FormatError("prop id twice")
        props[pid] = (layer, x, y, p[:4] + (scale_step(p[4]),) + p[5:])
        place[("bp" if bd else "p", pid)] = (rx, ry, seg["sx"], seg["sy"])
    for eid, etype, x, y, var, rot, layer, fx, fy, vis in seg["ents"]:
        if bd:
            raise FormatError("entity in backdrop")
        if eid in lvl["ents"]:
            raise FormatError("entity id twice")
        lvl["ents"][eid] = (x, y, (etype, var, rot, layer, fx, fy, vis))
        place[("e", eid)] = (rx, ry, seg["sx"], seg["sy"])
    if not bd:
        dust = sum(
            1 for k in mine if k[0] == 19 for e in tiles[k][5] if e[4] and not e[5]
        )
        block = sum(
            1
            for k in mine
            if k[0] == 19 and DUSTBLOCK.get(tiles[k][2], -1) == tiles[k][3]
        )
        enemy = sum(FILTH.get(e[1], 0) for e in seg["ents"])
        if (seg["dust"], seg["dustblock"], seg["enemy"]) != (dust, block, enemy):
            raise FormatError(
                f"filth totals dust/dustblock/enemy {(seg['dust'], seg['dustblock'], seg['enemy'])}"
                f" != {(dust, block, enemy)}"
            )


# ------------------------------------------------------------------- level encoder


def enc_prop_new(pid, layer, x, y, p, k):
    xi, yi = int(abs(x)), int(abs(y))
    return (
        ubits(32, pid) + ubits(8, layer) + ubits(8, p[0])
        + ubits(1, int(x < 0)) + ubits(27, xi) + ubits(4, (k // 7) ^ 4)
        + ubits(1, int(y < 0)) + ubits(27, yi) + ubits(4, (k % 7) ^ 4)
        + ubits(16, p[1]) + ubits(1, int(p[2])) + ubits(1, int(p[3]))
        + ubits(8, p[5]) + ubits(12, p[6]) + ubits(12, p[7]) + ubits(8, p[8])
    )


def enc_prop_old(pid, layer, x, y, p):
    return (
        ubits(32, pid) + ubits(8, layer) + ubits(8, p[0])
        + enc_float(28, 4, x) + enc_float(28, 4, y)
        + ubits(16, p[1]) + ubits(1, int(p[2])) + ubits(1, int(p[3]))
        + ubits(8, p[5]) + ubits(12, p[6]) + ubits(12, p[7]) + ubits(8, p[8])
    )


def enc_entity(eid, x, y, e, name):
    etype, var, rot, layer, fx, fy, vis = e
    return (
        ubits(32, eid) + enc_str6(name)
        + enc_float(32, 8, x) + enc_float(32, 8, y)
        + ubits(16, rot) + ubits(8, layer)
        + ubits(1, int(not fx)) + ubits(1, int(not fy)) + ubits(1, int(vis))
        + enc_var(var)
    )


def enc_segment(version, sx, sy, layers=None, dusts=None, props=None, ents=None, *,
                slack=0, width=16, names_gap=0, totals=(0, 0, 0, 0), uid=0):
    """layers: list of (layer, [(x, y, tile)]); dusts: [(x, y, data12)];
    props: list of encoded bit strings; ents: list of (bits, ext name or None).
    None leaves the flag clear, an empty list sets it with a zero count."""
    flags = 0
    body = ""
    if layers is not None:
        flags |= 1
        body += ubits(8, len(layers))
        for layer, tl in layers:
            body += ubits(8, layer) + ubits(10, len(tl))
            for x, y, t in tl:
                body += ubits(5, x) + ubits(5, y) + ubits(5, t[0]) + ubits(3, t[1])
                body += bytes_bits(enc_tile_data(t))
    if dusts is not None:
        flags |= 2
        body += ubits(10, len(dusts))
        for x, y, d in dusts:
            body += ubits(5, x) + ubits(5, y) + bytes_bits(d)
    if props is not None:
        flags |= 8
        body += ubits(16, len(props)) + "".join(props)
    if ents is not None:
        flags |= 4
        body += ubits(16, len(ents)) + "".join(b for b, _ in ents)
    hdr_len = 32 + 16 + 24 + (64 if version > 4 else 0) + (32 if version > 5 else 0) + 32
    if ents is not None and version > 7:
        names = "".join(enc_str6(n) for _, n in ents if n is not None)
        names = names + "0" * (-len(names) % 8)
        start = hdr_len + len(body)
        body += names
        body += "0" * (-(hdr_len + len(body)) % 8)
        body += "0" * (8 * names_gap)
        body += ubits(32, hdr_len + len(body) - start)
    else:
        body += "0" * (-(hdr_len + len(body)) % 8)
        body += "0" * (8 * slack)
    size = (hdr_len + len(body)) // 8
    hdr = ubits(32, size) + ubits(16, version) + ubits(8, sx) + ubits(8, sy) + ubits(8, width)
    if version > 4:
        hdr += ubits(32, uid) + ubits(16, totals[0]) + ubits(16, totals[1])
    if version > 5:
        hdr += ubits(16, totals[2]) + ubits(16, totals[3])
    hdr += ubits(32, flags)
    assert len(hdr) == hdr_len
    return bits_bytes(hdr + body)


def enc_region(rx, ry, segments, backdrop=None, *, version=14, level=6):
    raw = b"".join(segments) + (backdrop or b"")
    comp = zlib.compress(raw, level)
    return (
        bits_bytes(
            ubits(32, 17 + len(comp)) + ubits(32, len(raw)) + ubits(16, rx) + ubits(16, ry)
            + ubits(16, version) + ubits(16, len(segments)) + ubits(8, 1 if backdrop else 0)
        )
        + comp
    )


def enc_level(version, vars_, sshot, regions, *, next_id=1000, mver=4):
    """regions: list of encoded region byte strings."""
    offs, pos = [], 0
    for r in regions:
        offs.append(pos)
        pos += len(r)
    tail = enc_var(vars_) + "".join(ubits(32, o) for o in offs)
    tail = bits_bytes(tail)
    mid = b"DF_MTD" + bits_bytes(
        ubits(16, mver) + ubits(32, 0) + ubits(32, next_id) + ubits(32, 0) + ubits(32, 0) + ubits(32, 0)
    )
    if version > 43:
        mid += len(sshot).to_bytes(4, "little") + sshot
    total = 6 + 2 + 4 + 4 + len(mid) + len(tail) + pos
    return (
        b"DF_LVL" + version.to_bytes(2, "little") + total.to_bytes(4, "little")
        + len(regions).to_bytes(4, "little") + mid + tail + b"".join(regions)
    )


# -------------------------------------------------------------------------- replays
# replay := {"version", "user", "level", "frames", "players": [(char, {intent: [values]})],
#            "ents": [(id, [(frame, x10, y10, xs100, ys100)])]}   values as stored bits

INTENTS = (  # bits, first version, neutral (stored)
    (2, 1), (2, 1), (2, 1), (2, 1), (2, 1), (4, 1), (4, 1), (4, 3), (16, 4), (16, 4), (8, 4),
)


def neutral(intent):
    """Stored value of the neutral intent (x and y are stored plus one)."""
    return 1 if intent < 2 else 0


def enc_runs(intent, runs):
    """runs: list of counts/values: [(count0)], then (value, count) with counts 1..255;
    the first count (of the neutral value) is 0..254."""
    bits = INTENTS[intent][0]
    out = ubits(8, runs[0])
    for value, count in runs[1:]:
        out += ubits(bits, value) + ubits(8, count - 1)
    return out


def enc_stream(intent, runs, last, pad=0):
    """Whole stream with its length: runs, a value, the 0xFF terminator, padding."""
    body = enc_runs(intent, runs) + ubits(INTENTS[intent][0], last) + ubits(8, 255)
    by = bits_bytes(body) + b"\0" * pad
    return len(by).to_bytes(4, "little") + by


def expand(intent, runs):
    vals = [neutral(intent)] * runs[0]
    for value, count in runs[1:]:
        vals += [value] * count
    return vals


def trim(intent, vals):
    vals = list(vals)
    while vals and vals[-1] == neutral(intent):
        vals.pop()
    return vals


def enc_replay(version, user, level, frames, players, ents, *, level6=6, cut=None):
    """players: list of (character, [stream bytes per intent of this version])."""
    body = b"".join(s for _, streams in players for s in streams)
    body = len(body).to_bytes(4, "little") + body
    body += len(ents).to_bytes(4, "little")
    for n, (eid, frs) in enumerate(ents):
        body += eid.to_bytes(4, "little") + n.to_bytes(4, "little") + len(frs).to_bytes(4, "little")
        for f in frs:
            body += bits_bytes("".join(ubits(32, v) for v in f))
    out = b""
    if user is not None:
        out += b"DF_RPL2" + len(user).to_bytes(2, "little") + user
    out += b"DF_RPL" + bytes([48 + version])
    out += len(players).to_bytes(2, "little") + len(body).to_bytes(4, "little")
    out += frames.to_bytes(4, "little")
    out += bytes(c for c, _ in players)
    out += bytes([len(level)]) + level
    return out + zlib.compress(body, level6)


def decode_replay(data, *, allow_trailing=False):
    """Strict decoder; returns (replay dict with stored values, bytes consumed)."""
    p = 0

    def take(n):
        nonlocal p
        if p + n > len(data):
            raise FormatError("out of data")
        p += n
        return data[p - n : p]

    def num(n):
        return int.from_bytes(take(n), "little")

    user = None
    if take(6) != b"DF_RPL":
        raise FormatError("magic")
    ver = num(1) - 48
    if ver == 2:
        user = take(num(2))
        if take(6) != b"DF_RPL":
            raise FormatError("magic")
        ver = num(1) - 48
    if ver not in (1, 3, 4):
        raise FormatError("version")
    npl = num(2)
    usize = num(4)
    frames = num(4)
    chars = list(take(npl))
    level = take(num(1))
    d = zlib.decompressobj()
    raw = d.decompress(data[p:])
    if not d.eof:
        raise FormatError("compressed data incomplete")
    if d.unused_data and not allow_trailing:
        raise FormatError("trailing data")
    used = len(data) - len(d.unused_data)
    if len(raw) != usize:
        raise FormatError("uncompressed size field")
    b = Bits(raw)
    ilen = b.u(32)
    istart = b.p
    players = []
    for pl in range(npl):
        streams = {}
        for intent, (bits, minver) in enumerate(INTENTS):
            if ver < minver:
                continue
            slen = b.u(32)
            sstart = b.p
            vals = []
            state = neutral(intent)
            first = True
            while True:
                c = b.u(8)
                if c == 255:
                    break
                vals += [state] * (c if first else c + 1)
                first = False
                state = b.u(bits)
            b.align()
            if b.p - sstart != 8 * slen:
                raise FormatError("intent stream length")
            streams[intent] = vals
        players.append((chars[pl], streams))
    if b.p - istart != 8 * ilen:
        raise FormatError("input section length")
    ents = []
    for n in range(b.u(32)):
        eid, ruid, nf = b.u(32), b.u(32), b.u(32)
        if ruid != n:
            raise FormatError("replay uid")
        ents.append((eid, [(b.u(32), b.i(32), b.i(32), b.i(32), b.i(32)) for _ in range(nf)]))
    if b.p != len(b.s):
        raise FormatError("trailing bytes in body")
    return {
        "version": ver, "user": user, "level": level, "frames": frames,
        "players": players, "ents": ents,
    }, used


# ------------------------------------------------- bridge to the code under test (API)


def _classes():
    from dustmaker import variable as V

    return {
        "b": V.VariableBool, "i": V.VariableInt, "u": V.VariableUInt, "f": V.VariableFloat,
        "s": V.VariableString, "v": V.VariableVec2, "S": V.VariableStruct, "A": V.VariableArray,
    }


def build_var(t):
    c = _classes()
    k = t[0]
    if k == "S":
        return c[k]({key: build_var(e) for key, e in t[1]})
    if k == "A":
        return c[k](c[t[1]], [build_var(e) for e in t[2]])
    return c[k](t[1])


def build_map(t):
    assert t[0] == "S"
    return {key: build_var(e) for key, e in t[1]}


def snap_var(v):
    """Variable -> tree; the concrete class decides the kind."""
    for k, cls in _classes().items():
        if type(v) is cls:
            break
    else:
        raise TypeError(f"not a known variable: {type(v)}")
    if k == "S":
        return ("S", tuple((key, snap_var(e)) for key, e in v.value.items()))
    if k == "A":
        etype, elems = v.value
        ek = next(kk for kk, cls in _classes().items() if cls is etype)
        return ("A", ek, tuple(snap_var(e) for e in elems))
    if k == "b":
        return ("b", _strict(v.value, bool))
    if k in "iu":
        return (k, int(v.value))
    if k == "f":
        return ("f", _strict(v.value, float))
    if k == "s":
        return ("s", bytes(v.value))
    return ("v", (_strict(v.value[0], float), _strict(v.value[1], float)))


def _strict(v, typ):
    if not isinstance(v, typ):
        raise TypeError(f"{v!r} is not a {typ.__name__}")
    return v


def snap_map(m):
    return ("S", tuple((key, snap_var(e)) for key, e in m.items()))


def sort_tree(t):
    """Canonical form without key order."""
    if t[0] == "S":
        return ("S", tuple(sorted((k, sort_tree(e)) for k, e in t[1])))
    if t[0] == "A":
        return ("A", t[1], tuple(sort_tree(e) for e in t[2]))
    return t


def build_tile(t):
    from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet

    tile = Tile(
        TileShape(t[0]), tile_flags=t[1], sprite_set=TileSpriteSet(t[2]),
        sprite_tile=t[3], sprite_palette=t[4],
    )
    tile.edge_data = [
        TileEdgeData(
            solid=e[0], visible=e[1], caps=e[2], angles=e[3],
            filth_sprite_set=TileSpriteSet(e[4]), filth_spike=e[5],
            filth_caps=e[6], filth_angles=e[7],
        )
        for e in t[5]
    ]
    return tile


def _pair(p, typ):
    a, b = p
    return (typ(a), typ(b))


def snap_edge(e):
    return (
        bool(e.solid), bool(e.visible), _pair(e.caps, bool), _pair(e.angles, int),
        int(e.filth_sprite_set), bool(e.filth_spike), _pair(e.filth_caps, bool),
        _pair(e.filth_angles, int),
    )


def snap_tile(t):
    if len(t.edge_data) != 4:
        raise ValueError("tile without exactly four edges")
    return (
        int(t.shape), int(t.tile_flags), int(t.sprite_set), int(t.sprite_tile),
        int(t.sprite_palette), tuple(snap_edge(e) for e in t.edge_data),
    )


def build_prop(p):
    from dustmaker.prop import Prop

    return Prop(*p)


def snap_prop(p):
    return (
        p.layer_sub, p.rotation, bool(p.flip_x), bool(p.flip_y), p.scale,
        p.prop_set, p.prop_group, p.prop_index, p.palette,
    )


_ETYPES = None


def entity_classes():
    """TYPE_IDENTIFIER -> class, for the classes shipped with dustmaker."""
    global _ETYPES
    if _ETYPES is None:
        from dustmaker.entity import Entity

        _ETYPES = {}
        todo = [Entity]
        while todo:
            c = todo.pop()
            todo += c.__subclasses__()
            name = c.__dict__.get("TYPE_IDENTIFIER")
            if name is not None and c.__module__.startswith("dustmaker."):
                _ETYPES[name] = c
    return _ETYPES


def build_entity(e):
    from dustmaker.entity import Entity

    etype, var, rot, layer, fx, fy, vis = e
    cls = entity_classes().get(etype)
    ent = (cls or Entity)(build_map(var), rot, layer, fx, fy, vis)
    if cls is None:
        ent.etype = etype
    return ent


def snap_entity(e):
    return (
        e.etype, snap_map(e.variables), e.rotation, e.layer, bool(e.flip_x),
        bool(e.flip_y), bool(e.visible),
    )


def build_level(spec):
    from dustmaker.level import Level

    lv = Level()
    lv.variables = build_map(spec["vars"])
    lv.sshot = spec["sshot"]
    for key, t in spec["tiles"].items():
        lv.tiles[key] = build_tile(t)
    for key, t in spec["bd_tiles"].items():
        lv.backdrop.tiles[key] = build_tile(t)
    for pid, (layer, x, y, p) in spec["props"].items():
        lv.add_prop(layer, x, y, build_prop(p), pid)
    for pid, (layer, x, y, p) in spec["bd_props"].items():
        lv.backdrop.add_prop(layer, x, y, build_prop(p), pid)
    for eid, (x, y, e) in spec["ents"].items():
        lv.add_entity(x, y, build_entity(e), eid)
    return lv


def snap_level(lv):
    spec = {
        "vars": snap_map(lv.variables),
        "sshot": bytes(lv.sshot),
        "tiles": {k: snap_tile(t) for k, t in lv.tiles.items()},
        "props": {k: (l, x, y, snap_prop(p)) for k, (l, x, y, p) in lv.props.items()},
        "ents": {k: (x, y, snap_entity(e)) for k, (x, y, e) in lv.entities.items()},
        "bd_tiles": {}, "bd_props": {},
    }
    if lv.backdrop is not None:
        spec["bd_tiles"] = {k: snap_tile(t) for k, t in lv.backdrop.tiles.items()}
        spec["bd_props"] = {
            k: (l, x, y, snap_prop(p)) for k, (l, x, y, p) in lv.backdrop.props.items()
        }
    return spec


def stored_prop(p):
    """Prop as it comes back: scale snapped to the nearest of the 56 steps."""
    import math

    k = int(round(math.log(p[4]) / math.log(50.0) * 24.0)) + 32
    assert 0 <= k <= 55, p
    return p[:4] + (scale_step(k),) + p[5:]


def stored_level(spec):
    """What a level file holds for spec (resolution, filth only on layer 19)."""
    out = dict(spec)
    for key in ("props", "bd_props"):
        out[key] = {
            pid: (l, float(int(x)), float(int(y)), stored_prop(p))
            for pid, (l, x, y, p) in spec[key].items()
        }
    out["ents"] = {
        eid: (quant(8, x), quant(8, y), (e[0], stored_tree(e[1])) + e[2:])
        for eid, (x, y, e) in spec["ents"].items()
    }
    out["tiles"] = {k: stored_tile(t, k[0]) for k, t in spec["tiles"].items()}
    out["bd_tiles"] = {k: stored_tile(t, k[0]) for k, t in spec["bd_tiles"].items()}
    out["vars"] = stored_tree(spec["vars"])
    return out


def stored_tile(t, layer):
    if layer == 19 and has_filth(t):
        return t
    return t[:5] + (tuple(e[:4] + BLANK_EDGE[4:] for e in t[5]),)


def stored_tree(t):
    if t[0] == "f":
        return ("f", quant(32, t[1]))
    if t[0] == "v":
        return ("v", (quant(32, t[1][0]), quant(32, t[1][1])))
    if t[0] == "S":
        return ("S", tuple((k, stored_tree(e)) for k, e in t[1]))
    if t[0] == "A":
        return ("A", t[1], tuple(stored_tree(e) for e in t[2]))
    return t


def diff_levels(got, want, what="level"):
    """Precise message on the first difference; order of records is irrelevant."""
    from mc.core import Violated, short

    for key in LEVEL_KEYS:
        g, w = got[key], want[key]
        if g == w:
            continue
        if isinstance(w, dict):
            for k in list(w) + list(g):
                if g.get(k) != w.get(k):
                    raise Violated(
                        f"{what}: {key}[{k!r}]: got {short(g.get(k, 'nothing'))}, expected {short(w.get(k, 'nothing'))}"
                    )
        raise Violated(f"{what}: {key}: got {short(g)}, expected {short(w)}")
