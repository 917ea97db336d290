"""C11: replay files conform to the Dustforce replay format, in both directions."""
import io
import itertools

from mc import ref
from mc import replaycases as RC
from mc.core import Prop, Violated, raises, same
from mc.props.c10 import write

PROP = Prop("C11")
PROP.assumptions = ["values are within the bit widths of the format; characters are the eight known ones"]


def conform(ctx, spec):
    data = write(spec)
    ctx.step()
    ctx.state(data)
    try:
        got, used = ref.decode_replay(data)
    except ref.FormatError as e:
        raise Violated(f"replay file is not well formed: {e}") from e
    same(used, len(data), "bytes used")
    want = {
        "version": spec["version"], "user": spec["user"] or None, "level": spec["level"], "frames": spec["frames"],
        "players": [
            (c, {i: ref.trim(i, st.get(i, ())) for i in RC.intents_of(spec["version"])})
            for c, st in spec["players"]
        ],
        "ents": [(e, [tuple(f) for f in fr]) for e, fr in spec["ents"]],
    }
    got["players"] = [(c, {i: ref.trim(i, v) for i, v in st.items()}) for c, st in got["players"]]
    for key in want:
        same(got[key], want[key], "decoded " + key)


def _mk(gen, rule):
    def fam(ctx, case):
        conform(ctx, RC.make(case))

    fam.__name__ = gen.__name__[2:]
    PROP.family(gen, rule)(fam)


for _g, _r in RC.GENERATORS:
    _mk(_g, "written: " + _r)


def g_many_versions(tier):
    for v in (1, 3, 4):
        for intents in itertools.chain.from_iterable(itertools.combinations(range(11), r) for r in (0, 1, 2, 11)):
            yield (v, intents)


@PROP.family(g_many_versions, "written: each version with all pairs of intents set, intents that do not exist in the version are left out")
def intents_by_version(ctx, case):
    v, intents = case
    s = RC.base(v)
    s["players"] = [(2, {i: [RC.VALS[i][0]] * (i + 1) + [ref.neutral(i)] + [RC.VALS[i][1]] for i in intents})]
    conform(ctx, s)


# ------------------------------------------------------------------ foreign encodings


def read_check(ctx, data, spec):
    from dustmaker import DFReader

    want = RC.expect(spec)
    for known in (None, len(data)):
        rep = DFReader(io.BytesIO(data)).read_replay(known_length=known)
        same(RC.snap(rep), want, f"foreign replay, known_length={known}")
    ctx.step(2)
    ctx.state(data)


def streams_for(version, runs_of, last=None, pad=0):
    out, vals = [], {}
    for i in RC.intents_of(version):
        runs = runs_of.get(i, [0])
        out.append(ref.enc_stream(i, runs, ref.neutral(i) if last is None else last % (1 << ref.INTENTS[i][0]), pad))
        vals[i] = ref.expand(i, runs)
    return out, vals


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def g_splits(tier):
    n = 5 if tier == "quick" else 7
    for intent in range(11):
        for n0 in (0, 1, 2, 254):
            for total in range(0, n + 1):
                for comp in compositions(total):
                    for mode in (0, 1, 2):
                        yield (intent, n0, comp, mode)
        for c in (1, 2, 128, 254, 255):
            for d in (1, 254, 255):
                yield (intent, c % 255, (c, d, c), 1)
                yield (intent, c % 255, (c, d, c), 0)


@PROP.family(g_splits, "read: runs split in every way (equal, alternating and neutral values), all counts 0..254 / 1..255")
def splits(ctx, case):
    intent, n0, comp, mode = case
    v0, v1 = RC.VALS[intent][0], RC.VALS[intent][1]
    runs = [n0]
    for k, c in enumerate(comp):
        v = v0 if mode == 0 else (v0, v1)[k % 2] if mode == 1 else (ref.neutral(intent), v1)[k % 2]
        runs.append((v, c))
    st, vals = streams_for(4, {intent: runs})
    spec = RC.base(4)
    spec["players"] = [(5, vals)]
    read_check(ctx, ref.enc_replay(4, None, spec["level"], spec["frames"], [(5, st)], []), spec)


def g_values(tier):
    for intent in range(11):
        bits = ref.INTENTS[intent][0]
        step = 1 if bits <= 8 else (251 if tier == "quick" else 7)
        for v in sorted(set(range(0, 1 << bits, step)) | {(1 << bits) - 1, 32767 % (1 << bits)}):
            yield (intent, v)


@PROP.family(g_values, "read: every stored value of every intent, also as the unused value before the terminator")
def values(ctx, case):
    intent, v = case
    st, vals = streams_for(4, {intent: [1, (v, 2), (v ^ 1, 1)]}, last=v)
    spec = RC.base(4)
    spec["players"] = [(0, vals)]
    read_check(ctx, ref.enc_replay(4, None, spec["level"], spec["frames"], [(0, st)], []), spec)


def g_heads(tier):
    for version in (1, 3, 4):
        for users in (None, b"", b"me", b"\x00\xff" * 40):
            for players in (0, 1, 2, 4) if version > 1 else (1,):
                for pad in (0, 1, 3):
                    for level6 in (0, 1, 9):
                        yield (version, users, players, pad, level6)
    for version in (3, 4):
        for players in (3, 5, 16, 17, 255, 256, 300):
            yield (version, b"me", players, 0, 6)


@PROP.family(g_heads, "read: versions x user headers x players x padding of the intent streams x compression levels")
def heads(ctx, case):
    version, user, players, pad, level6 = case
    spec = RC.base(version)
    spec["user"] = user
    spec["players"] = []
    enc = []
    for p in range(players):
        runs = {i: [p % 250, (RC.VALS[i][0], i + 1), (ref.neutral(i), 2), (RC.VALS[i][1], p % 250 + 1)] for i in range(11)}
        st, vals = streams_for(version, runs, pad=pad)
        spec["players"].append((p % 8, vals))
        enc.append((p % 8, st))
    spec["ents"] = [(4, [(8, 1, -2, 3, -4), (16, 5, 6, 7, 8)]), (9, []), (2, [(0, 0, 0, 0, 0)])]
    data = ref.enc_replay(version, user, spec["level"], spec["frames"], enc, spec["ents"], level6=level6)
    read_check(ctx, data, spec)


def g_oldcount(tier):
    for n in (0, 1, 2, 3, 255, 256, 65535):
        for user in (None, b"me"):
            yield (n, user)


@PROP.family(g_oldcount, "read: a version 1 replay has exactly one player whatever its player count field holds")
def old_count(ctx, case):
    n, user = case
    spec = RC.base(1)
    spec["user"] = user
    st, vals = streams_for(1, {i: [i, (RC.VALS[i][0], i + 1)] for i in range(7)})
    spec["players"] = [(3, vals)]
    spec["ents"] = [(4, [(8, 1, -2, 3, -4)])]
    data = bytearray(ref.enc_replay(1, user, spec["level"], spec["frames"], [(3, st)], spec["ents"]))
    at = 7 if user is None else 7 + 2 + len(user) + 7
    same(bytes(data[at : at + 2]), b"\x01\x00", "count field of the reference")
    data[at : at + 2] = n.to_bytes(2, "little")
    read_check(ctx, bytes(data), spec)


def g_entnum(tier):
    xs = (0, 1, -1, 10, -10, 99, 2**31 - 1, -(2**31))
    for f in (0, 1, 2**31, 2**32 - 1):
        for a, b in itertools.product(xs, repeat=2):
            yield (f, a, b)


@PROP.family(g_entnum, "read: signed entity coordinates and unsigned frame numbers")
def entnum(ctx, case):
    f, a, b = case
    spec = RC.base(3)
    st, vals = streams_for(3, {})
    spec["players"] = [(0, vals)]
    spec["ents"] = [(2**32 - 1, [(f, a, b, b, a)]), (3, [(f, b, a, a, b)])]
    read_check(ctx, ref.enc_replay(3, None, spec["level"], spec["frames"], [(0, st)], spec["ents"]), spec)


def g_entsplit(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        for owners in itertools.product(range(3), repeat=n):
            yield owners


@PROP.family(g_entsplit, "read: entity records of up to 3 entities in any order and split in any way (up to 4, thorough 6 records): every entity has all its frames in file order")
def entsplit(ctx, case):
    spec = RC.base(3)
    st, vals = streams_for(3, {})
    spec["players"] = [(0, vals)]
    recs, want = [], {}
    for i, who in enumerate(case):
        frames = [(10 * i + j, i, -j, j, who) for j in range((i + who) % 3)]
        recs.append((5 + who, frames))
        want.setdefault(5 + who, []).extend(frames)
    spec["ents"] = list(want.items())
    read_check(ctx, ref.enc_replay(3, None, spec["level"], spec["frames"], [(0, st)], recs), spec)


def g_refuse(tier):
    for b in range(256):
        yield ("outer", b)
        yield ("inner", b)
        yield ("write", b - 64)
    for n in (0, 2, 3, 4):
        yield ("players", n)
    for i in range(6):
        for b in range(256):
            yield ("magic", i * 256 + b)
            yield ("magic2", i * 256 + b)


@PROP.family(g_refuse, "every version byte, every one-byte change of the magics, version 1 with 0, 2, 3, 4 players on writing")
def refuse(ctx, case):
    from dustmaker import DFReader
    from dustmaker.exceptions import LevelParseException

    kind, b = case
    st, vals = streams_for(4, {})
    spec = RC.base(4)
    data = bytearray(ref.enc_replay(4, b"u" if kind in ("inner", "magic2") else None, b"l", 1, [(0, st)], []))
    if kind in ("outer", "inner"):
        at = 6 if kind == "outer" else 7 + 2 + 1 + 6
        same(data[at], 0x34, "version byte of the reference")
        if b - 48 in (1, 3, 4) or (kind == "outer" and b - 48 == 2):
            return
        data[at] = b
        raises(LevelParseException, DFReader(io.BytesIO(bytes(data))).read_replay)
    elif kind in ("magic", "magic2"):
        at = b // 256 + (10 if kind == "magic2" else 0)
        if data[at] == b % 256:
            return
        data[at] = b % 256
        raises(LevelParseException, DFReader(io.BytesIO(bytes(data))).read_replay)
    elif kind == "write":
        if b in (1, 3, 4):
            return
        raises(LevelParseException, write, dict(spec, version=b))
    else:
        raises(LevelParseException, write, dict(spec, version=1, players=[(0, {})] * b))
    ctx.step()
    ctx.state(case)
