"""Replay specs shared by the replay properties, and their bridge to the public API.

spec := {"version", "user", "level", "frames", "players": [(char, {intent: [stored]})],
         "ents": [(id, [(frame, x10, y10, xs100, ys100)])]}
Stored intent values are the raw bits of the format.
"""
import itertools

from mc import ref


def to_api(intent, v):
    from dustmaker.replay import MouseState

    if intent < 2:
        return v - 1
    if intent in (8, 9):
        return v / 32767.0
    if intent == 10:
        return MouseState(v)
    return v


def from_api(intent, v):
    if intent < 2:
        return v + 1
    if intent in (8, 9):
        r = v * 32767.0
        assert abs(r - round(r)) < 1e-6, v
        return int(round(r))
    return int(v)


def build(spec):
    from dustmaker import replay as R

    rep = R.Replay(
        version=spec["version"],
        username=spec["user"] or b"",
        level=spec["level"],
        frames=spec["frames"],
    )
    for char, streams in spec["players"]:
        pl = R.PlayerData(character=R.Character(char))
        for intent, vals in streams.items():
            pl.intents[R.IntentStream(intent)] = [to_api(intent, v) for v in vals]
        rep.players.append(pl)
    for eid, frames in spec["ents"]:
        rep.entities[eid] = R.EntityData(
            [R.EntityFrame(f, x / 10.0, y / 10.0, a / 100.0, b / 100.0) for f, x, y, a, b in frames]
        )
    return rep


def snap(rep):
    """Replay object -> spec, with trailing neutral values removed."""
    players = []
    for pl in rep.players:
        streams = {}
        for intent, vals in pl.intents.items():
            streams[int(intent)] = ref.trim(int(intent), [from_api(int(intent), v) for v in vals])
        players.append((int(pl.character), streams))
    ents = []
    for eid, data in rep.entities.items():
        ents.append(
            (eid, [(f.frame, f.x_pos, f.y_pos, f.x_speed, f.y_speed) for f in data.frames])
        )
    return {
        "version": rep.version,
        "user": bytes(rep.username),
        "level": bytes(rep.level),
        "frames": rep.frames,
        "players": players,
        "ents": ents,
    }


def intents_of(version):
    return [i for i, (_, mv) in enumerate(ref.INTENTS) if version >= mv]


def expect(spec):
    """What snap() gives after the replay went through a file."""
    players = []
    for char, streams in spec["players"]:
        players.append(
            (char, {i: ref.trim(i, streams.get(i, ())) for i in intents_of(spec["version"])})
        )
    return {
        "version": spec["version"],
        "user": spec["user"] or b"",
        "level": spec["level"],
        "frames": spec["frames"],
        "players": players,
        "ents": [
            (e, [(f, x / 10.0, y / 10.0, a / 100.0, b / 100.0) for f, x, y, a, b in fr])
            for e, fr in spec["ents"]
        ],
    }


def base(version=4, players=1):
    return {
        "version": version,
        "user": None,
        "level": b"downhill",
        "frames": 100,
        "players": [(i % 8, {}) for i in range(players)],
        "ents": [],
    }


RUNS = (0, 1, 2, 3, 127, 128, 252, 253, 254, 255, 256, 257, 509, 510, 511, 512, 1024)
VALS = {0: (0, 2, 3), 1: (0, 2), 2: (1, 2, 3), 3: (1, 2), 4: (1, 2), 5: (10, 11, 1), 6: (10, 15),
        7: (1, 2, 15), 8: (32767, 1, 65535), 9: (16384, 32767), 10: (4, 31, 255)}


def g_runs(tier):
    for intent in range(11):
        vals = VALS[intent]
        for n0 in RUNS:
            for n1 in RUNS:
                yield ("runs", intent, ((None, n0), (vals[0], n1)))
                if n0 in (0, 1, 254, 255) or tier == "thorough":
                    for n2 in RUNS[:1] + RUNS[1:] if tier == "thorough" else (0, 1, 254, 255, 256):
                        yield ("runs", intent, ((None, n0), (vals[0], n1), (vals[-1], n2), (None, 3)))
                        yield ("runs", intent, ((vals[0], n0), (None, n1), (vals[0], n2)))
        for v in range(1 << min(8, ref.INTENTS[intent][0])):
            yield ("runs", intent, ((v, 2), (None, 1), (v, 1)))
        if ref.INTENTS[intent][0] == 16:
            for v in range(0, 65536, 257 if tier == "quick" else 17):
                yield ("runs", intent, ((v, 2), (v ^ 1, 1)))
    for intent, n in ((0, 65535), (2, 65536), (5, 65537), (9, 70001), (10, 131072), (7, 4097)):
        yield ("runs", intent, ((None, 5), (VALS[intent][0], n), (None, n), (VALS[intent][1], n)))
    for intent, n in ((3, 2**20 + 300), (0, 2**20 + 1)):
        yield ("runs", intent, ((VALS[intent][0], n), (VALS[intent][1], 300)))


def g_short(tier):
    n = 6 if tier == "quick" else 8
    for intent in range(11):
        for ln in range(0, n + 1):
            for code in range(3**ln):
                yield ("short", intent, ln, code)


def g_meta(tier):
    for version in (1, 3, 4):
        for players in (0, 1, 2, 3, 4) if version > 1 else (1,):
            for user in (None, b"u", b"user\x00\xff name", b"x" * 300, b"DF_RPL4", b"z" * 65535):
                for level in (b"", b"a", b"downhill", b"\x00\xff", b"L" * 255):
                    yield ("meta", version, players, user, level)
    for b in range(256):
        end = bytes((b,)) * (1 + b % 3)
        yield ("meta", (1, 3, 4)[b % 3], 1, end + b"n" + end, end)
        yield ("meta", (3, 4, 1)[b % 3], 1, end, end + b"l" + end)
    for version in (1, 3, 4):
        for frames in (0, 1, 255, 65536, 2**31, 2**32 - 1):
            yield ("frames", version, frames)
        for c in range(8):
            yield ("char", version, c)
    for n in (5, 16, 255, 256):
        yield ("many", n)


def g_ents(tier):
    xs = (0, 1, -1, 9, 10, 11, -10, 15, 123456, -123456, 2**31 - 1, -(2**31))
    for a in xs:
        for b in xs:
            yield ("entval", a, b)
    for n in (0, 1, 2, 3, 10):
        for k in (0, 1, 2, 5, 100):
            yield ("ents", n, k)
    for n, k in ((1, 255), (2, 256), (1, 4096), (2, 5001), (1, 65537), (255, 1), (257, 2), (4099, 1), (65538, 0)):
        yield ("ents", n, k)
    for e in (0, 1, 2, 255, 65536, 2**31, 2**32 - 1):
        yield ("entid", e)
    for order in itertools.product((0, 8, 16, 9), repeat=4 if tier == "quick" else 6):
        yield ("entorder", order)


def make(case):
    kind = case[0]
    if kind == "runs":
        _, intent, runs = case
        vals = []
        for v, n in runs:
            vals += [ref.neutral(intent) if v is None else v] * n
        s = base(4)
        s["players"] = [(3, {intent: vals, (intent + 3) % 11: [ref.neutral((intent + 3) % 11), 1, 2]})]
        return s
    if kind == "short":
        _, intent, ln, code = case
        alpha = (ref.neutral(intent), VALS[intent][0], VALS[intent][1])
        vals = []
        for _ in range(ln):
            vals.append(alpha[code % 3])
            code //= 3
        s = base(4)
        s["players"] = [(1, {intent: vals})]
        return s
    if kind == "meta":
        _, version, players, user, level = case
        s = base(version, players)
        s["user"], s["level"] = user, level
        for i, (_, st) in enumerate(s["players"]):
            for it in range(11):
                st[it] = [VALS[it][0]] * (i + it) + [ref.neutral(it)] * 2 + [VALS[it][1]]
        s["ents"] = [(2, [(1, 2, 3, 4, 5)])]
        return s
    if kind == "frames":
        s = base(case[1])
        s["frames"] = case[2]
        return s
    if kind == "char":
        s = base(case[1])
        s["players"] = [(case[2], {0: [2, 2, 1, 0]})]
        return s
    if kind == "many":
        s = base(4, case[1])
        for i, (_, st) in enumerate(s["players"]):
            st[i % 11] = [VALS[i % 11][0]] * (i % 50)
        return s
    s = base(3)
    if kind == "entval":
        s["ents"] = [(7, [(8, case[1], case[2], case[2], case[1])])]
    elif kind == "ents":
        _, n, k = case
        s["ents"] = [((20000 if n < 6000 else 2**20) - 3 * i, [(8 * j, i * j, -j, j - i, i) for j in range(k + i % 2)]) for i in range(n)]
    elif kind == "entorder":
        s["ents"] = [(5, [(f, 10 * j, j, -j, 7) for j, f in enumerate(case[1])]), (2, [(f, 1, 1, 1, 1) for f in case[1]])]
    else:
        s["ents"] = [(case[1], [(2**32 - 1, 1, 2, 3, 4)]), (12345, [])]
    return s


GENERATORS = (
    (g_runs, "every intent: run lengths around the 255 limit in every order, every value"),
    (g_short, "every intent: all value sequences over three values up to length 6 (thorough 8)"),
    (g_meta, "versions, player counts, characters, user and level names (also starting and ending with every byte value), frame counts"),
    (g_ents, "entity frames: boundary coordinates, ids, numbers of entities and frames, frame numbers in any order and repeated"),
)
