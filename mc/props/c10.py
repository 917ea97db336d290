"""C10: replays survive write and read."""
import io
import itertools

from mc import ref
from mc import replaycases as RC
from mc.core import Prop, require, same

PROP = Prop("C10")
PROP.assumptions = ["values are within the bit widths of the format; characters are the eight known ones"]


def write(spec, **kw):
    from dustmaker import DFWriter

    w = DFWriter(io.BytesIO())
    w.write_replay(RC.build(spec), **kw)
    w.flush()
    return w.data.getvalue()


def check(ctx, spec):
    from dustmaker import DFReader
    from dustmaker.replay import IntentStream

    data = write(spec)
    want = RC.expect(spec)
    orig = RC.build(spec)
    for known in (None, len(data)):
        r = DFReader(io.BytesIO(data))
        rep = r.read_replay(known_length=known)
        same(RC.snap(rep), want, f"replay read with known_length={known}")
        same(r.bit_tell(), 8 * len(data), "position after the replay")
    for pa, pb in zip(orig.players, rep.players):
        for it in RC.intents_of(spec["version"]):
            it = IntentStream(it)
            n = max(len(pa.intents.get(it, ())), len(pb.intents.get(it, ()))) + 2
            for f in list(range(min(n, 12))) + list(range(max(0, n - 12), n)) + [-1, n + 10**6]:
                va, vb = pa.get_intent_value(it, f), pb.get_intent_value(it, f)
                require(va == vb, "intent", it, "frame", f, "was", va, "now", vb)
    ctx.step(3)
    ctx.state(data)


def _mk(gen, rule):
    def fam(ctx, case):
        check(ctx, RC.make(case))

    fam.__name__ = gen.__name__[2:]
    PROP.family(gen, rule)(fam)


for _g, _r in RC.GENERATORS:
    _mk(_g, _r)


def g_streams(tier):
    n = 5
    for a in range(n):
        for b in range(n):
            for c in range(n):
                for off in (0, 1, 6):
                    yield (a, b, c, off)


def sample(i):
    return (
        RC.make(("meta", 4, 2, b"user", b"lvl")),
        RC.make(("meta", 1, 1, None, b"")),
        RC.make(("ents", 3, 5)),
        RC.make(("runs", 8, ((32767, 300), (None, 20), (1, 2)))),
        RC.base(4, 0),
    )[i]


@PROP.family(g_streams, "all triples of 5 replays following each other in one stream at several offsets, with and without stated lengths, and with other data behind")
def streams(ctx, case):
    from dustmaker import DFReader, DFWriter

    a, b, c, off = case
    f = io.BytesIO()
    f.write(b"\x99" * off)
    w = DFWriter(f, noclose=True)
    ends = []
    for i in (a, b, c):
        w.write_replay(RC.build(sample(i)))
        ends.append(w.bit_tell() // 8)
    w.write_bytes(b"DF_RPL4 trailing")
    w.close()
    data = f.getvalue()
    starts = [off] + ends[:-1]
    for k, i in enumerate((a, b, c)):
        same(data[starts[k] : ends[k]], write(sample(i)), "bytes of a replay inside a stream")
    for mode in range(8):
        f = io.BytesIO(data)
        f.seek(off)
        r = DFReader(f)
        for k, i in enumerate((a, b, c)):
            known = ends[k] - starts[k] if mode >> k & 1 else None
            same(RC.snap(r.read_replay(known_length=known)), RC.expect(sample(i)), f"replay {k} mode {mode}")
            same(r.bit_tell(), 8 * ends[k], "position after the replay")
        same(r.read_bytes(6), b"DF_RPL", "data behind the replays")
    ctx.step(27)
    ctx.state(data)


def g_lookup(tier):
    for it in range(11):
        for n in range(0, 5 if tier == "quick" else 7):
            yield (it, n)


@PROP.family(g_lookup, "get_intent_value for every intent, all recordings of up to 4 (thorough 6) of three values, at every frame inside and around, before and after a round trip")
def lookup(ctx, case):
    from dustmaker import DFReader
    from dustmaker.replay import IntentStream, PlayerData

    it, n = case
    neutral = {0: 1, 1: 1}.get(it, 0)
    require(PlayerData().get_intent_value(IntentStream(it), 0) == RC.to_api(it, neutral), "neutral value of an intent without recording")
    for vals in itertools.product((neutral,) + tuple(RC.VALS[it][:2]), repeat=n):
        spec = RC.base(4, 2)
        spec["players"][1] = (3, {it: list(vals)})
        spec["ents"] = [(i, [(i, i, 2, 3, 4)]) for i in range(1, 12) if i % 4]
        live = RC.build(spec)
        back = DFReader(io.BytesIO(write(spec))).read_replay()
        for rep in (live, back):
            for f in range(-3, n + 4):
                want = RC.to_api(it, vals[f] if 0 <= f < n else neutral)
                got = rep.players[1].get_intent_value(IntentStream(it), f)
                same(got, want, f"intent {it} of {vals} at frame {f}")
                same(rep.players[0].get_intent_value(IntentStream(it), f), RC.to_api(it, neutral), "intent of the other player")
            for p in range(1, 7):
                for name, fn, i in (("player", rep.get_player_entity_data, 2 * p), ("camera", rep.get_camera_entity_data, 2 * p + 1)):
                    got = fn(p)
                    same(None if got is None else got.frames[0].frame, i if i < 12 and i % 4 else None, f"desync data of {name} {p}")
            same(rep.get_player_entity_data().frames[0].frame, 2, "desync data of the first player")
            same(rep.get_camera_entity_data().frames[0].frame, 3, "desync data of the first camera")
        ctx.step(2)
        ctx.state(it, vals)


def g_user(tier):
    for u in (b"", b"name"):
        for force in (False, True):
            for v in (1, 3, 4):
                yield (u, force, v)


@PROP.family(g_user, "user name header: present when there is a name or when forced")
def user(ctx, case):
    from dustmaker import DFReader

    u, force, v = case
    spec = RC.base(v)
    spec["user"] = u
    data = write(spec, force_username=force)
    same(data.startswith(b"DF_RPL2"), bool(u) or force, "user header present")
    same(RC.snap(DFReader(io.BytesIO(data)).read_replay()), RC.expect(spec), "replay")
    ctx.step(2)
    ctx.state(data)


def g_inexact(tier):
    for i in range(0, 200):
        yield i


@PROP.family(g_inexact, "mouse and entity values between the stored steps come back at the nearest step")
def inexact(ctx, case):
    from dustmaker import DFReader, DFWriter
    from dustmaker import replay as R

    rep = R.Replay(version=4, frames=5, players=[R.PlayerData()])
    mouse = [(case * 7 + k) / 1403.7 % 1.0 for k in range(5)]
    rep.players[0].intents[R.IntentStream.MOUSE_X] = list(mouse)
    rep.players[0].intents[R.IntentStream.MOUSE_Y] = mouse[::-1]
    xs = [(case - 100) * 1.2345 + k / 7 for k in range(4)]
    rep.entities[3] = R.EntityData([R.EntityFrame(1, *xs)])
    w = DFWriter(io.BytesIO())
    w.write_replay(rep)
    w.flush()
    back = DFReader(io.BytesIO(w.data.getvalue())).read_replay()
    for f in range(5):
        for it, want in ((R.IntentStream.MOUSE_X, mouse[f]), (R.IntentStream.MOUSE_Y, mouse[4 - f])):
            got = back.players[0].get_intent_value(it, f)
            require(abs(got - want) <= 0.5001 / 32767, "mouse value", want, "came back as", got)
    fr = back.entities[3].frames[0]
    for got, want, res in ((fr.x_pos, xs[0], 10), (fr.y_pos, xs[1], 10), (fr.x_speed, xs[2], 100), (fr.y_speed, xs[3], 100)):
        require(abs(got - want) <= 0.5001 / res, "entity value", want, "came back as", got)
    ctx.step(2)
    ctx.state(case)


def g_shipped(tier):
    yield "tests/downhill.dfreplay"


@PROP.family(g_shipped, "the shipped replay survives")
def shipped(ctx, case):
    import os
    from dustmaker import DFReader, DFWriter
    from mc.core import REPO

    path = os.path.join(REPO, case)
    if not os.path.exists(path):
        return
    with open(path, "rb") as fh:
        data = fh.read()
    rep = DFReader(io.BytesIO(data)).read_replay()
    w = DFWriter(io.BytesIO())
    w.write_replay(rep)
    w.flush()
    same(RC.snap(DFReader(io.BytesIO(w.data.getvalue())).read_replay()), RC.snap(rep), "replay")
    ctx.step(3)
