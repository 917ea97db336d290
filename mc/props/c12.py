"""C12: truncated files are rejected, never hang and never load partially."""
import functools
import io
import os

from mc import levelcases as L
from mc import ref
from mc import replaycases as RC
from mc.core import CaseTimeout, Prop, REPO, Violated, require

PROP = Prop("C12")
PROP.assumptions = ["the prefix is all the stream holds; levels have at least one region"]
PROP.case_cpu_s = 20.0


@functools.lru_cache(maxsize=None)
def level_file(i):
    """Level files from both the library and the independent encoder."""
    from dustmaker import write_level
    from mc.props import c08, c09

    if i < 12:
        case = [
            ("subset", "t", 0), ("subset", "p", 0), ("subset", "e", 0), ("subset", "b", 0), ("subset", "q", 0),
            ("subset", "tTpebq", 0), ("subset", "tTpebq", 4), ("regions", 5, 0), ("ext", (0, 1, 2)),
            ("sshot", 257), ("vars", 4, 1), ("align", 3, 2),
        ][i]
        return write_level(ref.build_level(L.make(case)))
    return [
        lambda: c08.enc([(0, 0, [c08.seg(8, 15)], c08.seg(8, 7, (0, 0)))], fv=43, vars_=L.VARS),
        lambda: c08.enc([(0, 0, [c08.seg(4, 15)], None), (1, 0, [c08.seg(6, 15)], None)], vars_=L.VARS),
        lambda: c08.enc([(0, 0, [c08.seg(8, 15)], None)], level=0),
        lambda: ref.enc_level(44, L.pad_vars(5), b"png", c09.regions(4)),
        lambda: open(os.path.join(REPO, "tests/downhill"), "rb").read(),
    ][i - 12]()


@functools.lru_cache(maxsize=None)
def replay_file(i):
    from mc.props import c11
    from mc.props.c10 import write

    if i < 7:
        case = [
            ("meta", 4, 2, b"user", b"lvl"), ("meta", 1, 1, None, b""), ("meta", 3, 4, b"abc", b"x" * 255),
            ("ents", 3, 5), ("runs", 8, ((32767, 300), (None, 20), (1, 2))), ("ents", 10, 100), ("char", 4, 1),
        ][i]
        return write(RC.make(case))
    return [
        lambda: write(RC.base(4, 0)),
        lambda: ref.enc_replay(4, b"u", b"l", 1, [(0, c11.streams_for(4, {})[0])], [], level6=0),
        lambda: ref.enc_replay(1, None, b"", 1, [(0, c11.streams_for(1, {})[0])], [], level6=9),
        lambda: open(os.path.join(REPO, "tests/downhill.dfreplay"), "rb").read(),
    ][i - 7]()


def g_levels(tier):
    for i in range(16):
        for n in range(len(level_file(i))):
            yield (i, n)
    if os.path.exists(os.path.join(REPO, "tests/downhill")):
        total = len(level_file(16))
        for n in range(total):
            if n < (20000 if tier == "thorough" else 1200) or n >= total - (400 if tier == "thorough" else 16):
                yield (16, n)


def must_fail(fn, what):
    try:
        res = fn()
    except CaseTimeout:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return type(e).__name__
    raise Violated(f"{what} was accepted: {res!r}")


@PROP.family(g_levels, "every proper prefix of 16 level files (every content kind, versions, uncompressed, several regions); of the shipped level the first 1200 and last 16 (thorough: 20000 and 400)")
def levels(ctx, case):
    from dustmaker import read_level

    i, n = case
    data = level_file(i)[:n]
    e = must_fail(lambda: read_level(data), f"prefix of {n} bytes of level {i}")
    ctx.outcome("level " + e)
    e2 = must_fail(lambda: seek3(data).read_level(), "prefix behind other data")
    ctx.step(2)
    ctx.state("L", i, n, e, e2)


def seek3(data):
    from dustmaker import DFReader

    f = io.BytesIO(b"pad" + data)
    f.seek(3)
    return DFReader(f)


def g_replays(tier):
    for i in range(10):
        for n in range(len(replay_file(i))):
            yield (i, n)
    if os.path.exists(os.path.join(REPO, "tests/downhill.dfreplay")):
        for n in range(len(replay_file(10))):
            yield (10, n)


@PROP.family(g_replays, "every proper prefix of 11 replay files, read without a length, with the original length and with the length of the prefix")
def replays(ctx, case):
    from dustmaker import DFReader

    i, n = case
    full = replay_file(i)
    data = full[:n]
    out = []
    for known in (None, len(full), n):
        e = must_fail(lambda: DFReader(io.BytesIO(data)).read_replay(known_length=known), f"prefix of {n} bytes of replay {i} (known_length={known})")
        out.append(e)
        ctx.outcome("replay " + e)
    ctx.step(3)
    ctx.state("R", i, n, tuple(out))


def g_whole(tier):
    for i in range(16):
        yield ("L", i)
    for i in range(10):
        yield ("R", i)


@PROP.family(g_whole, "the complete files themselves are accepted (the prefixes are not rejected for another reason)")
def whole(ctx, case):
    from dustmaker import DFReader, read_level

    kind, i = case
    if kind == "L":
        lv = read_level(level_file(i))
        require(lv.tiles or lv.props or lv.entities or lv.backdrop.tiles or lv.backdrop.props, "level without content")
    else:
        DFReader(io.BytesIO(replay_file(i))).read_replay()
        DFReader(io.BytesIO(replay_file(i))).read_replay(known_length=len(replay_file(i)))
    ctx.step()
