"""C28: save conversion keeps all scores and counts keys correctly."""
import itertools
import os
import shutil

from mc import cli
from mc import ref
from mc.core import Prop, require, same
from mc.props.c25 import var_file

PROP = Prop("C28")
PROP.assumptions = ["each level has at most one score unless stated", "score books are those the vanilla save has"]

# the four levels of each tier of each area; tier 0 needs no key and gives wood keys
TIERS = (
    ("downhill shadedgrove dahlia fields", "momentum fireflyforest tunnels momentum2", "suntemple ascent summit grasscave", "den autumnforest garden hyperdifficult"),
    ("atrium secretpassage alcoves mezzanine", "cave cliffsidecaves library courtyard", "precarious treasureroom arena ramparts", "moontemple observatory parapets brimstone"),
    ("vacantlot sprawl development abandoned", "park boxes chemworld factory", "tunnel basement scaffold cityrun", "clocktower concretetemple alley hideout"),
    ("control ferrofluid titan satellite", "vat venom security mary", "wiringfixed containment orb pod", "mary2 coretemple abyss dome"),
)
TIER = {lv.encode(): t for area in TIERS for t, names in enumerate(area) for lv in names.split()}
LEVELS = tuple(TIER)
assert len(LEVELS) == 64
OTHER = (b"", b"newtutorial1", b"downhil", b"downhill2", b"DOWNHILL", b"mary3", b"hideout\x00", b"tutorial0", b"main nexus", b"yotta")
BOOKS = ("citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook", "virtualbookk")


def score(name, i, order=0, extra=False):
    items = [
        ("file_name", ("s", name)), ("combo", ("i", 1 - (i * 7) % 5)), ("time", ("f", 0.5 + i)), ("thorough", ("f", (i % 5) / 4.0)),
        ("best_time", ("f", 1000.0 - i)), ("overall", ("i", i - 3)),
    ]
    if extra:
        items += [("key", ("i", 9)), ("rind", ("i", 5)), ("key_type", ("i", 77))]
    return ("S", tuple(items[order:] + items[:order]))


def stats(scores, books=(), red=None, extra=()):
    items = [(b, ("S", (("name", ("s", b.encode())), ("n", ("A", "i", (("i", j),)))))) for j, b in enumerate(books)]
    items += list(extra)
    if red is not None:
        items.append(("red_used", ("i", red)))
    if scores is not None:
        items.append(("score", ("A", "S", tuple(scores))))
    return ("S", tuple(items))


def check(ctx, tree, got):
    """got: converted tree."""
    src = dict(tree[1])
    out = dict(got[1])
    same(len(out), len(got[1]), "number of keys")
    scores = src.get("score", ("A", "S", ()))[2]
    kept = []
    used = [0, 0, 0]
    for s in scores:
        d = dict(s[1])
        t = TIER.get(d["file_name"][1])
        if t is None:
            continue
        if t:
            used[t - 1] += 1
        kept.append((d["file_name"][1], dict(
            {k: d[k] for k in ("file_name", "combo", "time", "thorough", "best_time", "overall")},
            key_type=("i", 4 if t == 0 else t),
        )))
    kept.sort(key=lambda x: x[0])
    ks = out["k_score"]
    same(ks[:2], ("A", "S"), "type of the scores")
    same(len(ks[2]), len(kept), "number of scores")
    for g, (name, want) in zip(ks[2], kept):
        gd = dict(g[1])
        for k, v in want.items():
            same(gd.get(k), v, f"score of {name!r}: {k}")
        same(gd.get("rind"), ("i", 0), f"score of {name!r}: rind")
        same(set(gd), set(want) | {"rind"}, f"score of {name!r}: entries")
    red = src.get("red_used", ("i", 0))[1]
    for key, n in zip(("k_wood_used", "k_silver_used", "k_gold_used", "k_red_used"), (*used, red)):
        same(out.get(key), ("A", "i", (("i", n),)), key)
    same(out.get("k_root"), ("A", "s", (("s", b""),)), "k_root")
    same(out.get("k_ngplus"), ("A", "b", (("b", False),)), "k_ngplus")
    for b in BOOKS:
        same(out.get(b), src.get(b), f"score book {b}")
    for k in src:
        if k not in BOOKS:
            require(k not in out or k.startswith("k_"), "entry", k, "of the vanilla save was carried over")


def convert(ctx, tree):
    from dustmaker.cmd.save_convert import migrate_stats

    src = ref.build_map(tree)
    got = ref.snap_var(ref._classes()["S"](migrate_stats(src)))
    ctx.step()
    same(ref.snap_map(src), tree, "vanilla save after the conversion")
    check(ctx, tree, got)
    ctx.state(tree)
    return got


def g_single(tier):
    for i in range(64):
        for order in range(6):
            yield (i, order)
    for i in range(len(OTHER)):
        yield (64 + i, 0)


def name(i):
    return LEVELS[i] if i < 64 else OTHER[i - 64]


@PROP.family(g_single, "every standard level alone with the score fields in every rotation, and ten other file names")
def single(ctx, case):
    i, order = case
    for extra in (False, True):
        convert(ctx, stats([score(name(i), i, order, extra)]))
        convert(ctx, stats([score(name(i), i, order, extra)], BOOKS, red=i))


def g_subsets(tier):
    pick = (0, 4, 8, 12, 19, 37, 65) if tier == "quick" else (0, 4, 8, 12, 19, 37, 59, 65)
    for n in range(len(pick) + 1):
        for sub in itertools.permutations(pick, n):
            if tier == "quick" and n > 5:
                continue
            yield sub


@PROP.family(g_subsets, "all ordered selections of up to 5 out of 7 (thorough: all of 8) levels of all tiers and one unknown")
def subsets(ctx, sub):
    convert(ctx, stats([score(name(i), i) for i in sub], red=len(sub)))


def g_pairs(tier):
    for i in range(74):
        for j in range(74):
            if i != j:
                yield (i, j)


@PROP.family(g_pairs, "all ordered pairs of the 64 levels and ten other names")
def pairs(ctx, case):
    convert(ctx, stats([score(name(i), i) for i in case]))


def g_books(tier):
    for mask in range(256):
        for red in (None, 0, 3):
            yield (mask, red)


@PROP.family(g_books, "all subsets of the score books, with and without red keys, scores and other entries")
def books(ctx, case):
    mask, red = case
    bs = [b for j, b in enumerate(BOOKS) if mask >> j & 1]
    other = (("score_lvl", ("i", 3)), ("xp", ("f", 2.0)), ("cityboo", ("b", True)), ("options", ("S", ())))
    for scores in (None, [], [score(b"den", 1), score(b"boxes", 2)]):
        convert(ctx, stats(scores, bs, red))
        convert(ctx, stats(scores, bs[::-1], red, other))


BOOK_VALUES = (
    ("S", ()), ("A", "S", ()), ("A", "i", ()), ("i", 0), ("u", 0), ("b", False), ("f", 0.0), ("s", b""), ("v", (0.0, 0.0)),
    ("i", -1), ("b", True), ("s", b"\x00x\xff"), ("A", "S", (("S", ()), ("S", (("k", ("s", b"")),)))), ("S", (("a", ("S", (("b", ("A", "f", (("f", 0.5),))),))),)),
)


def g_bookv(tier):
    for i in range(len(BOOK_VALUES)):
        for j in range(len(BOOK_VALUES)):
            yield (i, j)


@PROP.family(g_bookv, "all pairs of 14 values (empty, zero, nested) of score books")
def book_values(ctx, case):
    i, j = case
    for k, b in enumerate(BOOKS):
        extra = ((b, BOOK_VALUES[i]), (BOOKS[(k + 1) % 8], BOOK_VALUES[j]))
        convert(ctx, stats([score(b"den", 1)], (), 2, extra))


def g_all(tier):
    for k in range(64):
        yield k


@PROP.family(g_all, "all levels at once in 64 rotations and reversed, and with 64 different levels missing")
def full(ctx, k):
    idx = list(range(k, 64)) + list(range(k))
    for order in (idx, idx[::-1], idx[1:], [64 + k % 10] + idx):
        convert(ctx, stats([score(name(i), i) for i in order], BOOKS, red=k))


def g_long(tier):
    for n in (65, 129, 200, 257, 1000, 5000):
        for k in (0, 1, 2):
            yield (n, k)


@PROP.family(g_long, "saves with up to 5000 scores of other levels before, behind and between those of the 64 standard levels")
def long(ctx, case):
    n, k = case
    others = [score(b"custom-%d" % i, i) for i in range(n)]
    std = [score(name(i), i) for i in range(64)]
    if k == 0:
        lst = others + std
    elif k == 1:
        lst = std + others
    else:
        step = max(1, n // 64)
        lst = []
        for i, s in enumerate(std):
            lst += others[i * step : (i + 1) * step] + [s]
    convert(ctx, stats(lst, BOOKS, red=k))


def g_values(tier):
    for c in (0, 1, -1, 2**31 - 1, -(2**31)):
        for t in (0.0, 1.5, -0.25, 2.0**-31, 123456.0625):
            yield (c, t)


@PROP.family(g_values, "score values at their limits")
def values(ctx, case):
    c, t = case
    s = ("S", (("file_name", ("s", b"dome")), ("combo", ("i", c)), ("time", ("f", t)), ("thorough", ("f", -t)), ("best_time", ("f", t + 1)), ("overall", ("i", -1 - c))))
    convert(ctx, stats([s], red=c))


def g_cli(tier):
    yield ((), (), None)
    yield ((0,), ("citybook",), 1)
    yield ((12, 3, 65, 40), BOOKS, 7)
    yield (tuple(range(63, -1, -1)), BOOKS, 0)
    yield ((64, 65, 66), (), None)
    for a in range(0, 64, 5):
        yield ((a, 63 - a), BOOKS[a % 8 :], a)


def tool(ctx, case, run):
    idx, bs, red = case
    tree = stats([score(name(i), i) for i in idx], bs, red)
    d = ctx.tmpdir()
    try:
        src, dst = os.path.join(d, "stats0"), os.path.join(d, "stats1")
        data = var_file(b"DF_STA", tree)
        cli.put(src, data)
        for existing in (False, True):
            if existing:
                cli.put(dst, b"old" * 5000)
            r = run("saveconvert", src, dst)
            ctx.step()
            require(r.code == 0, "conversion failed", r)
            same(cli.get(src), data, "vanilla save")
            out = cli.get(dst)
            same(out[:8], b"DF_STA\x01\x00", "file header")
            same(int.from_bytes(out[8:12], "little"), len(out), "file size field")
            b = ref.Bits(out[12:])
            check(ctx, tree, ref.take_var(b, "S"))
            b.align()
            same(b.p, len(b.s), "bytes behind the variables")
        ctx.state(case)
    finally:
        shutil.rmtree(d)


@PROP.family(g_cli, "18 saves through the command line tool, to a new file and over an existing one, decoded independently")
def files(ctx, case):
    tool(ctx, case, cli.run)


def g_spawn(tier):
    yield ((12, 3, 65, 40), BOOKS, 7)


@PROP.family(g_spawn, "through separate python -m dustmaker and python -m dustmaker.cmd.save_convert processes")
def programs(ctx, case):
    tool(ctx, case, cli.spawn)
    tool(ctx, case, cli.standalone)
