"""C26: thumbnail and transform commands do exactly what they document."""
import itertools
import os
import shutil

from mc import cli
from mc import geom as G
from mc import levelcases as L
from mc import ref
from mc.core import Prop, Violated, require, same
from mc.props.c09 import regions
from mc.props.c16 import START_KEYS, Model, spec_of

PROP = Prop("C26")
PROP.assumptions = [
    "current format version, contents within the ranges of the format after the transformation",
    "the image conversion options are run with a stand-in for the imaging library, which is not installed here",
]

# --- thumbnail ---------------------------------------------------------------------

IMAGES = (b"", b"x", b"\x89PNG\r\n\x1a\n" + bytes(range(256)), b"DF_LVL" * 30, bytes(range(250)) * 280, b"\x00\x00a\x00", b"\r\n \t\n", b"\x00" * 3)
VARMAPS = (
    ("S", ()),
    ("S", (("icon_taken", ("b", False)), ("z", ("s", b"abc")))),
    ("S", (("a", ("i", 7)), ("icon_taken", ("b", True)))),
    ("S", (("a", ("b", True)), ("arr", ("A", "s", (("s", b"q"),))))),
)


def level_file(v, image, n):
    return ref.enc_level(44, VARMAPS[v], IMAGES[image], regions(n), next_id=1000)


def taken(v):
    items = dict(VARMAPS[v][1])
    items["icon_taken"] = ("b", True)
    return ("S", tuple(items.items()))


def g_thumb(tier):
    for v in range(len(VARMAPS)):
        for a in range(len(IMAGES)):
            for b in range(len(IMAGES)):
                for n in (0, 1, 3):
                    yield (v, a, b, n)


def thumb(ctx, case, run):
    v, a, b, n = case
    d = ctx.tmpdir()
    try:
        lv, img, old = (os.path.join(d, x) for x in ("level", "image.png", "old.png"))
        data = level_file(v, a, n)
        cli.put(lv, data)
        # extract into a new file
        r = run("thumbnail", lv, img)
        ctx.step()
        require(r.code == 0, "extracting failed", r)
        same(cli.files(d), {"level": data, "image.png": IMAGES[a]}, "files after extracting")
        # an existing file is only replaced with --force
        cli.put(old, b"precious")
        r = run("thumbnail", lv, old)
        ctx.step()
        require(r.code != 0, "overwrote an existing image without --force", r)
        same(cli.files(d), {"level": data, "image.png": IMAGES[a], "old.png": b"precious"}, "files after a refused extraction")
        r = run("thumbnail", "--force", lv, old)
        ctx.step()
        require(r.code == 0, "extracting with --force failed", r)
        same(cli.files(d), {"level": data, "image.png": IMAGES[a], "old.png": IMAGES[a]}, "files after --force")
        os.unlink(old)
        # update
        cli.put(img, IMAGES[b])
        for flags in (("--update",), ("--update", "--force")):
            cli.put(lv, data)
            r = run("thumbnail", *flags, lv, img)
            ctx.step()
            require(r.code == 0, "update failed", r)
            got = cli.files(d)
            same(got["image.png"], IMAGES[b], "image after the update")
            same(set(got), {"level", "image.png"}, "files after the update")
            out = got["level"]
            want = ref.enc_level(44, taken(v), IMAGES[b], regions(n), next_id=1000)
            if out != want:
                compare(out, taken(v), IMAGES[b], regions(n))
        # and what was stored can be extracted again
        r = run("thumbnail", "--force", lv, img)
        require(r.code == 0, "extracting the new image failed", r)
        same(cli.get(img), IMAGES[b], "image extracted after the update")
        ctx.state(case)
    finally:
        shutil.rmtree(d)


def compare(out, tree, image, regs):
    """The order of the variables is irrelevant; everything else byte for byte."""
    b = ref.Bits(out)
    same(b.by(6), b"DF_LVL", "magic")
    same(b.u(16), 44, "version")
    same(b.u(32), len(out), "file size")
    n = b.u(32)
    same(n, len(regs), "region count")
    same(b.by(6), b"DF_MTD", "metadata magic")
    b.u(16), b.u(32)
    same(b.u(32), 1000, "next id")
    b.raw(96)
    same(b.by(b.u(32)), image, "thumbnail")
    same(ref.sort_tree(ref.take_var(b, "S")), ref.sort_tree(tree), "variables")
    offs = [b.u(32) for _ in range(n)]
    b.align()
    same(out[b.p // 8 :], b"".join(regs), "region data")
    same(offs, [sum(map(len, regs[:i])) for i in range(n)], "region offsets")


@PROP.family(g_thumb, "all combinations of 4 variable maps, 8 stored and 8 new images and 3 region counts: extract, refuse, force, update, extract again; all files compared")
def thumbnails(ctx, case):
    thumb(ctx, case, cli.run)


def g_convert(tier):
    for v in range(len(VARMAPS)):
        for a in (0, 2):
            for b in range(len(IMAGES)):
                for flags in itertools.product((0, 1), repeat=4):
                    yield (v, a, b, flags, (640, 480))
    for size in itertools.product((1, 2, 91, 181, 182, 183, 191, 364, 381, 382, 383, 764, 5000), repeat=2):
        for flags in ((0, 0, 1, 0), (0, 0, 0, 1), (0, 1, 1, 1)):
            yield (1, 2, 2, flags, size)


@PROP.family(g_convert, "all 16 combinations of --force, --update, --auto-convert and --auto-scale x variable maps x images, and 169 image sizes, with a stand-in for the imaging library: what ends up in which file")
def conversions(ctx, case):
    v, a, b, (force, update, convert, scale), size = case
    d = ctx.tmpdir()
    try:
        lv, img = os.path.join(d, "level"), os.path.join(d, "image.bmp")
        data = level_file(v, a, 2)
        cli.put(lv, data)
        cli.put(img, IMAGES[b])
        flags = [f for f, on in zip(("--force", "--update", "--auto-convert", "--auto-scale"), case[3]) if on]
        with cli.PIL(size=size):
            r = cli.run("thumbnail", *flags, lv, img)
        ctx.step()
        got = cli.files(d)
        same(set(got), {"level", "image.bmp"}, "files")
        if not (update or convert or scale):
            if force:
                require(r.code == 0, "extracting failed", r)
                same(got, {"level": data, "image.bmp": IMAGES[a]}, "files after extracting")
            else:
                require(r.code != 0, "overwrote an existing image", r)
                same(got, {"level": data, "image.bmp": IMAGES[b]}, "files after a refused extraction")
            return
        require(r.code == 0, "update failed", r)
        same(got["image.bmp"], IMAGES[b], "image after the update")
        new = IMAGES[b]
        if scale:
            new = cli.encoded(IMAGES[b], (382, 182), "PNG")
        elif convert:
            new = cli.encoded(IMAGES[b], size, "PNG")
        compare(got["level"], taken(v), new, regions(2))
        ctx.state(case)
    finally:
        shutil.rmtree(d)


# --- transform ---------------------------------------------------------------------


def with_type(spec, typ):
    items = [(k, t) for k, t in spec["vars"][1] if k != "level_type"]
    if typ is not None:
        items.append(("level_type", ("i", typ)))
    return dict(spec, vars=("S", tuple(items)))


def lvl_spec(v, typ):
    s = with_type(spec_of(v), typ)
    # prop positions are stored as whole pixels
    for key in ("props", "bd_props"):
        s[key] = {k: (l, float(int(x)), float(int(y)), p) for k, (l, x, y, p) in s[key].items()}
    return ref.stored_level(s)


def transform(ctx, case, run, same_file=False):
    v, typ, f, rot, vf, hf, ox, oy = case
    spec = lvl_spec(v, typ)
    from dustmaker import write_level

    data = write_level(ref.build_level(spec))
    d = ctx.tmpdir()
    try:
        src, dst = os.path.join(d, "in"), os.path.join(d, "out")
        cli.put(src, data)
        if same_file:
            dst = src
        args = []
        if f != 1:
            args += ["--upscale", f]
        if rot:
            args += [f"--rotate={rot}"]
        if vf:
            args.append("--vflip")
        if hf:
            args.append("--hflip")
        if ox:
            args.append(f"--translate-x={ox}")
        if oy:
            args.append(f"--translate-y={oy}")
        r = run("transform", *args, src, dst)
        ctx.step()
        require(r.code == 0, "transform failed", r)
        if not same_file:
            same(cli.get(src), data, "input file")
        try:
            got, _ = ref.decode_level(cli.get(dst))
        except ref.FormatError as e:
            raise Violated(f"output is not well formed: {e}") from e
    finally:
        shutil.rmtree(d)
    m = G.ROT[rot % 4]
    if vf:
        m = G.mul(G.VFLIP, m)
    if hf:
        m = G.mul(G.HFLIP, m)
    want_typ = 6 if f > 1 and typ in (None, 0) else typ
    got_typ = dict(got["vars"][1]).get("level_type")
    if want_typ is None:
        require(got_typ in (None, ("i", 0)), "level type became", got_typ)
        want_typ = None if got_typ is None else 0
    else:
        same(got_typ, ("i", want_typ), "level type")
    Model(spec).apply(ctx, got, m, f, ox, oy, f"transform {case}", post=lambda s: ref.stored_level(with_type(s, want_typ)))
    ctx.state(case)


def g_tx(tier):
    fs = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    offs = ((0, 0), (768, -1536), (48, 96), (-72, 24.5))
    for f in fs:
        for rot in range(-5, 6) if tier == "thorough" else (-3, -1, 0, 1, 2, 3, 5):
            for vf in (0, 1):
                for hf in (0, 1):
                    for o in offs:
                        yield (f, None, f, rot, vf, hf) + o
    for rot in (*range(-17, 18), 100, -101, 1001, 2**31, -(2**40) + 1):
        yield (11, 6, 1, rot, 0, 0, 0, 0)
        yield (12, None, 2, rot, 0, 1, 48, 0)
    for typ in (None, 0, 1, 2, 3, 4, 6):
        for f in (1, 2):
            for rot, vf, hf in ((0, 0, 0), (1, 1, 0), (2, 0, 1)):
                for o in offs[:2]:
                    yield (7, typ, f, rot, vf, hf) + o
    for f in (4, 5, 6, 7, 8, 16, 17):
        for typ in (None, 0, 1, 6):
            for ox, oy in ((0, 0), (768, 0), (0, -768)):
                yield (7, typ, f, f % 4, 0, 0, ox, oy)
        for ox, oy in ((0, 25), (25, 0), (0, -7.5), (-100, 0), (0, 1), (47, -49)):
            for flip in (0, 1):
                yield (7 if flip else 3, None, f, (f + flip) % 4, 0, flip, ox, oy)
    for ox, oy in itertools.product((0, 1, -1, 23, 24, -24, 25, 48, 384, -768, 0.5, 100.25), repeat=2):
        for f, rot in ((1, 0), (2, 1)):
            yield (3, 6, f, rot, 0, 1, ox, oy)


@PROP.family(g_tx, "all combinations of upscale 1-3 (thorough 4), larger factors up to 17 with shifts of one axis, rotations -5..5, both flips and 4 shifts, rotations by up to 17 and far more quarter turns, all level types, 144 shifts around tile sizes: output decoded independently and compared with the exact image; input unchanged")
def transforms(ctx, case):
    transform(ctx, case, cli.run)


def g_inplace(tier):
    yield (2, None, 2, 1, 1, 0, 768, 0)
    yield (5, 0, 1, -1, 0, 1, 0, -48)
    yield (9, 6, 3, 0, 0, 0, 0, 0)
    yield (0, 4, 1, 0, 0, 0, 0, 0)


@PROP.family(g_inplace, "output over the input file")
def inplace(ctx, case):
    transform(ctx, case, cli.run, same_file=True)


def g_spawn(tier):
    yield ("thumb", (1, 2, 3, 1))
    yield ("thumb", (0, 0, 2, 0))
    yield ("tx", (2, None, 2, 1, 1, 0, 768, -48))
    yield ("tx", (4, 6, 1, -1, 0, 1, 0, 0))
    yield ("help", ())
    yield ("help", ("--help",))


@PROP.family(g_spawn, "the same through separate python -m dustmaker and python -m dustmaker.cmd.<utility> processes; without a command the usage is shown")
def programs(ctx, case):
    if case[0] == "help":
        for run in (cli.run, cli.spawn):
            r = run(*case[1])
            ctx.step()
            require(r.code == 0, "help failed", r)
            for w in ("thumbnail", "transform", "variables", "saveconvert"):
                require(w in r.out, "the usage does not name", w, r)
        return
    for run in (cli.spawn, cli.standalone):
        (thumb if case[0] == "thumb" else transform)(ctx, case[1], run)


SIZES = (0, 10, 4000, 9000, 70000, 1200000)


def g_over(tier):
    for a in range(len(SIZES)):
        for b in range(len(SIZES)):
            yield (a, b)


@PROP.family(g_over, "thumbnails of all pairs of 6 sizes up to 1.2 MB replacing each other in the level, extracted over files of these sizes, and levels of these sizes transformed over files of these sizes; also with data behind the end of the level")
def replacing(ctx, case):
    a, b = case

    def img(i):
        return bytes(range(256)) * (SIZES[i] // 256) + b"i" * (SIZES[i] % 256)

    d = ctx.tmpdir()
    try:
        lv, im, out = (os.path.join(d, x) for x in ("level", "image.png", "out"))
        data = {i: ref.enc_level(44, VARMAPS[2], img(i), regions(3), next_id=1000) for i in (a, b)}
        for junk in (b"", b"q", b"DF_LVL" * 1000):
            cli.put(lv, data[a] + junk)
            cli.put(im, img(b))
            r = cli.run("thumbnail", "--update", lv, im)
            ctx.step()
            require(r.code == 0, "update failed", r)
            got = cli.get(lv)
            if junk and got != data[b] and got.endswith(junk):
                got = got[: -len(junk)]
            if got != data[b]:
                compare(got, VARMAPS[2], img(b), regions(3))
            cli.put(lv, data[b] + junk)
            cli.put(im, img(a))
            r = cli.run("thumbnail", "--force", lv, im)
            ctx.step()
            require(r.code == 0, "extracting failed", r)
            require(cli.get(im) == img(b), "extracted image differs")
            res = []
            for was in (None, b"", img(a), data[a]):
                cli.put(lv, data[b] + junk)
                if was is None:
                    if os.path.exists(out):
                        os.unlink(out)
                else:
                    cli.put(out, was)
                r = cli.run("transform", "--translate-x=48", lv, out)
                ctx.step()
                require(r.code == 0, "transform failed", r)
                res.append(cli.get(out))
                require(cli.get(lv) == data[b] + junk, "input file changed")
                require(res[-1] == res[0], "the output depends on the file it replaces; lengths", len(res[-1]), len(res[0]))
            same(int.from_bytes(res[0][8:12], "little"), len(res[0]), "size field of the output")
        ctx.state(case)
    finally:
        shutil.rmtree(d)
