"""C27: a failing command never damages existing files."""
import itertools
import json
import os
import shutil

from mc import cli
from mc import levelcases as L
from mc import ref
from mc.core import Prop, Violated, require, same
from mc.props.c09 import regions
from mc.props.c25 import HEADERS, MAPS, SSHOTS, make_file, var_file

PROP = Prop("C27")
PROP.assumptions = [
    "failures of the final write of the finished contents itself (disk full, power loss) are outside the claim",
]


def spec_level():
    spec = ref.empty_level()
    for kind, pos in (("t", (1, 2)), ("p", (3, 4)), ("e", (-5, 6)), ("b", (0, 1)), ("q", (2, 2))):
        L.put(spec, kind, pos)
    spec["tiles"] = {(19, 1, 2): (3, 4, 3, 6, 1, tuple((True, True, (True, False), (45, -22), s, False, (True, False), (7, 0)) for s in range(4)))}
    spec["vars"] = ("S", (("level_type", ("i", 6)), ("s", ("s", b"text"))))
    spec["sshot"] = b"png bytes"
    return spec


def level_bytes():
    from dustmaker import write_level

    return write_level(ref.build_level(spec_level()))


def score(name=b"downhill", **kw):
    items = {
        "file_name": ("s", name), "combo": ("i", 1), "time": ("f", 2.5), "thorough": ("f", 0.5),
        "best_time": ("f", 2.0), "overall": ("i", 4),
    }
    items.update(kw)
    return ("S", tuple((k, v) for k, v in items.items() if v is not None))


STATS = ("S", (("citybook", ("i", 1)), ("red_used", ("i", 2)), ("score", ("A", "S", (score(), score(b"den"))))))
GOOD_JSON = json.dumps({"vars": {"a": 1, "s": "x"}, "schema": {"a": "int", "s": "string"}})


class Box:
    """Scratch directory with bystanders; checks that a failure leaves it alone."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.d = ctx.tmpdir()
        cli.put(self.path("bystander"), b"do not touch")

    def path(self, name):
        return os.path.join(self.d, name)

    def put(self, name, data):
        return cli.put(self.path(name), data)

    def run(self, *argv, must_fail=False, what="", runner=cli.run):
        before = cli.files(self.d)
        r = runner(*argv)
        self.ctx.step()
        after = cli.files(self.d)
        if must_fail:
            require(r.code != 0, "expected the command to fail", what, argv, r)
        if r.code != 0:
            self.ctx.outcome("failed, files intact")
            for k, v in before.items():
                if after.get(k) != v:
                    raise Violated(f"{what} {argv}: failed ({r.exc!r}, exit {r.code}) but {k} changed from {len(v)} bytes to {None if k not in after else len(after[k])} bytes")
            extra = sorted(set(after) - set(before))
            require(not extra, what, argv, f"failed ({r.exc!r}, exit {r.code}) but left new files", extra)
        else:
            self.ctx.outcome("succeeded")
        return r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def g_docs(tier):
    for target in ("lvl", "lvl0", 0, 1, 2, "head", "headnew"):
        for i in range(len(DOCS)):
            yield (target, i)


B = b"\x00\xff bad"
DOCS = [
    b"", b"{", b"null", b"[]", b"3", b'"x"', b"\xff\xfe", b"{}", b'{"vars": {}}', b'{"schema": {}}', b'{"schema": 3, "vars": {}}',
    b'{"schema": null, "vars": null}', b'{"schema": [], "vars": [1]}', b'{"schema": ["int"], "vars": [1]}', b'{"schema": "int", "vars": 3}',
    b'{"schema": "string", "vars": "abc"}', b'{"schema": "vec2", "vars": [1.0, 2.0]}', b'{"schema": {"a": "int"}, "vars": {"b": 1}}',
    b'{"schema": {"a": "nope"}, "vars": {"a": 1}}', b'{"schema": {"a": "int"}, "vars": {"a": "1"}}', b'{"schema": {"a": "int"}, "vars": {"a": 2147483648}}',
    b'{"schema": {"a": "uint"}, "vars": {"a": -1}}', b'{"schema": {"a": "uint"}, "vars": {"a": 4294967296}}', b'{"schema": {"a": "int"}, "vars": {"a": null}}',
    b'{"schema": {"a": "int"}, "vars": {"a": [1]}}', b'{"schema": {"a": ["int"]}, "vars": {"a": 1}}', b'{"schema": {"a": ["int"]}, "vars": {"a": ["x"]}}',
    b'{"schema": {"a": {"b": "int"}}, "vars": {"a": {"c": 1}}}', b'{"schema": {"a": {"b": "int"}}, "vars": {"a": 1}}',
    b'{"schema": {"a": "string"}, "vars": {"a": 5}}', '{"schema": {"a": "string"}, "vars": {"a": "\u20ac"}}'.encode(),
    b'{"schema": {"a b": "int"}, "vars": {"a b": 1}}', '{"schema": {"\u00e9": "int"}, "vars": {"\u00e9": 1}}'.encode(),
    b'{"schema": {"%s": "int"}, "vars": {"%s": 1}}' % (b"k" * 64, b"k" * 64),
    b'{"schema": {"z": "string", "a": {"x-y": "int"}}, "vars": {"z": "ok", "a": {"x-y": 1}}}',
    b'{"schema": {"z": ["string"], "a": [{"x-y": "int"}]}, "vars": {"z": ["ok"], "a": [{}, {"x-y": 1}]}}',
    b'{"schema": {"f": "float"}, "vars": {"f": NaN}}', b'{"schema": {"f": "float"}, "vars": {"f": Infinity}}', b'{"schema": {"f": "float"}, "vars": {"f": -Infinity}}',
    b'{"schema": {"v": "vec2"}, "vars": {"v": [1.0]}}', b'{"schema": {"v": "vec2"}, "vars": {"v": [1.0, NaN]}}', b'{"schema": {"v": "vec2"}, "vars": {"v": 1.0}}',
    b'{"schema": {"b": "bool"}, "vars": {"b": 1}}', b'{"schema": {"b": "bool"}, "vars": {"b": "true"}}',
    b'{"schema": {"a": []}, "vars": {"a": [1]}}', b'{"schema": {"a": [[]]}, "vars": {"a": [[1]]}}',
    b'{"schema": {"a": "int"}, "vars": []}', b'{"schema": {"a": "int"}, "vars": "abc"}', b'{"schema": {"a": "int"}, "vars": {"a": 1}} x',
]


@PROP.family(g_docs, "51 unusable JSON documents (syntax, missing parts, unknown types, wrong and unrepresentable values, unstorable keys at several depths) on every kind of file: the update fails and leaves every file as it was")
def documents(ctx, case):
    target, i = case
    with Box(ctx) as box:
        js = box.put("doc.json", DOCS[i])
        args = []
        obj = box.path("object")
        if target == "lvl":
            box.put("object", make_file("lvl", MAPS[3]))
        elif target == "lvl0":
            box.put("object", make_file("lvl", MAPS[1], n=0))
        elif target == "head":
            box.put("object", b"something precious")
            args = ["--header", "DF_CFG"]
        elif target == "headnew":
            args = ["--header", "DF_CFG"]
        else:
            box.put("object", make_file(target, MAPS[3]))
        box.run("variables", *args, obj, js, must_fail=True, what=DOCS[i])
        ctx.state(target, i)


def g_prefix(tier):
    for target in ("lvl", 0):
        for n in range(len(GOOD_JSON)):
            yield (target, n)


@PROP.family(g_prefix, "every proper prefix of a JSON document")
def json_prefixes(ctx, case):
    target, n = case
    with Box(ctx) as box:
        js = box.put("doc.json", GOOD_JSON.encode()[:n])
        obj = box.put("object", make_file(target, MAPS[2]))
        box.run("variables", obj, js, must_fail=True, what=f"{n} bytes of JSON")
        ctx.state(case)


def commands(box, data):
    """Every way to run every command with data as its input file."""
    js = box.put("doc.json", GOOD_JSON.encode())
    img = box.put("img", b"image data")
    obj = box.put("object", data)
    out = box.put("out", b"old output")
    return {
        "variables": ("variables", obj),
        "variables update": ("variables", obj, js),
        "thumbnail": ("thumbnail", obj, img),
        "thumbnail force": ("thumbnail", "--force", obj, img),
        "thumbnail update": ("thumbnail", "--update", obj, img),
        "thumbnail convert": ("thumbnail", "--auto-convert", obj, img),
        "thumbnail scale": ("thumbnail", "--auto-scale", obj, img),
        "transform": ("transform", obj, out),
        "transform inplace": ("transform", "--hflip", obj, obj),
        "transform upscale": ("transform", "--upscale", "2", obj, out),
        "saveconvert": ("saveconvert", obj, out),
        "saveconvert inplace": ("saveconvert", obj, obj),
    }


NAMES = (
    "variables", "variables update", "thumbnail", "thumbnail force", "thumbnail update", "thumbnail convert", "thumbnail scale",
    "transform", "transform inplace", "transform upscale", "saveconvert", "saveconvert inplace",
)


def inputs():
    return {
        "level": level_bytes(),
        "level2": make_file("lvl", MAPS[2]),
        "level0": make_file("lvl", MAPS[1], n=0, s=0),
        "stats": var_file(b"DF_STA", STATS),
        "config": var_file(b"DF_CFG", MAPS[3]),
        "replay": b"DF_RPL4" + bytes(40),
    }


def g_cut(tier):
    for name in ("level", "level2", "level0", "stats", "config"):
        for n in range(0, len(inputs()[name])):
            yield (name, n)


@PROP.family(g_cut, "every command on every proper prefix of level, save and config files: if it fails nothing changes")
def truncated(ctx, case):
    name, n = case
    data = inputs()[name][:n]
    for c in NAMES:
        if name in ("stats", "config") and c.startswith(("thumb", "transform")) and n > 7:
            continue
        with Box(ctx) as box:
            box.run(*commands(box, data)[c], what=f"{c} on {n} bytes of {name}")
    ctx.state(case)


WRONG = {
    "variables": ("replay", "junk", "empty"),
    "variables update": ("replay", "junk", "empty"),
    "thumbnail": ("stats", "config", "replay", "junk", "empty"),
    "thumbnail force": ("stats", "config", "replay", "junk", "empty"),
    "thumbnail update": ("stats", "config", "replay", "junk", "empty"),
    "transform": ("stats", "config", "replay", "junk", "empty"),
    "transform inplace": ("stats", "config", "replay", "junk", "empty"),
    "transform upscale": ("stats", "config", "replay", "junk", "empty"),
    "saveconvert": ("level", "config", "replay", "junk", "empty"),
    "saveconvert inplace": ("level", "config", "replay", "junk", "empty"),
}


def g_wrong(tier):
    for c, names in WRONG.items():
        for n in names:
            yield (c, n)
        yield (c, None)
    for v in range(42, -1, -1):
        yield ("old level", v)


@PROP.family(g_wrong, "every command on files of another kind, missing files and unsupported level versions")
def wrong_files(ctx, case):
    c, n = case
    with Box(ctx) as box:
        if c == "old level":
            data = bytearray(level_bytes())
            data[6] = n
            for c2 in ("variables update", "thumbnail update", "transform", "transform inplace"):
                box.run(*commands(box, bytes(data))[c2], must_fail=True, what=f"{c2} on level version {n}")
            return
        data = {"junk": b"\x7fELF" + bytes(range(200)), "empty": b""}.get(n, inputs().get(n))
        cmd = commands(box, data or b"")[c]
        if n is None:
            os.unlink(box.path("object"))
        box.run(*cmd, must_fail=True, what=f"{c} on {n}")
        if n is None:
            require(not os.path.exists(box.path("object")), c, "created its input file")
        ctx.state(case)


def g_args(tier):
    for i in range(len(ARGS)):
        yield i


ARGS = [
    ("variables", "--header", "DF_LVL", "OBJ", "JS"),
    ("variables", "--header", "DF_XXX", "OBJ", "JS"),
    ("variables", "--header", "", "DIR", "JS"),
    ("variables", "OBJ", "MISSING"),
    ("variables", "OBJ", "DIR"),
    ("variables", "--indent", "x", "OBJ"),
    ("thumbnail", "OBJ", "IMG"),
    ("thumbnail", "--update", "OBJ", "MISSING"),
    ("thumbnail", "--update", "OBJ", "DIR"),
    ("thumbnail", "--force", "OBJ", "DIR"),
    ("thumbnail", "--update", "OBJ", "NODIR"),
    ("transform", "OBJ", "DIR"),
    ("transform", "OBJ", "NODIR"),
    ("transform", "--upscale", "x", "OBJ", "OUT"),
    ("transform", "--rotate", "0.5", "OBJ", "OUT"),
    ("transform", "--translate-x", "nan", "OBJ", "OUT"),
    ("transform", "--translate-y", "nan", "OBJ", "OBJ"),
    ("transform", "--translate-x", "inf", "OBJ", "OBJ"),
    ("transform", "--translate-y=-inf", "OBJ", "OUT"),
    ("transform", "OBJ"),
    ("transform", "MISSING", "OUT"),
    ("saveconvert", "MISSING", "OUT"),
    ("saveconvert", "STATS", "DIR"),
    ("saveconvert", "STATS"),
    ("nonsense", "OBJ"),
    ("variables", "--header", "DF_LVL", "OUT", "JS"),
    ("variables", "--header", "DF_XXX", "OUT", "JS"),
    ("variables", "--header", "df_sta", "OUT", "JS"),
    ("variables", "--header", "DF_sta", "OBJ", "JS"),
    ("variables", "--header", "DF_STAT", "OUT", "JS"),
    ("variables", "--header", " DF_STA", "OBJ", "JS"),
    ("variables", "--header", "DF_ST", "OUT", "JS"),
    ("variables", "--header", "DF_RPL", "OUT", "JS"),
    ("variables", "--header", "DF_STA", "OUT", "MISSING"),
    ("variables", "--header", "DF_STA", "NODIR", "JS"),
    ("variables", "MISSING", "JS"),
    ("variables", "MISSING"),
    ("variables", "DIR"),
    ("thumbnail", "MISSING", "OUT"),
    ("thumbnail", "OBJ", "NODIR"),
    ("thumbnail", "--update", "MISSING", "IMG"),
    ("saveconvert", "OBJ", "OUT"),
    ("saveconvert", "STATS", "NODIR"),
    ("transform", "JS", "OUT"),
    ("transform", "STATS", "OUT"),
]


@PROP.family(g_args, "45 unusable command lines: missing files, directories in place of files, bad option values, refused headers")
def arguments(ctx, i):
    with Box(ctx) as box:
        commands(box, level_bytes())
        box.put("stats", var_file(b"DF_STA", STATS))
        os.mkdir(box.path("dir"))
        sub = {
            "OBJ": box.path("object"), "JS": box.path("doc.json"), "MISSING": box.path("missing"), "DIR": box.path("dir"),
            "IMG": box.path("img"), "OUT": box.path("new-output"), "NODIR": box.path("none/x"), "STATS": box.path("stats"),
        }
        box.run(*[sub.get(a, a) for a in ARGS[i]], must_fail=True, what=str(ARGS[i]))
        require(not os.path.exists(box.path("missing")), "a missing input was created")
        ctx.state(i)


def g_images(tier):
    for name in ("level", "level2", "level0"):
        for flag in ("--auto-convert", "--auto-scale", "both", "all"):
            for how in ("missing", "open", "resize", "save", "mid save", "no image", "directory"):
                yield (name, flag, how)


@PROP.family(g_images, "image conversion without the imaging library or failing at each of its steps: the command fails and leaves every file as it was")
def images(ctx, case):
    name, flag, how = case
    with Box(ctx) as box:
        commands(box, inputs()[name])
        img = {"no image": "none", "directory": "dir"}.get(how, "img")
        os.mkdir(box.path("dir"))
        flags = {"both": ("--auto-convert", "--auto-scale"), "all": ("--force", "--update", "--auto-scale")}.get(flag, (flag,))
        must = how != "resize" or flag != "--auto-convert"
        with cli.PIL(present=how != "missing", fail=how):
            box.run("thumbnail", *flags, box.path("object"), box.path(img), must_fail=must, what=f"{flag}, {how}")
        require(not os.path.exists(box.path("none")), "created the image")
        ctx.state(case)


def g_far(tier):
    vals = ("1e5", "-1e7", "1e9", "-1e10", "1e12", "1e15", "-1e18", "1e30", "1e300", "-1e308")
    for v in vals:
        for a in ("x", "y"):
            for up in (1, 2):
                yield (v, a, up)


@PROP.family(g_far, "shifts that leave the range of the format: if the command fails nothing changes")
def unstorable_shift(ctx, case):
    v, a, up = case
    with Box(ctx) as box:
        obj = box.put("object", level_bytes())
        out = box.put("out", b"old output")
        box.run("transform", "--upscale", up, f"--translate-{a}={v}", obj, out, what="far shift")
        box.run("transform", "--upscale", up, f"--translate-{a}={v}", obj, obj, what="far shift in place")
        ctx.state(case)


BAD_STATS = [
    ("S", (("score", ("A", "S", (score(combo=None),))),)),
    ("S", (("score", ("A", "S", (score(), score(time=None)))),)),
    ("S", (("score", ("A", "S", (score(thorough=None),))),)),
    ("S", (("score", ("A", "S", (score(best_time=None),))),)),
    ("S", (("score", ("A", "S", (score(overall=None),))),)),
    ("S", (("score", ("A", "S", (("S", ()),))),)),
    ("S", (("score", ("A", "S", (score(combo=("s", b"x")),))),)),
    ("S", (("score", ("A", "S", (score(time=("i", 3)),))),)),
    ("S", (("score", ("A", "i", (("i", 1),))),)),
    ("S", (("score", ("i", 4)),)),
    ("S", (("red_used", ("s", b"x")), ("score", ("A", "S", ())))),
]


def g_stats(tier):
    for i in range(len(BAD_STATS)):
        for place in ("out", "object"):
            yield (i, place)


@PROP.family(g_stats, "saves with missing or mistyped score entries: the conversion fails and leaves the output as it was")
def bad_saves(ctx, case):
    i, place = case
    with Box(ctx) as box:
        obj = box.put("object", var_file(b"DF_STA", BAD_STATS[i]))
        box.put("out", b"old output")
        box.run("saveconvert", obj, box.path(place), must_fail=True, what=f"save {BAD_STATS[i]}")
        ctx.state(case)


class Boom(Exception):
    """Injected failure."""


def injected(method_names, k, fn):
    """Run fn with the k-th call of the given stream methods failing; returns (result, calls)."""
    from dustmaker import bitio

    count = [0]
    saved = []

    def wrap(orig):
        def call(self, *a, **kw):
            count[0] += 1
            if k is not None and count[0] > k:
                raise Boom(f"injected at call {k + 1}")
            return orig(self, *a, **kw)

        return call

    for cls, name in method_names:
        cls = getattr(bitio, cls)
        orig = cls.__dict__.get(name)
        if orig is None:
            continue
        saved.append((cls, name, orig))
        setattr(cls, name, wrap(orig))
    try:
        return fn(), count[0]
    finally:
        for cls, name, orig in saved:
            setattr(cls, name, orig)


WRITER = (("BitIOWriter", "write"), ("BitIOWriter", "write_bytes"))
READER = (("BitIOReader", "read"), ("BitIOReader", "read_bytes"))
FAULTY = (("variables update", "level"), ("variables update", "stats"), ("thumbnail update", "level"), ("transform", "level"),
          ("transform inplace", "level"), ("transform upscale", "level"), ("saveconvert", "stats"), ("saveconvert inplace", "stats"))


def g_fault(tier):
    # the number of calls is measured by the case itself; blocks of points keep cases balanced
    for c, n in FAULTY:
        for side in ("w", "r"):
            for block in range(16):
                yield (c, n, side, block)


@PROP.family(g_fault, "every updating command with a failure injected at every single call that serializes its result or reads its input: all files stay as they were")
def faults(ctx, case):
    c, n, side, block = case
    methods = WRITER if side == "w" else READER
    data = inputs()[n]
    with Box(ctx) as box:
        cmd = commands(box, data)[c]
        r, total = injected(methods, None, lambda: cli.run(*cmd))
        require(r.code == 0, "command failed without a fault", cmd, r)
    ctx.outcome("fault points", len(range(block, total, 16)))
    for k in range(block, total, 16):
        with Box(ctx) as box:
            cmd = commands(box, data)[c]
            r, _ = injected(methods, k, lambda: box.run(*cmd, what=f"{c}, failure injected at {'write' if side == 'w' else 'read'} {k + 1} of {total}"))
            require(r.code != 0, "the injected failure was swallowed", cmd, k)
    ctx.state(case)


def g_regionless(tier):
    for a in range(len(MAPS)):
        for b in range(len(MAPS)):
            for s in (0, 1):
                yield (a, b, s)


@PROP.family(g_regionless, "levels without regions are updated like any other level")
def regionless(ctx, case):
    a, b, s = case
    with Box(ctx) as box:
        obj = box.put("object", make_file("lvl", MAPS[a], n=0, s=s))
        other = box.put("other", make_file("lvl", MAPS[b], n=0, s=s))
        r = cli.run("variables", other)
        require(r.code == 0, "export failed", r)
        js = box.put("doc.json", r.out.encode())
        r = box.run("variables", obj, js)
        require(r.code == 0, "update failed", r)
        same(cli.get(obj), cli.get(other), "updated level without regions")
        img = box.put("img", b"new image")
        r = box.run("thumbnail", "--update", obj, img)
        require(r.code == 0, "thumbnail update failed", r)
        r = box.run("transform", "--upscale", "2", obj, box.path("new"))
        require(r.code == 0, "transform failed", r)
        ctx.state(case)


def g_spawn(tier):
    for i in (31, 33, 20, 0):
        yield i


@PROP.family(g_spawn, "four failing updates through separate python -m dustmaker processes")
def programs(ctx, i):
    with Box(ctx) as box:
        js = box.put("doc.json", DOCS[i])
        obj = box.put("object", make_file("lvl", MAPS[3]))
        box.run("variables", obj, js, must_fail=True, what=DOCS[i], runner=cli.spawn)
        ctx.state(i)
