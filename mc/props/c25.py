"""C25: JSON export and import of variables is lossless."""
import io
import itertools
import json
import os
import shutil

from mc import cli
from mc import levelcases as L
from mc import ref
from mc.core import REPO, Prop, Violated, raises, require, same
from mc.props.c04 import KINDS, LEAVES, ONE, wraps
from mc.props.c09 import regions

PROP = Prop("C25")
PROP.assumptions = [
    "files of the current format version (older levels are rewritten in the current version)",
    "variables fit the file format; floats compared at its resolution where they go through a file",
]


class Refuse(Exception):
    """No single schema describes the tree."""


def unify(a, b):
    """Most general layout of two layouts; None = unknown element layout."""
    if a is None or b is None:
        return b if a is None else a
    if a[0] != b[0]:
        raise Refuse
    if a[0] == "A":
        return ("A", unify(a[1], b[1]))
    if a[0] == "S":
        out = dict(a[1])
        for k, v in b[1].items():
            out[k] = unify(out.get(k), v)
        return ("S", out)
    return a


def layout(t):
    if t[0] == "S":
        return ("S", {k: layout(v) for k, v in t[1]})
    if t[0] == "A":
        elem = ("S", {}) if t[1] == "S" else ("A", None) if t[1] == "A" else (t[1],)
        for e in t[2]:
            elem = unify(elem, layout(e))
        return ("A", elem)
    return (t[0],)


def describable(t):
    try:
        layout(t)
    except Refuse:
        return False
    return True


def round_trip(ctx, tree):
    from dustmaker.cmd.variables import json_to_variables, variables_to_json

    var = ref.build_var(tree)
    ctx.step(2)
    if not describable(tree):
        raises(ValueError, variables_to_json, var)
        ctx.outcome("refused")
        return
    schema, jv = variables_to_json(var)
    same(ref.snap_var(var), tree, "variable after the export")
    back = json_to_variables(schema, jv)
    same(ref.snap_var(back), tree, "variable imported again")
    require(back == var, "imported variable is not equal to the exported one")
    for kw in ({}, {"indent": 4}, {"ensure_ascii": False, "sort_keys": False}):
        s2, j2 = json.loads(json.dumps([schema, jv], **kw))
        same(ref.snap_var(json_to_variables(s2, j2)), tree, "variable imported from JSON text")
    ctx.outcome("lossless")
    ctx.state(tree)


def g_leaves(tier):
    for k in "biufsv":
        for t in LEAVES[k]:
            yield t
    for b in range(256):
        yield ("s", bytes([b]))
    for f in (1e-9, 1e300, -0.1, 1 / 3, 123456789.123456789, 2.0**-40):
        yield ("f", f)
        yield ("v", (f, -f))


@PROP.family(g_leaves, "every leaf of the alphabets incl. all 256 byte values, bare and in structs and arrays")
def leaves(ctx, t):
    for tree in (t, ("S", (("k", t),)), ("A", t[0], (t, t)), ("A", "S", (("S", (("k", t),)), ("S", ())))):
        round_trip(ctx, tree)


def g_nest(tier):
    for k in KINDS:
        yield (k, False)
        yield (k, True)


@PROP.family(g_nest, "all nestings of structs and arrays of depth up to 4 (thorough 5) around every kind, and around empty arrays and structs")
def nesting(ctx, case):
    k, empty = case
    depth = 5 if ctx.tier == "thorough" else 4
    bases = (("A", k, ()), ("S", ()), ("A", "A", (("A", k, ()), ("A", k, (ONE[k],))))) if empty else (ONE[k],)
    for base in bases:
        for t in wraps(base, depth):
            round_trip(ctx, t)


def small(depth):
    """All trees of the given depth over tiny alphabets."""
    if depth == 0:
        return [("i", 1), ("s", b"\xe9"), ("b", True)]
    sub = small(depth - 1)
    out = list(small(0)) if depth > 1 else list(sub)
    kinds = sorted({t[0] for t in sub})
    for k in sorted(set(kinds) | {"i", "S", "A"}):
        of = [t for t in sub if t[0] == k]
        out.append(("A", k, ()))
        out += [("A", k, (t,)) for t in of]
        if depth <= 2:
            out += [("A", k, p) for p in itertools.product(of, repeat=2)]
    out.append(("S", ()))
    out += [("S", (("x", t),)) for t in sub]
    if depth <= 1:
        out += [("S", (("x", t), ("y", u))) for t in sub for u in sub]
    return out


def g_small(tier):
    for i, t in enumerate(small(2)):
        yield t
    sub = [t for t in small(2) if t[0] in "SA"]
    # pairs of containers inside an array: every combination of layouts
    for k in "SA":
        of = [t for t in sub if t[0] == k]
        step = 1 if tier == "thorough" else 1
        for a in of[::step]:
            for b in of if tier == "thorough" else of[:60]:
                yield ("A", k, (a, b))
    if tier == "thorough":
        for t in small(3):
            yield t


@PROP.family(g_small, "all trees of depth 2 (thorough 3) with up to two elements per container over int, string, bool, and all arrays of two of them: lossless if one schema describes the tree, else refused with ValueError")
def trees(ctx, t):
    round_trip(ctx, t)


def g_triples(tier):
    elems = [("A", "i", ()), ("A", "i", (("i", 1),)), ("A", "s", ()), ("A", "A", ()), ("A", "A", (("A", "i", ()),)), ("A", "A", (("A", "s", ()),)),
             ("A", "S", ()), ("A", "S", (("S", (("k", ("i", 1)),)),)), ("A", "S", (("S", (("k", ("s", b"")),)),)), ("A", "S", (("S", (("j", ("b", True)),)),))]
    for n in (3, 4) if tier == "thorough" else (3,):
        for seq in itertools.product(elems, repeat=n):
            yield ("A", "A", seq)
    st = [("S", ()), ("S", (("k", ("i", 1)),)), ("S", (("k", ("s", b"")),)), ("S", (("k", ("A", "A", ())),)), ("S", (("k", ("A", "i", ())),)),
          ("S", (("k", ("A", "A", (("A", "u", (("u", 9),)),))),)), ("S", (("j", ("f", 0.5)), ("k", ("S", (("k", ("b", False)),)))))]
    for n in (3, 4) if tier == "thorough" else (3,):
        for seq in itertools.product(st, repeat=n):
            yield ("A", "S", seq)


@PROP.family(g_triples, "all arrays of three (thorough also four) arrays or structs out of ten resp. seven layouts with known and unknown element types")
def triples(ctx, t):
    round_trip(ctx, t)


# --- command line -----------------------------------------------------------------

HEADERS = (b"DF_STA", b"DF_CFG", b"DF_FOG")
MAPS = (
    ("S", ()),
    ("S", (("a", ("i", -1)),)),
    ("S", (("zz", ("b", True)), ("aa", ("u", 2**32 - 1)), ("s", ("s", bytes(range(256)))), ("v", ("v", (0.5, -0.25))), ("f", ("f", -1.75)))),
    ("S", (("arr", ("A", "s", (("s", b"x"), ("s", b"")))), ("e", ("A", "A", ())), ("st", ("S", (("in", ("A", "S", (("S", ()), ("S", (("k", ("i", 3)),))))),))))),
    ("S", (("nest", ("A", "A", (("A", "i", (("i", 1), ("i", 2))), ("A", "i", ())))),)),
    ("S", tuple((f"k{i:02}", ("i", i)) for i in range(40))),
    ("S", (("a", ("b", True)), ("b", ("b", False)), ("c", ("b", True)))),
)
SSHOTS = (b"", b"\x89PNG" + bytes(range(64)))


def level_file(tree, sshot, n):
    return ref.enc_level(44, tree, sshot, regions(n), next_id=1000 + n)


def var_file(header, tree):
    body = ref.bits_bytes(ref.enc_var(tree))
    return header + b"\x01\x00" + (len(header) + 6 + len(body)).to_bytes(4, "little") + body


def make_file(kind, tree, n=2, s=1):
    if kind == "lvl":
        return level_file(tree, SSHOTS[s], n)
    return var_file(HEADERS[kind], tree)


def g_cli(tier):
    for kind in ("lvl", 0, 1, 2):
        for a in range(len(MAPS)):
            for b in range(len(MAPS)):
                yield (kind, a, b, 4, 2, 1)
    for n in (0, 1, 3):
        for s in (0, 1):
            for a, b in ((0, 2), (1, 3), (2, 0), (3, 3), (6, 5)):
                for ind in (0, 1, 2):
                    yield ("lvl", a, b, ind, n, s)


def export(ctx, path, indent, spawn=None):
    r = (spawn or cli.run)("variables", path, *(() if indent == 4 else ("--indent", indent)))
    ctx.step()
    require(r.code == 0, "export failed", r)
    doc = json.loads(r.out)
    if indent == 0:
        require("\n" not in r.out.rstrip("\n"), "--indent 0 still indents")
    return doc, r.out


def one_cli(ctx, case, spawn=None):
    kind, a, b, indent, n, s = case
    run = spawn or cli.run
    d = ctx.tmpdir()
    try:
        src, other = os.path.join(d, "object"), os.path.join(d, "other")
        ja, jb = os.path.join(d, "a.json"), os.path.join(d, "b.json")
        da, db = make_file(kind, MAPS[a], n, s), make_file(kind, MAPS[b], n, s)
        cli.put(src, da)
        cli.put(other, db)
        _, text_a = export(ctx, src, indent, spawn)
        _, text_b = export(ctx, other, indent, spawn)
        same(cli.files(d), {"object": da, "other": db}, "files after the export")
        cli.put(ja, text_a.encode())
        cli.put(jb, text_b.encode())
        # importing what was exported changes nothing
        r = run("variables", src, ja)
        ctx.step()
        require(r.code == 0, "import failed", r)
        same(cli.get(src), da, "file after importing its own export")
        # importing other variables gives the file with exactly these variables
        r = run("variables", src, jb)
        ctx.step()
        require(r.code == 0, "import failed", r)
        same(cli.get(src), db, "file after importing other variables")
        same(cli.get(jb), text_b.encode(), "JSON file after the import")
        # and back
        r = run("variables", src, ja)
        require(r.code == 0, "import failed", r)
        same(cli.get(src), da, "file after importing the first variables again")
        if kind != "lvl":
            new = os.path.join(d, "fresh")
            for target, was in ((new, None), (other, db)):
                for h in HEADERS:
                    r = run("variables", "--header", h.decode(), target, ja)
                    ctx.step()
                    require(r.code == 0, "writing from scratch failed", r)
                    same(cli.get(target), var_file(h, MAPS[a]), f"file written from scratch over {was!r}")
        ctx.state(kind, a, b, text_a)
    finally:
        shutil.rmtree(d)


@PROP.family(g_cli, "every kind of file with every ordered pair of 7 variable maps: export, import own and other variables, write from scratch; files byte for byte, all indents, levels with 0-3 regions")
def tool(ctx, case):
    one_cli(ctx, case)


def g_edit(tier):
    for kind in ("lvl", 0):
        for a in range(len(MAPS)):
            yield (kind, a)


@PROP.family(g_edit, "single edits of the exported JSON (values changed, keys removed and added, arrays extended) end up in the file and nothing else changes")
def edits(ctx, case):
    kind, a = case
    d = ctx.tmpdir()
    try:
        src, js = os.path.join(d, "object"), os.path.join(d, "edit.json")
        tree = MAPS[a]
        for i in range(len(tree[1]) + 1):
            for what in ("drop", "change", "add"):
                if (i == len(tree[1])) != (what == "add"):
                    continue
                cli.put(src, make_file(kind, tree))
                doc, _ = export(ctx, src, 4)
                items = list(tree[1])
                if what == "add":
                    doc["vars"]["added"] = 5
                    doc["schema"]["added"] = "uint"
                    items.append(("added", ("u", 5)))
                elif what == "drop":
                    del doc["vars"][items[i][0]]
                    items.pop(i)
                else:
                    k = items[i][0]
                    doc["vars"][k], doc["schema"][k] = "caf\xe9", "string"
                    items[i] = (k, ("s", b"caf\xe9"))
                cli.put(js, json.dumps(doc).encode())
                r = cli.run("variables", src, js)
                ctx.step()
                require(r.code == 0, "import failed", r)
                same(cli.get(src), make_file(kind, ("S", tuple(items))), f"file after {what} of entry {i}")
    finally:
        shutil.rmtree(d)


def g_spawn(tier):
    yield ("lvl", 2, 3, 4, 2, 1)
    yield ("lvl", 4, 0, 0, 0, 0)
    yield (0, 3, 4, 2, 0, 0)
    yield (2, 1, 5, 4, 0, 0)


@PROP.family(g_spawn, "the same through separate python -m dustmaker and python -m dustmaker.cmd.variables processes")
def programs(ctx, case):
    one_cli(ctx, case, spawn=cli.spawn)
    one_cli(ctx, case, spawn=cli.standalone)


# (kind, schema, JSON value) as a person would write or read them
HAND = (
    (("b", True), "bool", True), (("b", False), "bool", False), (("i", -5), "int", -5), (("u", 2**32 - 1), "uint", 2**32 - 1),
    (("f", -0.5), "float", -0.5), (("s", b"caf\xe9\x00"), "string", "caf\xe9\x00"), (("v", (1.5, -2.0)), "vec2", [1.5, -2.0]),
    (("A", "i", (("i", 1), ("i", 2))), ["int"], [1, 2]), (("A", "b", ()), ["bool"], []), (("A", "s", (("s", b"x"),)), ["string"], ["x"]),
    (("A", "v", (("v", (0.0, 1.0)),)), ["vec2"], [[0.0, 1.0]]), (("A", "f", (("f", 2.0),)), ["float"], [2.0]), (("A", "u", (("u", 0),)), ["uint"], [0]),
    (("S", (("k", ("i", 1)),)), {"k": "int"}, {"k": 1}), (("S", ()), {}, {}),
    (("A", "S", (("S", (("k", ("i", 1)),)), ("S", (("l", ("s", b"")),)))), [{"k": "int", "l": "string"}], [{"k": 1}, {"l": ""}]),
    (("A", "A", (("A", "u", (("u", 7),)), ("A", "u", ()))), [["uint"]], [[7], []]),
)


def g_hand(tier):
    for kind in ("lvl", 0, 1, 2):
        for i in range(len(HAND)):
            for j in range(len(HAND)):
                yield (kind, i, j)


@PROP.family(g_hand, "every pair of 17 values of every type, written out by hand: the exported document is exactly this one, and importing the hand-written one gives the file")
def handwritten(ctx, case):
    kind, i, j = case
    (t, st, vt), (u, su, vu) = HAND[i], HAND[j]
    tree = ("S", (("one", t), ("two", u)))
    doc = {"vars": {"one": vt, "two": vu}, "schema": {"one": st, "two": su}}
    d = ctx.tmpdir()
    try:
        obj, js = os.path.join(d, "object"), os.path.join(d, "doc.json")
        cli.put(obj, make_file(kind, tree))
        got, _ = export(ctx, obj, 4)
        same(got, doc, "exported document")
        cli.put(obj, make_file(kind, MAPS[3]))
        # the schema may describe more than there is
        more = dict(doc, schema=dict(doc["schema"], unused="int"))
        for text in (doc, more):
            cli.put(js, json.dumps(text).encode())
            r = cli.run("variables", obj, js)
            ctx.step()
            require(r.code == 0, "import failed", r)
            same(cli.get(obj), make_file(kind, tree), "file after importing the document")
        ctx.state(case)
    finally:
        shutil.rmtree(d)


SPECIAL = tuple(bytes((b,)) for b in b"\r\n\\\"/\0\t\x08\x0c \x1f'u{[\x7f\x80\x85\x9f\xa0\xc3\xff") + (b"\\u", b"0", b"<")


def g_escapes(tier):
    for a in range(len(SPECIAL)):
        for b in range(len(SPECIAL)):
            yield (a, b)


@PROP.family(g_escapes, "strings of all pairs and triples of 24 characters that are special to JSON, to line ends and to encodings, as values, array elements and keys; pairs also through the command line")
def escapes(ctx, case):
    a, b = (SPECIAL[i] for i in case)
    for c in (b"",) + SPECIAL:
        round_trip(ctx, ("s", a + b + c))
    round_trip(ctx, ("S", (("k", ("A", "s", (("s", a), ("s", b), ("s", a * 300 + b), ("s", b"x" + a + b + b"y")))),)))
    key = (a + b).decode("latin-1")
    if all(ord(x) < 128 for x in key):
        round_trip(ctx, ("S", ((key, ("i", 1)), ("k" + key, ("s", b)))))
    tree = ("S", (("s", ("s", a + b)), ("t", ("A", "s", (("s", b + b"n" + a),)))))
    d = ctx.tmpdir()
    try:
        obj, js = os.path.join(d, "object"), os.path.join(d, "doc.json")
        for kind in ("lvl", 0):
            cli.put(obj, make_file(kind, tree))
            _, text = export(ctx, obj, 4)
            cli.put(js, text.encode())
            cli.put(obj, make_file(kind, MAPS[1]))
            r = cli.run("variables", obj, js)
            ctx.step()
            require(r.code == 0, "import failed", r)
            same(cli.get(obj), make_file(kind, tree), "file after importing the export of special strings")
    finally:
        shutil.rmtree(d)
    ctx.state(case)


def g_indents(tier):
    for ind in range(0, 25):
        for a in range(len(MAPS)):
            yield (ind, a)


@PROP.family(g_indents, "every indentation from 0 to 24 with every map: the document is the same and imports to the same bytes")
def indents(ctx, case):
    ind, a = case
    # keys in an order of their own
    tree = ("S", tuple(reversed(MAPS[a][1])) + (("Zz", ("i", 1)), ("0", ("S", (("b", ("i", 1)), ("a", ("i", 2)))))))
    d = ctx.tmpdir()
    try:
        obj, js = os.path.join(d, "object"), os.path.join(d, "doc.json")
        for kind in ("lvl", 1):
            cli.put(obj, make_file(kind, tree))
            plain, _ = export(ctx, obj, 4)
            doc, text = export(ctx, obj, ind)
            same(doc, plain, "document at this indentation")
            cli.put(js, text.encode())
            cli.put(obj, make_file(kind, MAPS[2]))
            r = cli.run("variables", obj, js)
            ctx.step()
            require(r.code == 0, "import failed", r)
            same(cli.get(obj), make_file(kind, tree), f"file after importing the export with indent {ind}")
    finally:
        shutil.rmtree(d)
    ctx.state(case)


LENS = (1, 2, 7, 8, 15, 16, 31, 32, 33, 40, 41, 48, 62, 63)


def g_keys(tier):
    for a in LENS:
        for b in LENS:
            yield (a, b)


@PROP.family(g_keys, "keys of all pairs of 14 lengths up to the longest, in structs in both orders: names and order survive, also through the command line")
def keys(ctx, case):
    a, b = case
    ka, kb, kc = ("a" * a)[:a], ("b" * b)[:b], "z" * ((a + b) % 63 + 1)
    d = ctx.tmpdir()
    try:
        obj, js = os.path.join(d, "object"), os.path.join(d, "doc.json")
        for order in itertools.permutations((ka, kb, kc)):
            inner = ("S", tuple((k, ("i", i)) for i, k in enumerate(order)))
            tree = ("S", tuple((k, t) for k, t in zip(order, (inner, ("A", "S", (inner, ("S", ()))), ("b", True)))))
            round_trip(ctx, tree)
            for kind in ("lvl", 2):
                cli.put(obj, make_file(kind, tree))
                _, text = export(ctx, obj, 4)
                cli.put(js, text.encode())
                cli.put(obj, make_file(kind, MAPS[1]))
                r = cli.run("variables", obj, js)
                ctx.step()
                require(r.code == 0, "import failed", r)
                same(cli.get(obj), make_file(kind, tree), "file after importing the export")
    finally:
        shutil.rmtree(d)
    ctx.state(case)


def g_wide(tier):
    for n in (2, 5, 9, 17, 33, 70, 140, 300):
        for k in (0, 1, n // 2, n - 1):
            yield (n, k)


@PROP.family(g_wide, "arrays of structs with up to 300 keys of all kinds in different orders, one of which holds an array or struct whose elements are only known from another element of the outer array")
def wide(ctx, case):
    n, k = case
    leaf = (("i", -3), ("s", b"x"), ("b", True), ("f", 0.5), ("u", 9), ("v", (1.0, 2.0)), ("A", "i", (("i", 1),)), ("S", (("q", ("i", 1)),)))
    rest = [(f"k{i}", leaf[i % len(leaf)]) for i in range(n)]
    full = (("A", "S", (("S", (("z", ("i", 1)),)),)), ("A", "A", (("A", "s", (("s", b"y"),)),)), ("S", (("z", ("i", 1)), ("y", ("s", b"")))))
    bare = (("A", "S", ()), ("A", "A", ()), ("S", ()))
    for a, b in zip(full, bare):
        x, y = list(rest), list(reversed(rest))
        x[k] = (rest[k][0], a)
        y[n - 1 - k] = (rest[k][0], b)
        x, y = ("S", tuple(x)), ("S", tuple(y))
        for elems in ((x, y), (y, x), (x, ("S", ()), y), (y, x, y), (y, y, y, x)):
            round_trip(ctx, ("A", "S", elems))
            round_trip(ctx, ("S", (("a", ("A", "S", elems)), ("b", ("i", 1)))))
    ctx.state(case)


SIZES = (10, 4000, 9000, 70000, 1200000)


def g_over(tier):
    for kind in ("lvl", 0, 2):
        for a in range(len(SIZES)):
            for b in range(len(SIZES)):
                yield (kind, a, b)


@PROP.family(g_over, "variables of all pairs of 5 sizes up to 1.2 MB replacing each other in every kind of file, also written from scratch over files of these sizes, and with data behind the end of the file")
def replacing(ctx, case):
    kind, a, b = case

    def tree(i):
        return ("S", (("s", ("s", b"ab\xe9" * (SIZES[i] // 3))), ("n", ("i", i))))

    d = ctx.tmpdir()
    try:
        obj, js = os.path.join(d, "object"), os.path.join(d, "doc.json")
        cli.put(obj, make_file(kind, tree(b)))
        _, text = export(ctx, obj, 4)
        cli.put(js, text.encode())
        want = make_file(kind, tree(b))
        for junk in (b"", b"q", b"DF_LVL" * 1000):
            cli.put(obj, make_file(kind, tree(a)) + junk)
            doc, _ = export(ctx, obj, 4)
            same(doc["vars"]["n"], a, "exported value")
            r = cli.run("variables", obj, js)
            ctx.step()
            require(r.code == 0, "import failed", r)
            got = cli.get(obj)
            if junk and len(got) > len(want):
                got = got[: len(want)] if got[len(want) :] == junk else got
            require(got == want, "file after the import differs; lengths", len(got), len(want))
        if kind != "lvl":
            for was in (b"", b"q" * SIZES[a], make_file(kind, tree(a))):
                cli.put(obj, was)
                r = cli.run("variables", "--header", HEADERS[kind].decode(), obj, js)
                ctx.step()
                require(r.code == 0, "writing from scratch failed", r)
                require(cli.get(obj) == want, "file written from scratch differs")
        ctx.state(case)
    finally:
        shutil.rmtree(d)


def g_encodings(tier):
    for kind in ("lvl", 0):
        for enc in ("utf-8", "ascii", "latin-1", "cp1252", "utf-8:strict"):
            yield (kind, enc)


@PROP.family(g_encodings, "exports by programs whose output has five different encodings are readable by the import, all 256 byte values included")
def encodings(ctx, case):
    import subprocess
    import sys

    kind, enc = case
    tree = ("S", (("s", ("s", bytes(range(256)))), ("l", ("A", "s", tuple(("s", bytes((b, 255 - b))) for b in range(0, 256, 5))))))
    d = ctx.tmpdir()
    try:
        obj, js = os.path.join(d, "object"), os.path.join(d, "doc.json")
        cli.put(obj, make_file(kind, tree))
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING=enc)
        with open(js, "wb") as out:
            p = subprocess.run([sys.executable, "-B", "-m", "dustmaker", "variables", obj], stdout=out, stderr=subprocess.PIPE, env=env, check=False)
        ctx.step()
        require(p.returncode == 0, "export failed", p.stderr[-300:])
        cli.put(obj, make_file(kind, MAPS[1]))
        r = cli.run("variables", obj, js)
        ctx.step()
        require(r.code == 0, "import failed", r)
        same(cli.get(obj), make_file(kind, tree), "file after importing the export")
        ctx.state(case)
    finally:
        shutil.rmtree(d)


def g_many(tier):
    for kind in ("lvl", 0, 1, 2):
        for n in (3, 17, 65, 101, 257, 1025):
            for indent in (0, 4):
                yield (kind, n, indent)


@PROP.family(g_many, "files with up to 1025 variables of all kinds in an order that is not sorted: importing the export gives the same file, also into a file without variables")
def many(ctx, case):
    kind, n, indent = case
    leaf = (("i", -3), ("s", b"x\xff"), ("b", True), ("f", 0.5), ("u", 9), ("v", (1.0, 2.0)), ("A", "i", (("i", 1),)), ("S", (("q", ("i", 1)), ("p", ("i", 2)))))
    tree = ("S", tuple((f"k{i * 7919 % 2003}", leaf[i % len(leaf)]) for i in range(n)))
    d = ctx.tmpdir()
    try:
        obj, js = os.path.join(d, "object"), os.path.join(d, "doc.json")
        want = make_file(kind, tree)
        cli.put(obj, want)
        _, text = export(ctx, obj, indent)
        cli.put(js, text.encode())
        for was in (want, make_file(kind, ("S", ()))):
            cli.put(obj, was)
            r = cli.run("variables", obj, js)
            ctx.step()
            require(r.code == 0, "import failed", r)
            require(cli.get(obj) == want, "file after importing its own export differs")
        ctx.state(case)
    finally:
        shutil.rmtree(d)
