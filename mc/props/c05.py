"""C05: ill-typed or out-of-range variables can never be constructed."""
from enum import IntEnum

from mc.core import Prop, require, same, raises
from mc import ref

PROP = Prop("C05")
PROP.assumptions = [
    "structs are given dicts (or None), arrays lists (or None); other iterables are outside the claim",
    "bool given to an int or uint variable is not decided (a Python bool is an int)",
]


class E(IntEnum):
    THREE = 3
    BIG = 2**31
    NEG = -1


class B2(bytes):
    pass


class F2(float):
    pass


# literal-able names -> value makers
POOL = {
    "False": lambda: False, "True": lambda: True,
    "0": lambda: 0, "1": lambda: 1, "-1": lambda: -1, "7": lambda: 7,
    "2^31-1": lambda: 2**31 - 1, "2^31": lambda: 2**31, "2^31+1": lambda: 2**31 + 1,
    "-2^31": lambda: -(2**31), "-2^31-1": lambda: -(2**31) - 1,
    "2^32-1": lambda: 2**32 - 1, "2^32": lambda: 2**32, "2^32+1": lambda: 2**32 + 1,
    "2^63": lambda: 2**63, "-2^32": lambda: -(2**32), "-2^63": lambda: -(2**63), "2^100": lambda: 2**100,
    "E3": lambda: E.THREE, "E2^31": lambda: E.BIG, "E-1": lambda: E.NEG,
    "0.0": lambda: 0.0, "1.5": lambda: 1.5, "-1.0": lambda: -1.0, "1e300": lambda: 1e300, "-inf": lambda: float("-inf"), "2.0^31": lambda: 2.0**31, "tiny": lambda: 5e-324, "F2": lambda: F2(2.0),
    "b''": lambda: b"", "b'x'": lambda: b"x", "B2": lambda: B2(b"q"), "bigbytes": lambda: b"z" * 70000,
    "bytearray": lambda: bytearray(b"x"), "memoryview": lambda: memoryview(b"x"),
    "''": lambda: "", "'x'": lambda: "x", "None": lambda: None, "()": lambda: (),
    "(1.0,)": lambda: (1.0,), "(1.0,2.0)": lambda: (1.0, 2.0), "(1,2)": lambda: (1, 2),
    "(1.0,2)": lambda: (1.0, 2), "(1,2.0)": lambda: (1, 2.0), "(1.0,2.0,3.0)": lambda: (1.0, 2.0, 3.0),
    "[1.0,2.0]": lambda: [1.0, 2.0], "(b,b)": lambda: (b"1", b"2"), "(None,1.0)": lambda: (None, 1.0),
    "(1e300,-1e300)": lambda: (1e300, -1e300), "(F2,F2)": lambda: (F2(1.0), F2(2.0)), "(True,False)": lambda: (True, False),
    "{}": lambda: {}, "[]": lambda: [], "set": lambda: {1}, "complex": lambda: 1j, "object": object,
    "type": lambda: int, "[1]": lambda: [1], "range": lambda: range(2),
    "vari": lambda: ref.build_var(("i", 1)), "varb": lambda: ref.build_var(("b", True)),
}


def is_int(v):
    return isinstance(v, int)


OK = {
    "b": lambda v: isinstance(v, bool),
    "i": lambda v: is_int(v) and -(2**31) <= v <= 2**31 - 1,
    "u": lambda v: is_int(v) and 0 <= v <= 2**32 - 1,
    "f": lambda v: isinstance(v, float),
    "s": lambda v: isinstance(v, bytes),
    "v": lambda v: isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, float) for x in v),
}


def skip(kind, name):
    return kind in "iu" and name in ("True", "False")


def cls(k):
    return ref._classes()[k]


def g_scalar(tier):
    for k in "biufsv":
        for name in POOL:
            if not skip(k, name):
                yield k, name


@PROP.family(g_scalar, "every scalar kind constructed from, revalidated with and stored into arrays of that kind with every value of a pool of 60 values of all Python types and all range limits")
def scalars(ctx, case):
    k, name = case
    good = OK[k](POOL[name]())
    C = cls(k)
    val = POOL[name]()
    if good:
        var = C(val)
        require(var.value == val, "constructed value differs", var.value)
    else:
        raises(AssertionError, C, val)
    # change afterwards
    var = C()
    var.assert_types()
    var.value = val
    if good:
        var.assert_types()
    else:
        raises(ValueError, var.assert_types)
    ctx.step(4)
    # store into an array
    A = cls("A")
    base = {"b": [True, False], "i": [4, -5], "u": [4, 5], "f": [1.0, 2.5], "s": [b"p", b"q"], "v": [(1.0, 2.0), (3.0, 4.0)]}[k]
    for how in ("set0", "set-1", "append", "insert0", "insert1", "insert9", "extend", "iadd"):
        arr = A(C, [C(x) for x in base])
        before = list(base)

        def go():
            if how == "set0":
                arr[0] = val
            elif how == "set-1":
                arr[-1] = val
            elif how == "append":
                arr.append(val)
            elif how.startswith("insert"):
                arr.insert(int(how[6:]), val)
            elif how == "extend":
                arr.extend([val])
            else:
                arr.__iadd__([val])

        if good:
            go()
            want = list(before)
            if how == "set0":
                want[0] = val
            elif how == "set-1":
                want[-1] = val
            elif how.startswith("insert"):
                want.insert(int(how[6:]), val)
            else:
                want.append(val)
        else:
            raises(AssertionError, go)
            want = before
        same(list(arr), want, f"array after {how}")
        arr.assert_types()
        for e in arr.value[1]:
            require(type(e) is C, "array element of another class", type(e))
        ctx.step()
    ctx.state(k, name, good)


# ---- containers: paths into nested trees where exactly one leaf is replaced

TREES = (
    ("S", (("a", ("i", 1)),)),
    ("S", (("a", ("i", 1)), ("b", ("A", "f", (("f", 1.0), ("f", 2.0)))), ("c", ("S", (("d", ("s", b"x")),))))),
    ("A", "i", (("i", 1), ("i", 2), ("i", 3))),
    ("A", "S", (("S", (("k", ("u", 3)),)), ("S", ()))),
    ("A", "A", (("A", "v", (("v", (1.0, 2.0)),)), ("A", "b", (("b", True),)))),
    ("S", (("x", ("A", "S", (("S", (("y", ("A", "s", (("s", b""), ("s", b"z")))),)),))),)),
)


def paths(t):
    """All positions of sub-variables."""
    yield ()
    if t[0] == "S":
        for key, e in t[1]:
            for p in paths(e):
                yield (("S", key),) + p
    elif t[0] == "A":
        for i, e in enumerate(t[2]):
            for p in paths(e):
                yield (("A", i),) + p


def locate(var, path):
    for kind, at in path:
        var = var.value[at] if kind == "S" else var.value[1][at]
    return var


def kind_at(t, path):
    for kind, at in path:
        t = dict(t[1])[at] if kind == "S" else t[2][at]
    return t[0]


def g_deep(tier):
    for ti, t in enumerate(TREES):
        for p in paths(t):
            for name in POOL:
                if not skip(kind_at(t, p), name):
                    yield ti, p, name


@PROP.family(g_deep, "six nested trees with the value of every sub-variable replaced by every pool value: revalidation, and building a new container around the changed part")
def mutated(ctx, case):
    ti, path, name = case
    tree = TREES[ti]
    val = POOL[name]()
    k = kind_at(tree, path)
    root = ref.build_var(tree)
    root.assert_types()
    target = locate(root, path)
    target.value = val
    if k in OK:
        good = OK[k](val)
    elif k == "S":
        good = isinstance(val, dict)
    else:
        good = False  # no pool value is a (type, list) pair
    for depth in range(len(path) + 1):
        node = locate(root, path[:depth])
        if good:
            node.assert_types()
        else:
            raises(ValueError, node.assert_types)
        ctx.step()
    S, A = cls("S"), cls("A")
    # wrapping an invalid variable is refused as well
    if good:
        S({"q": root})
        A(cls(tree[0]), [root])
    else:
        raises(AssertionError, S, {"q": root})
        raises(AssertionError, A, cls(tree[0]), [root])
        raises(AssertionError, S, {"ok": ref.build_var(("i", 1)), "q": root, "z": ref.build_var(("b", True))})
    ctx.state(ti, path, name, good)


def g_struct(tier):
    for key in ("str", "int", "bytes", "none", "tuple"):
        for val in list(POOL) + ["VAR" + k for k in "biufsvSA"]:
            yield key, val


@PROP.family(g_struct, "struct entries with every key type and every kind of value, first and in the middle")
def struct_entries(ctx, case):
    kn, vn = case
    key = {"str": "k", "int": 5, "bytes": b"k", "none": None, "tuple": ("k",)}[kn]
    one = {"b": True, "i": 1, "u": 1, "f": 1.0, "s": b"", "v": (0.0, 1.0)}
    if vn.startswith("VAR"):
        k = vn[3:]
        val = cls(k)(one[k]) if k in one else (cls("S")({}) if k == "S" else cls("A")(cls("i"), []))
        good_v = True
    else:
        val = POOL[vn]()
        good_v = vn.startswith("var")
    good = good_v and kn == "str"
    S = cls("S")
    fine = ref.build_var(("i", 3))
    for d in ({key: val}, {"a": fine, key: val}, {key: val, "z": fine}, {"a": fine, key: val, "z": fine}):
        if good:
            s = S(d)
            same(list(s.value), list(d), "keys")
        else:
            raises(AssertionError, S, d)
        # nested
        if good:
            S({"n": S(d)})
        # changed afterwards
        s = S({"keep": fine})
        s.value.update(d)
        if good:
            s.assert_types()
        else:
            raises(ValueError, s.assert_types)
        outer = S({"in": s}) if good else None
        if outer is None:
            raises(AssertionError, S, {"in": s})
        ctx.step(3)
    ctx.state(kn, vn, good)


def g_arr(tier):
    for ek in "biufsvSA":
        for vk in "biufsvSA":
            yield ek, vk
    for ek in "biufsvSA":
        for name in POOL:
            yield ek, "RAW" + name


@PROP.family(g_arr, "arrays of every element kind built from elements of every kind and from unboxed values")
def array_elements(ctx, case):
    ek, vk = case
    one = {"b": True, "i": 1, "u": 1, "f": 1.0, "s": b"", "v": (0.0, 1.0)}

    def mk(k):
        return cls(k)(one[k]) if k in one else (cls("S")({}) if k == "S" else cls("A")(cls("i"), []))

    if vk.startswith("RAW"):
        val = POOL[vk[3:]]()
        good = {"vari": "i", "varb": "b"}.get(vk[3:]) == ek
    else:
        val = mk(vk)
        good = ek == vk
    A = cls("A")
    for elems in ([val], [mk(ek), val], [val, mk(ek)], [mk(ek), mk(ek), val]):
        if good:
            a = A(cls(ek), elems)
            same(len(a), len(elems), "length")
        else:
            raises(AssertionError, A, cls(ek), elems)
        a = A(cls(ek), [mk(ek)])
        a.value[1].extend(elems)
        if good:
            a.assert_types()
        else:
            raises(ValueError, a.assert_types)
        ctx.step(2)
    ctx.state(case, good)


def g_etype(tier):
    for name in list(POOL) + ["str", "float", "object_type", "E"]:
        yield name


@PROP.family(g_etype, "array element types that are not variable classes, and malformed array values set afterwards")
def array_types(ctx, case):
    A, I = cls("A"), cls("i")
    et = {"str": str, "float": float, "object_type": object, "E": E}.get(case)
    if et is None:
        et = POOL[case]()
    raises(AssertionError, A, et, [])
    raises(AssertionError, A, et)
    raises(AssertionError, A, et, [I(1)])
    for bad in ((et, []), (I, et) if not isinstance(et, list) else (I, (I(1),)), (I,), (I, [], []), [I, []], et):
        a = A(I, [I(1)])
        a.value = bad
        raises(ValueError, a.assert_types)
        raises(AssertionError, cls("S"), {"a": a})
        ctx.step()
    ctx.state(case)


def g_copy(tier):
    for n in (0, 1, 2, 3, 8, 9, 16, 17, 33, 64, 100, 257, 1025):
        yield n


@PROP.family(g_copy, "containers copy the dict or list they are built from; default constructed variables")
def copies(ctx, case):
    S, A, I = cls("S"), cls("A"), cls("i")
    d = {f"k{i}": I(i) for i in range(case)}
    lst = [I(i) for i in range(case)]
    s, a = S(d), A(I, lst)
    d["new"] = I(9)
    lst.append(I(9))
    same(list(s.value), [f"k{i}" for i in range(case)], "struct after the dict changed")
    same(len(a), case, "array after the list changed")
    d.clear()
    lst.clear()
    same(list(s.value), [f"k{i}" for i in range(case)], "struct after the dict was cleared")
    same(list(a), list(range(case)), "array after the list was cleared")
    s.value["x"] = I(1)
    a.append(5)
    require("x" not in d and lst == [], "the sources changed")
    # defaults
    for k, v in (("b", False), ("i", 0), ("u", 0), ("f", 0.0), ("s", b""), ("v", (0.0, 0.0)), ("S", {})):
        x, y = cls(k)(), cls(k)()
        same(x.value, v, "default value")
        require(type(x.value) is type(v), "default type")
        if k == "S":
            x.value["q"] = I(1)
            same(y.value, {}, "defaults share state")
            same(cls("S")().value, {}, "defaults share state")
    p, q = A(I), A(I)
    p.append(3)
    same(list(q), [], "array defaults share state")
    same(list(A(I, None)), [], "array from None")
    same(A(cls("s")).element_type, cls("s"), "element type")
    ctx.step(12)
    ctx.state(case)


def g_boxes(tier):
    for n in range(3):
        yield n


@PROP.family(g_boxes, "storing structs and arrays into arrays of structs and arrays of arrays, valid and invalid inside")
def nested_stores(ctx, case):
    S, A, I, F = cls("S"), cls("A"), cls("i"), cls("f")
    good = [
        ("S", {}), ("S", {"a": I(1)}), ("S", {"a": S({"b": F(1.0)}), "c": A(I)}),
        ("A", (I, [])), ("A", (F, [F(1.0)])), ("A", (A, [A(I, [I(1)])])),
    ]
    bad = [
        ("S", {"a": 1}), ("S", {1: I(1)}), ("S", {"a": I(1), "b": None}),
        ("A", (int, [])), ("A", (I, [F(1.0)])), ("A", (I, [I(1), 2])), ("A", (None, [])),
    ]
    broken = S({"q": I(1)})
    broken.value["q"].value = "no"
    bad += [("S", {"a": broken}), ("A", (S, [S({}), broken]))]
    for k, val in good + bad:
        ok = (k, val) in good
        base = [S({"x": I(4)}), S({})] if k == "S" else [A(F, [F(2.0)]), A(I, [I(1)])]
        for how in range(5):
            arr = A(cls(k), base)
            want = [e.value for e in base]

            def go():
                if how == 0:
                    arr[0] = val
                elif how == 1:
                    arr[-1] = val
                elif how == 2:
                    arr.append(val)
                elif how == 3:
                    arr.insert(case, val)
                else:
                    arr.extend([val])

            if ok:
                go()
                if how < 2:
                    want[-how] = val
                elif how == 3:
                    want.insert(case, val)
                else:
                    want.append(val)
            else:
                raises(AssertionError, go)
            same(list(arr), want, f"array after store {how}")
            for e in arr.value[1]:
                require(type(e) is cls(k), "element class")
            arr.assert_types()
            ctx.step()
            ctx.state(k, repr(val), how)


def g_big(tier):
    for n in (1, 2, 500, 501, 1001, 2001, 4097, 5000) + ((70000,) if tier == "thorough" else ()):
        for at in sorted({0, 1, 2, 255, 256, 499, 500, 999, 1000, 1999, 2000, 4095, 4096, n // 2, n - 2, n - 1}):
            if 0 <= at < n:
                for bad in ("raw", "kind", "inside", "key"):
                    yield n, at, bad


@PROP.family(g_big, "structs and arrays of up to 5000 elements with one ill-typed element at the first, last and inner positions: refused when built, refused when checked after it was put there later")
def big_containers(ctx, case):
    n, at, bad = case
    S, A, I, F = cls("S"), cls("A"), cls("i"), cls("f")
    good = [I(i) for i in range(n)]
    wrong = {"raw": 5, "kind": F(1.0), "inside": I(1), "key": I(1)}[bad]
    if bad == "inside":
        wrong.value = 2**31
    elems = good[:at] + [wrong] + good[at + 1 :]
    d = {f"k{i}": e for i, e in enumerate(elems)}
    if bad == "key":
        d = {(f"k{i}" if i != at else i): e for i, e in enumerate(elems)}
    if bad != "key":
        raises(AssertionError, A, I, elems)
        a = A(I, good)
        a.assert_types()
        a.value[1][at] = wrong
        raises(ValueError, a.assert_types)
        raises(AssertionError, S, {"a": a})
        a.value[1][at] = I(7)
        a.assert_types()
        ctx.step(4)
    if bad != "kind":
        raises(AssertionError, S, d)
        s = S({f"k{i}": e for i, e in enumerate(good)})
        s.assert_types()
        s.value.clear()
        s.value.update(d)
        raises(ValueError, s.assert_types)
        raises(AssertionError, S, {"s": s})
        ctx.step(4)
    else:
        S(d).assert_types()
    ctx.state(case)
