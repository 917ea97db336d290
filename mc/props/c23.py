"""C23: array variables behave like typed Python lists."""
import itertools

from mc import ref
from mc.core import Prop, Violated, require, same

PROP = Prop("C23")
PROP.assumptions = ["integer indices; slices are outside the claim", "new elements have the declared element type"]

TREES = {
    "b": (("b", True), ("b", False)),
    "i": (("i", 1), ("i", -5)),
    "u": (("u", 1), ("u", 4000000000)),
    "f": (("f", 1.5), ("f", 0.0)),
    "s": (("s", b""), ("s", b"x\x00")),
    "v": (("v", (1.0, 2.0)), ("v", (0.0, 0.0))),
    "S": (("S", ()), ("S", (("k", ("i", 1)),))),
    "A": (("A", "i", ()), ("A", "i", (("i", 1),))),
}
BAD = {
    "b": (1, None, b"x"), "i": (2**31, "1", 1.5, None), "u": (-1, 2**32, 1.5), "f": (1, b"", None), "s": ("x", 3, None),
    "v": ((1, 2), (1.0,), [1.0, 2.0]), "S": ({"a": 1}, {1: ref}), "A": ((int, []),),
}


def val(kind, i):
    return ref.build_var(TREES[kind][i]).value


def norm(kind, v):
    """Unwrapped value in comparable form."""
    if kind == "S":
        return tuple((k, ref.snap_var(x)) for k, x in v.items())
    if kind == "A":
        return (v[0].__name__, tuple(ref.snap_var(x) for x in v[1]))
    return v


IDX = (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5)


FOREIGN = (1.0, True, 1, 0, 0.0, False, None, "", "x", b"x", (1, 2), (0, 0), [1.0, 2.0], {}, 4000000000.0, 1.5)


def ops():
    for j in range(len(FOREIGN)):
        for name in ("in", "count", "index", "remove"):
            yield ("foreign", name, j)
    for i in IDX:
        yield ("get", i)
        yield ("del", i)
        yield ("popi", i)
        for v in (0, 1):
            yield ("set", i, v)
            yield ("insert", i, v)
    for v in (0, 1):
        yield ("append", v)
        yield ("remove", v)
        yield ("in", v)
        yield ("index", v)
        yield ("count", v)
        for s in (-2, 0, 1, 2):
            yield ("indexs", v, s)
            yield ("indexse", v, s, 2)
    for vs in ((), (0,), (1, 0)):
        yield ("extend", vs)
        yield ("extendgen", vs)
        yield ("iadd", vs)
    yield from (("iterapp", 0), ("iterapp", 1), ("iterpop",), ("iterdel",), ("iterclear",), ("iterset", 1), ("unpack",))
    yield from (("extself",), ("pop",), ("reverse",), ("clear",), ("iter",), ("len",), ("reversed",), ("bool",), ("getx",), ("eqlist",))


def do(obj, op, v, model):
    """Runs op on a list or an array; v maps value numbers to unwrapped values."""
    k = op[0]
    if k == "get":
        return obj[op[1]]
    if k == "del":
        del obj[op[1]]
    elif k == "popi":
        return obj.pop(op[1])
    elif k == "set":
        obj[op[1]] = v(op[2])
    elif k == "insert":
        return obj.insert(op[1], v(op[2]))
    elif k == "append":
        return obj.append(v(op[1]))
    elif k == "remove":
        return obj.remove(v(op[1]))
    elif k == "in":
        return v(op[1]) in obj
    elif k == "index":
        return obj.index(v(op[1]))
    elif k == "foreign":
        x = FOREIGN[op[2]]
        if op[1] == "in":
            return x in obj
        return getattr(obj, op[1])(x)
    elif k == "indexs":
        return obj.index(v(op[1]), op[2])
    elif k == "indexse":
        return obj.index(v(op[1]), op[2], op[3])
    elif k == "count":
        return obj.count(v(op[1]))
    elif k == "extend":
        return obj.extend([v(i) for i in op[1]])
    elif k == "extendgen":
        return obj.extend(v(i) for i in op[1])
    elif k == "iadd":
        before = obj
        obj += [v(i) for i in op[1]]
        return obj is before
    elif k == "extself":
        return obj.extend(obj)
    elif k == "pop":
        return obj.pop()
    elif k == "reverse":
        return obj.reverse()
    elif k == "clear":
        return obj.clear()
    elif k == "iter":
        return list(obj)
    elif k == "iterapp":
        out = []
        for x in obj:
            out.append(x)
            if len(out) < 3:
                obj.append(v(op[1]))
        return out
    elif k == "iterpop":
        out = []
        for x in obj:
            out.append(x)
            obj.pop()
        return out
    elif k == "iterdel":
        out = []
        for x in obj:
            out.append(x)
            del obj[0]
        return out
    elif k == "iterclear":
        out = []
        for x in obj:
            out.append(x)
            obj.clear()
        return out
    elif k == "iterset":
        out = []
        for x in obj:
            out.append(x)
            obj[-1] = v(op[1])
        return out
    elif k == "unpack":
        return [*obj]
    elif k == "len":
        return len(obj)
    elif k == "reversed":
        return list(reversed(obj))
    elif k == "bool":
        return bool(obj)
    elif k == "getx":
        return obj["0"]
    elif k == "eqlist":
        return [x for x in obj] == list(obj)
    return None


VALUE_OPS = {"get", "popi", "pop"}
LIST_OPS = {"iter", "reversed", "iterapp", "iterpop", "iterdel", "iterclear", "iterset", "unpack"}


def result(kind, op, r):
    if op[0] in VALUE_OPS:
        return norm(kind, r)
    if op[0] in LIST_OPS:
        return [norm(kind, x) for x in r]
    return r


def attempt(fn):
    try:
        return ("ok", fn())
    except (IndexError, ValueError, TypeError, KeyError) as e:
        return ("error", type(e).__name__)


def contents(kind, arr):
    et, elems = arr.value
    cls = type(ref.build_var(TREES[kind][0]))
    require(et is cls and arr.element_type is cls, "element type changed to", et)
    require(isinstance(elems, list), "elements are no longer a list")
    for e in elems:
        require(type(e) is cls, "element is a", type(e))
    arr.assert_types()
    return [norm(kind, e.value) for e in elems]


def build(kind, seq):
    return ref.build_var(("A", kind, tuple(TREES[kind][i] for i in seq)))


MAXLEN = {"quick": 4, "thorough": 6}


def g_states(tier):
    for kind in TREES:
        for n in range(MAXLEN[tier] + 1):
            for seq in itertools.product((0, 1), repeat=n):
                yield (kind, seq)


@PROP.family(g_states, "every array of up to 4 (thorough 6) elements over two values, all 8 element types x every operation with every index -5..5, lookups and removals of values of other types included: result, error and new contents equal those of a list; this transition relation is closed, so it covers histories of any length within the bound")
def transitions(ctx, case):
    kind, seq = case
    for op in ops():
        arr = build(kind, seq)
        lst = [val(kind, i) for i in seq]
        a = attempt(lambda: do(arr, op, lambda i: val(kind, i), None))
        b = attempt(lambda: do(lst, op, lambda i: val(kind, i), None))
        ctx.step()
        if a[0] == b[0] == "ok":
            a, b = result(kind, op, a[1]), result(kind, op, b[1])
        if a != b:
            raise Violated(f"{op} on {seq} of {kind}: got {a!r}, a list gives {b!r}")
        got = contents(kind, arr)
        want = [norm(kind, x) for x in lst]
        if got != want:
            raise Violated(f"{op} on {seq} of {kind}: contents {got!r}, a list has {want!r}")
        ctx.state(kind, tuple(map(repr, got)))


def g_shared(tier):
    for kind in TREES:
        for n in range(1, MAXLEN[tier] + 1):
            for seq in itertools.product((0, 1), repeat=n):
                yield (kind, seq)


@PROP.family(g_shared, "arrays made of one element object repeated, and two arrays made of the same element objects: every changing operation on one changes only the places it names, and nothing in the other")
def shared(ctx, case):
    kind, seq = case
    for op in ops():
        if op[0] not in ("set", "insert", "append", "del", "popi", "remove", "extself", "reverse", "iadd", "iterset", "clear", "pop"):
            continue
        elems = {i: ref.build_var(TREES[kind][i]) for i in (0, 1)}
        cls = type(elems[0])
        objs = [elems[i] for i in seq]
        arr, other = type(build(kind, ()))(cls, list(objs)), type(build(kind, ()))(cls, list(objs))
        alone = [ref.snap_var(x) for x in objs]
        lst = [val(kind, i) for i in seq]
        a = attempt(lambda: do(arr, op, lambda i: val(kind, i), None))
        b = attempt(lambda: do(lst, op, lambda i: val(kind, i), None))
        ctx.step()
        same(a[0], b[0], f"{op} on {seq} of {kind}")
        same(contents(kind, arr), [norm(kind, x) for x in lst], f"contents after {op} on {seq} of {kind} with shared elements")
        same(contents(kind, other), [norm(kind, val(kind, i)) for i in seq], f"the other array after {op} on {seq} of {kind}")
        same([ref.snap_var(x) for x in objs], alone, f"the elements after {op} on {seq} of {kind}")
    ctx.state(case)


def g_boxes(tier):
    for kind in TREES:
        for op in ("append", "insert", "set", "extend", "iadd"):
            yield (kind, op)


@PROP.family(g_boxes, "elements made by append, insert, assignment, extend and += of equal values, in one array and in two, are objects of their own: changing the value of one changes no other")
def boxes(ctx, case):
    kind, op = case

    def fill(arr):
        for i in (0, 1, 0, 0, 1):
            v = val(kind, i)
            if op == "append":
                arr.append(v)
            elif op == "insert":
                arr.insert(0, v)
            elif op == "set":
                arr.append(val(kind, 1 - i))
                arr[-1] = v
            elif op == "extend":
                arr.extend([v])
            else:
                arr += [v]

    n = 5
    for k in range(n):
        a, b = build(kind, ()), build(kind, ())
        fill(a)
        fill(b)
        before = contents(kind, a)
        same(contents(kind, b), before, f"two arrays filled alike by {op} of {kind}")
        elem = a.value[1][k]
        other = val(kind, 1 if before[k] == norm(kind, val(kind, 0)) else 0)
        elem.value = other
        ctx.step()
        want = list(before)
        want[k] = norm(kind, other)
        same(contents(kind, a), want, f"the array after one element changed ({op}, {kind})")
        same(contents(kind, b), before, f"the other array after one element changed ({op}, {kind})")
    ctx.state(case)


def g_long(tier):
    for n in (9, 17, 33, 65, 129, 257, 1025, 5003) if tier == "quick" else (9, 17, 33, 65, 129, 257, 513, 1025, 2049, 5003, 20011, 65535):
        yield n


@PROP.family(g_long, "arrays of up to 5003 (thorough 65535) different elements: reading, assigning, inserting, deleting, popping, searching and removing at both ends, in the middle and at every power of two, reversing, extending and iterating: the same as a list")
def long(ctx, n):
    def fresh():
        lst = [i * 3 for i in range(n)]
        return ref.build_var(("A", "i", tuple(("i", v) for v in lst))), lst

    at = {0, 1, n // 2, n - 2, n - 1}
    k = 2
    while k < n:
        at |= {k - 1, k}
        k *= 2
    at = sorted(at | {i - n for i in at})
    arr, lst = fresh()
    same(list(arr), lst, "elements")
    for i in at:
        v = lst[i]
        same(arr[i], v, f"element {i} of {n}")
        for what, fn in (
            ("in", lambda o: v in o), ("not in", lambda o: v + 1 in o), ("index", lambda o: o.index(v)), ("count", lambda o: o.count(v)),
            ("index from", lambda o: o.index(v, i)), ("index to", lambda o: o.index(v, 0, i if i else n)),
        ):
            same(attempt(lambda: fn(arr)), attempt(lambda: fn(lst)), f"{what} of the element at {i} of {n}")
            ctx.step()
    for what, fn in (
        ("set", lambda o, i: o.__setitem__(i, -5)), ("del", lambda o, i: o.__delitem__(i)), ("pop", lambda o, i: o.pop(i)),
        ("insert", lambda o, i: o.insert(i, -5)), ("remove", lambda o, i: o.remove(i % n * 3)),
    ):
        arr, lst = fresh()
        for i in at[2:-2]:
            same(attempt(lambda: fn(arr, i)), attempt(lambda: fn(lst, i)), f"{what} at {i} of {n}")
            ctx.step()
            require(list(arr) == lst and len(arr) == len(lst), f"contents after {what} at {i} of {n} differ")
    for what, fn in (
        ("reverse", lambda o: o.reverse()), ("extend", lambda o: o.extend(range(n))), ("extend by itself", lambda o: o.extend(o)),
        ("extend by a generator", lambda o: o.extend(i for i in range(n))), ("clear", lambda o: o.clear()), ("append", lambda o: o.append(7)), ("pop", lambda o: o.pop()),
    ):
        arr, lst = fresh()
        same(fn(arr), fn(lst), f"result of {what} with {n}")
        ctx.step()
        require(list(arr) == lst and list(reversed(arr)) == lst[::-1], f"contents after {what} with {n} differ")
        same(ref.snap_var(arr), ("A", "i", tuple(("i", v) for v in lst)), f"variable after {what} with {n}")
    ctx.state(n)


HOPS = (("append", 0), ("append", 1), ("insert", 0, 1), ("insert", -1, 0), ("pop",), ("popi", 0), ("del", -1), ("set", 0, 1), ("set", -1, 0), ("reverse",), ("extself",), ("remove", 0), ("clear",), ("iadd", (1, 0)))


def g_hist(tier):
    n = 3 if tier == "quick" else 4
    for kind in TREES:
        for ln in range(1, n + 1):
            for h in itertools.product(range(len(HOPS)), repeat=ln):
                yield (kind, h)


@PROP.family(g_hist, "all histories of up to 3 (thorough 4) of 14 changing operations from the empty array, with the written form read back at the end")
def histories(ctx, case):
    kind, h = case
    arr, lst = build(kind, ()), []
    for i in h:
        op = HOPS[i]
        a = attempt(lambda: do(arr, op, lambda i: val(kind, i), None))
        b = attempt(lambda: do(lst, op, lambda i: val(kind, i), None))
        ctx.step()
        same(a[0], b[0], f"{op} in {h}")
        same(contents(kind, arr), [norm(kind, x) for x in lst], f"contents after {op} in {h}")
    from dustmaker import DFReader, DFWriter
    import io

    f = io.BytesIO()
    with DFWriter(f, noclose=True) as w:
        w.write_var_file(b"DF_TST", {"a": arr})
    f.seek(0)
    back = DFReader(f).read_var_file(b"DF_TST")["a"]
    same(contents(kind, back), [norm(kind, x) for x in lst], "written and read back")
    ctx.state(kind, tuple(map(repr, lst)))


def g_bad(tier):
    for kind in TREES:
        for seq in ((), (0,), (1, 0)):
            for b in range(len(BAD[kind])):
                for how in ("append", "insert", "set", "extend"):
                    yield (kind, seq, b, how)


@PROP.family(g_bad, "values of another type are refused by append, insert, assignment and extend and the array stays as it was")
def wrong_types(ctx, case):
    kind, seq, b, how = case
    arr = build(kind, seq)
    bad = BAD[kind][b]
    before = contents(kind, arr)
    ctx.step()
    try:
        if how == "append":
            arr.append(bad)
        elif how == "insert":
            arr.insert(0, bad)
        elif how == "set":
            if not seq:
                return
            arr[0] = bad
        else:
            arr.extend([bad])
    except (AssertionError, ValueError, TypeError):
        ctx.outcome("refused")
    else:
        raise Violated(f"{how} of {bad!r} into an array of {kind} was accepted")
    same(contents(kind, arr), before, "contents after the refusal")
    ctx.state(case)


def g_fog(tier):
    lens = (0, 1, 2, 20, 21, 22, 42, 525, 545, 546, 547, 600, 2000)
    for sub in (None, False, True):
        for n in lens:
            for m in lens:
                for g in range(6):
                    if g == 3 or n == m or tier == "thorough":
                        yield (sub, n, m, g)
        yield (sub, None, None, None)


@PROP.family(g_fog, "fog triggers with and without sublayers x array lengths around every documented length: lengths after normalization, kept entries, types; done twice")
def fog(ctx, case):
    from dustmaker.entity import FogTrigger

    sub, n, m, g = case
    var = [("width", ("i", 9))]
    if sub is not None:
        var.append(("has_sub_layers", ("b", sub)))
    if n is not None:
        var += [
            ("fog_colour", ("A", "u", tuple(("u", i + 7) for i in range(n)))),
            ("fog_per", ("A", "f", tuple(("f", i / 4) for i in range(m)))),
            ("gradient", ("A", "u", tuple(("u", i + 1) for i in range(g)))),
        ]
    n, m, g = n or 0, m or 0, g or 0
    e = FogTrigger(ref.build_map(("S", tuple(var))))
    want = 546 if sub else 21
    for _ in range(2):
        e.normalize()
        ctx.step()
        c, p, gr = list(e.colours), list(e.pers), list(e.gradient)
        same((len(c), len(p), len(gr)), (want, want, 3), "lengths")
        k = min(n, want)
        same(c[:k], [i + 7 for i in range(k)], "kept colours")
        k = min(m, want)
        same(p[:k], [i / 4 for i in range(k)], "kept coefficients")
        k = min(g, 3)
        same(gr[:k], [i + 1 for i in range(k)], "kept gradient")
        same((set(c[n:]) - {0x111118}, set(p[m:]) - {0.0}, set(gr[g:]) - {0}), (set(), set(), set()), "new entries")
        snap = dict(ref.snap_map(e.variables)[1])
        same((snap["fog_colour"][1], snap["fog_per"][1], snap["gradient"][1]), ("u", "f", "u"), "element types")
        same(snap["width"], ("i", 9), "other variables")
        same(snap.get("has_sub_layers", ("b", False)), ("b", bool(sub)), "sublayer flag")
    ctx.state(case)


def g_index(tier):
    yield (0,)


@PROP.family(g_index, "all 21 layers x (none or 25 sublayers): distinct indices within the normalized arrays; layers or sublayers outside are refused")
def layer_index(ctx, case):
    from dustmaker.entity import FogTrigger

    seen = {}
    for layer in range(21):
        for sub in [None] + list(range(25)):
            i = FogTrigger.get_layer_index(layer) if sub is None else FogTrigger.get_layer_index(layer, sub)
            ctx.step()
            require(isinstance(i, int) and 0 <= i < (21 if sub is None else 546), "index", i, "for", (layer, sub))
            require(i not in seen, "index", i, "used by", seen.get(i), "and", (layer, sub))
            seen[i] = (layer, sub)
            same(i, layer if sub is None else 21 * (1 + sub) + layer, f"index of {layer, sub}")
    same(len(seen), 546, "number of indices")
    for layer, sub in ((-1, None), (21, None), (22, None), (-1, 0), (21, 24), (0, -1), (0, 25), (20, 25), (20, -1), (255, 3)):
        try:
            i = FogTrigger.get_layer_index(layer, sub)
        except (AssertionError, ValueError, IndexError):
            ctx.outcome("refused")
        else:
            raise Violated(f"index {i} for layer {layer} sublayer {sub}")
    ctx.state(len(seen))
