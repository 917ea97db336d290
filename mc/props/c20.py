"""C20: automatically allocated ids never collide (explicit state exploration of histories)."""
import copy

from mc import ref
from mc.core import Prop, Violated, require, same

PROP = Prop("C20")
PROP.case_cpu_s = 7200.0
PROP.assumptions = [
    "props and entities are added through add_prop and add_entity and removed by deleting their dictionary entry",
    "explicit ids are non-negative",
]

PV = (1, 0, False, False, 1.0, 1, 2, 3, 4)
EV = ("z_thing", ("S", ()), 0, 18, False, False, True)


def new_prop(tag):
    p = ref.build_prop(PV if tag % 3 else (0, 0x8000, True, True, 0.5, 0, 0, 0, 0))
    p.prop_index = tag
    return p


ENTS = (
    EV, ("enemy_bear", ("S", ()), 0, 0, True, False, False), ("AI_controller", ("S", (("puppet_id", ("u", 7)),)), 0, 255, False, True, False),
    ("hittable_apple", ("S", ()), 0, 18, True, True, True), ("camera_node", ("S", ()), 0, 17, False, False, False),
)


def new_ent(tag):
    # kinds, layers, flips and visibility differ from object to object
    e = ref.build_entity(ENTS[tag % len(ENTS)])
    e.rotation = tag
    return e


class St:
    """Real level plus the model of what it holds: ids with a tag per object."""

    def __init__(self):
        from dustmaker.level import Level

        self.lv = Level()
        self.m = {"P": {}, "E": {}, "B": {}}
        self.tag = 0
        self.bmax = 0  # last maximum the backdrop was asked for

    def view(self):
        lv = self.lv
        return {
            "P": {i: v[3].prop_index for i, v in lv.props.items()},
            "E": {i: v[2].rotation for i, v in lv.entities.items()},
            "B": {i: v[3].prop_index for i, v in lv.backdrop.props.items()},
        }

    def ids(self):
        return set(self.m["P"]) | set(self.m["E"]) | set(self.m["B"])

    def add(self, kind, id_num=None):
        self.tag += 1
        args = () if id_num is None else (id_num,)
        if kind == "P":
            got = self.lv.add_prop(3, 1.0, 2.0, new_prop(self.tag), *args)
        elif kind == "E":
            got = self.lv.add_entity(1.0, 2.0, new_ent(self.tag), *args)
        else:
            got = self.lv.backdrop.add_prop(3, 1.0, 2.0, new_prop(self.tag), *args)
        return got

    def key(self):
        c = copy.deepcopy(self)
        nxt = c.add("E")
        return tuple(tuple(sorted(self.m[k])) for k in "PEB") + (nxt, self.bmax)


def others():
    from dustmaker.level import Level

    a = Level()
    # highest ids first
    a.add_prop(1, 0, 0, new_prop(1008), 109)
    a.add_prop(1, 0, 0, new_prop(1001), 105)
    a.add_entity(0, 0, new_ent(1009), 108)
    a.add_entity(0, 0, new_ent(1002), 106)
    a.backdrop.add_prop(1, 0, 0, new_prop(1003), 104)
    b = Level()
    b.add_prop(1, 0, 0, new_prop(1004), 2)
    b.add_entity(0, 0, new_ent(1005), 1)
    c = Level()
    d = Level()
    d.backdrop.add_prop(1, 0, 0, new_prop(1007), 70000)
    d.backdrop.add_prop(1, 0, 0, new_prop(1006), 69998)
    return {"a": a, "b": b, "c": c, "d": d}


OTHER_IDS = {"a": {"P": {109: 1008, 105: 1001}, "E": {108: 1009, 106: 1002}, "B": {104: 1003}}, "b": {"P": {2: 1004}, "E": {1: 1005}, "B": {}}, "c": {"P": {}, "E": {}, "B": {}}, "d": {"P": {}, "E": {}, "B": {70000: 1007, 69998: 1006}}}

XIDS = (3, 100, 101, 150)
OPS = (
    ["+P", "+E", "+B"]
    + [f"x{k}{i}" for k in "PEB" for i in XIDS]
    + ["-P", "-E", "-B", "_P", "_E", "_B"]
    + ["remap", "remap1", "remap500"]
    + ["maxR", "maxN", "maxBR", "maxBN"]
    + ["mergea", "mergeA", "mergeb", "mergeB", "mergec", "merged", "mergeD"]
    + ["file"]
)


def check_auto(st, kind, got):
    require(isinstance(got, int), "id is not an integer:", got)
    require(got not in st.ids(), f"automatic id {got} for {kind} is in use; ids", {k: sorted(v) for k, v in st.m.items()})
    st.m[kind][got] = st.tag


def apply(ctx, st, op):
    """Runs op on the real level and the model.  False if not applicable."""
    from dustmaker.exceptions import LevelException

    ctx.step()
    if op[0] == "+":
        check_auto(st, op[1], st.add(op[1]))
    elif op[0] == "x":
        kind, i = op[1], int(op[2:])
        if i in st.m[kind]:
            try:
                st.add(kind, i)
            except LevelException:
                ctx.outcome("duplicate refused")
            else:
                raise Violated(f"duplicate id {i} accepted for {kind}")
        else:
            same(st.add(kind, i), i, "returned id")
            st.m[kind][i] = st.tag
    elif op[0] in "-_":
        kind = op[1]
        if not st.m[kind]:
            return False
        i = max(st.m[kind]) if op[0] == "-" else min(st.m[kind])
        del {"P": st.lv.props, "E": st.lv.entities, "B": st.lv.backdrop.props}[kind][i]
        del st.m[kind][i]
    elif op.startswith("remap"):
        lo = int(op[5:] or 100)
        if op == "remap":
            st.lv.remap_ids()
        else:
            st.lv.remap_ids(lo)
        take(st, {k: sorted(v.values()) for k, v in st.m.items()}, "remapped")
        for k in "PE":
            require(all(i >= lo for i in st.m[k]), "remapped id below the minimum", st.m)
        everything = [i for k in "PEB" for i in st.m[k]]
        require(len(set(everything)) == len(everything), "remapped ids are not distinct", st.m)
    elif op.startswith("maxB"):
        # asked for the backdrop alone: its own ids only, nothing is handed out by it
        before = copy.deepcopy(st).add("E")
        got = st.lv.backdrop.calculate_max_id(reset=op == "maxBR")
        require(isinstance(got, int) and got >= max((100, *st.m["B"])), "maximum id of the backdrop", got, "ids", st.m)
        if op == "maxBR":
            same(got, max((100, *st.m["B"])), "maximum id of the backdrop")
        require(copy.deepcopy(st).add("E") >= before, "asking the backdrop lowered the next id of the level", before)
        st.bmax = got
    elif op.startswith("max"):
        reset = op == "maxR"
        before = copy.deepcopy(st).add("E")
        got = st.lv.calculate_max_id() if reset else st.lv.calculate_max_id(reset=False)
        require(isinstance(got, int) and got >= 100 and all(i <= got for i in st.ids()), "maximum id", got, "ids", st.m)
        if reset:
            same(got, max((100, *st.ids())), "maximum id")
            same(copy.deepcopy(st).add("E"), got + 1, "next id after the reset")
        else:
            after = copy.deepcopy(st).add("E")
            require(after >= before, "recomputing without reset lowered the next id from", before, "to", after)
            require(got >= before - 1, "reported maximum", got, "is below the ids handed out before", before)
    elif op.startswith("merge"):
        name = op[5].lower()
        o = others()[name]
        remap = op[5].islower()
        src = OTHER_IDS[name]
        want = {k: sorted(st.m[k].values()) for k in "PEB"}
        if remap:
            st.lv.merge(o)
            want = {k: sorted(want[k] + list(src[k].values())) for k in "PEB"}
        else:
            st.lv.merge(o, remap_ids=False)
            want = {k: sorted({**st.m[k], **src[k]}.values()) for k in "PEB"}
        take(st, want, op)
        if remap:
            theirs = {i for k in "PEB" for i in src[k]}
            mine = [i for k in "PEB" for i in st.m[k] if st.m[k][i] not in src[k].values()]
            require(len(set(mine)) == len(mine) and not theirs & set(mine), "ids shared after the merge", st.m)
        for k in "PEB":
            for i, t in src[k].items():
                same(st.m[k].get(i), t, f"id {i} of the merged level")
    elif op == "file":
        from dustmaker import read_level, write_level

        before = copy.deepcopy(st).add("E")
        st.lv = read_level(write_level(st.lv))
        after = copy.deepcopy(st).add("E")
        require(after >= before, "the file lowered the next id from", before, "to", after)
    else:
        raise ValueError(op)
    same(st.view(), st.m, f"contents after {op}")
    return True


def take(st, want, what):
    """Adopt the new ids after checking that the objects are the same."""
    got = st.view()
    same({k: sorted(v.values()) for k, v in got.items()}, want, f"objects after {what}")
    st.m = got


def probe(ctx, st):
    """Every kind of automatic add works from here."""
    for order in ("PEB", "BEP"):
        c = copy.deepcopy(st)
        for k in order:
            try:
                check_auto(c, k, c.add(k))
            except Violated:
                raise
            except Exception as e:
                raise Violated(f"automatic add of {k} failed: {type(e).__name__}: {e}; ids {st.m}") from e
        same(c.view(), c.m, "contents after automatic adds")
    ctx.step(6)


def g_hist(tier):
    for op in OPS:
        yield (op,)


@PROP.family(g_hist, "breadth first exploration of all histories of 4 (thorough 5) of 36 operations: automatic and explicit adds of three kinds, removals, remap, maximum of the level and of the backdrop, merge with and without remapping, file round trip; states with equal ids and next id are merged; every automatic add is probed in every state")
def histories(ctx, case):
    st = St()
    if not apply(ctx, st, case[0]):
        return
    probe(ctx, st)
    seen = {st.key()}
    frontier = [(st, case)]
    for _ in range(3 if ctx.tier == "quick" else 4):
        nxt = []
        for st, path in frontier:
            for op in OPS:
                c = copy.deepcopy(st)
                try:
                    if not apply(ctx, c, op):
                        continue
                    key = c.key()
                    ctx.state(key)
                    if key in seen:
                        continue
                    seen.add(key)
                    probe(ctx, c)
                except Exception as e:
                    raise Violated(f"history {list(path) + [op]}: {type(e).__name__} {e}") from e
                nxt.append((c, path + (op,)))
        frontier = nxt


def g_long(tier):
    import itertools

    n = 5 if tier == "quick" else 7
    for seq in itertools.product(("+P", "+E", "xE150", "-E", "_P", "maxN", "file", "mergeA")[: 6 if tier == "quick" else 8], repeat=n):
        yield seq


@PROP.family(g_long, "all histories of 5 (thorough 7) operations over a smaller alphabet")
def long_histories(ctx, case):
    st = St()
    for i, op in enumerate(case):
        try:
            apply(ctx, st, op)
        except Violated as e:
            raise Violated(f"history {list(case[: i + 1])}: {e}") from e
    probe(ctx, st)
    ctx.state(st.key())


def g_wide(tier):
    import itertools

    n = 4 if tier == "quick" else 5
    for big in (255, 65535, 65536, 2**24 + 5, 2**30, 2**31 - 1000):
        ops = ("+P", "+E", "+B", "xP0", "xE0", f"xB{big}", f"xE{big}", f"xP{big + 1}", "maxR", "maxN", "remap", "file", "mergea", "mergeB", "-E")
        for seq in itertools.product(ops, repeat=n - 1):
            yield seq


@PROP.family(g_wide, "all histories of 3 (thorough 4) operations with the explicit ids 0 and ids around powers of two up to 2^31")
def wide_ids(ctx, case):
    st = St()
    for i, op in enumerate(case):
        try:
            apply(ctx, st, op)
        except Violated as e:
            raise Violated(f"history {list(case[: i + 1])}: {e}") from e
    probe(ctx, st)
    ctx.state(st.key())


def g_many(tier):
    for n in (5, 20, 33, 65, 129, 257, 513) if tier == "quick" else (5, 20, 33, 65, 129, 257, 1025, 4097):
        for kind in "PEB":
            for where in ("first", "second", "middle", "last"):
                for how in ("explicit", "automatic"):
                    yield (n, kind, where, how)


@PROP.family(g_many, "up to 513 (thorough 4097) objects of one kind with the highest id added first, second, in the middle or last, the others of explicit or automatic ids: maximum, automatic adds, file, remap and merges afterwards")
def many(ctx, case):
    n, kind, where, how = case
    big = 70000
    at = {"first": 0, "second": 1, "middle": n // 2, "last": n - 1}[where]
    for op in ("maxR", "maxN", "file", "remap", "mergea", "mergeA", "+P", "+E", "+B", f"x{kind}{big}"):
        st = St()
        for i in range(n):
            if i == at:
                require(apply(ctx, st, f"x{kind}{big}"), "add")
            elif how == "explicit" or i < at:
                apply(ctx, st, f"x{kind}{5000 - i}")
            else:
                apply(ctx, st, f"+{kind}")
        apply(ctx, st, op)
        if op in ("maxR", "file"):
            apply(ctx, st, "maxR")
        probe(ctx, st)
    ctx.state(case)
