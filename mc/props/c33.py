"""C33: independent uses of the library do not interfere, however they are interleaved."""
import io
import itertools

from mc import geom as G
from mc import levelcases as L
from mc import ref, replaycases, sched
from mc.core import Prop, Violated, require, same
from mc.props.c25 import var_file

PROP = Prop("C33")
PROP.case_cpu_s = 900.0
PROP.assumptions = [
    "threads are switched at the lines of the code under test; the interpreter's own operations are atomic",
    "each use works on objects and streams of its own",
]


def spec(v):
    """Two small levels with everything in them, different in every value."""
    s = ref.empty_level()
    e = tuple(x[:3] + ((5 + v, -5),) + x[4:7] + ((3, -3 - v),) for x in L.EDGES)
    s["tiles"] = {(19, v, 0): (0, 4 + v, 1, 2 + v, 3, e), (19, v + 1, 0): (17, 4, 1 + v, 2, 3, e[::-1]), (3, -v - 1, 7): (5 + v, 0, 2, 1, v, e)}
    s["bd_tiles"] = {(3, 0, v): L.PLAIN}
    s["props"] = {100 + v: (2 + v, 5.0 + v, 6.0, L.PROPV[:5] + (1 + v,) + L.PROPV[6:])}
    s["bd_props"] = {110 + v: (2, 5.0, 6.0 + v, L.PROPV)}
    s["ents"] = {
        120 + v: (7.0 + v, 8.0, ("z_thing" + "x" * v, ("S", (("n", ("i", v)), ("l", ("A", "s", (("s", b"q" * (1 + v)),))))), 5 + v, 18, False, bool(v), True)),
        121 + v: (1.0, 2.0, ("AI_controller", ("S", (("puppet_id", ("u", 120 + v)), ("nodes", ("A", "v", (("v", (1.0 + v, 2.0)),))))), 0, 18, False, False, True)),
        130: (1.0, 2.0, ("enemy_bear" if v else "z_other", ("S", ()), 0, 18, False, False, True)),
    }
    s["vars"] = ("S", (("level_name", ("s", b"name" * (v + 1))), ("p1_x", ("i", 48 * v)), ("odd", ("b", True))))
    s["sshot"] = b"image" * v
    return s


def replay(v):
    streams = {0: [2] * (3 + v), 1: [0] * (300 if v else 2), 3: [2 - v, 1], 7: [5 + v] * 4, 9: [16384 - v, 1, 1], 10: [4 + v]}
    frames = [(f, 105 + v, -33, 150, 25 * v) for f in range(2)]
    return {"version": 4, "user": b"user" * v, "level": b"level%d" % v, "frames": 100 + v, "players": [(p + v, dict(streams)) for p in range(1 + v)], "ents": [(2, frames), (3 + v, frames[:1])]}


TREES = (
    ("S", (("a", ("A", "A", (("A", "i", (("i", 1),)), ("A", "i", ())))), ("s", ("s", b"xyz")), ("t", ("S", (("f", ("f", -1.5)), ("b", ("b", True))))))),
    ("S", (("long", ("s", b"y" * 70)), ("v", ("v", (0.5, -2.25))), ("l", ("A", "s", (("s", b""), ("s", b"ab")))), ("u", ("u", 7)), ("q", ("A", "S", (("S", (("k", ("i", 2)),)),))))),
)


def o_write(v):
    from dustmaker import DFWriter, write_level

    lv = ref.build_level(spec(v))
    if v == 0:
        return lambda: write_level(lv), None

    def run():
        out = io.BytesIO(b"x" * 9)
        out.seek(9)
        with DFWriter(out, noclose=True) as w:
            w.write_level(lv)
        return out.getvalue()

    return run, None


def o_read(v):
    from dustmaker import read_level, write_level

    data = write_level(ref.build_level(spec(v)))
    return lambda: read_level(data), ref.snap_level


def o_old(v):
    from dustmaker import read_level

    tl = [(19, [(1 + v, 2, L.FULLT)])]
    if v:
        pr = [ref.enc_prop_new(7, 3, 100.0, 50.0, L.PROPV, 32)]
    else:
        pr = [ref.enc_prop_old(8, 4, 10.5, -5.0, L.PROPV)]
    data = ref.enc_level(44, ("S", (("k", ("i", v)),)), b"im", [ref.enc_region(v, -1, [ref.enc_segment(8 if v else 6, 2, 3, tl, None, pr)])])
    return lambda: read_level(data), ref.snap_level


def o_rewrite(v):
    from dustmaker import DFReader, DFWriter, write_level

    data = write_level(ref.build_level(spec(v)))

    def run():
        r = DFReader(io.BytesIO(data))
        lv, offs = r.read_level_ex()
        body = r.read_bytes(offs[-1])
        lv.name = b"new" * (3 + v)
        out = io.BytesIO(b"y" * 3 * v)
        out.seek(3 * v)
        with DFWriter(out, noclose=True) as w:
            w.write_level_ex(lv, offs, (body[i : i + 40] for i in range(0, len(body), 40)))
        return out.getvalue()

    return run, None


def o_wreplay(v):
    from dustmaker import DFWriter

    rep = replaycases.build(replay(v))

    def run():
        out = io.BytesIO(b"z" * 5 * v)
        out.seek(5 * v)
        with DFWriter(out, noclose=True) as w:
            w.write_replay(rep)
        return out.getvalue()

    return run, None


def o_rreplay(v):
    from dustmaker import DFReader

    data = o_wreplay(v)[0]()

    def run():
        f = io.BytesIO(data)
        f.seek(5 * v)
        return DFReader(f).read_replay()

    return run, replaycases.snap


def o_wvar(v):
    from dustmaker import DFWriter

    m = ref.build_map(TREES[v])

    def run():
        out = io.BytesIO(b"w" * 4 * v)
        out.seek(4 * v)
        with DFWriter(out, noclose=True) as w:
            w.write_var_file(b"DF_STA", m)
        return out.getvalue()

    return run, None


def o_rvar(v):
    from dustmaker import DFReader

    data = var_file(b"DF_CFG", TREES[v])
    return lambda: DFReader(io.BytesIO(data)).read_var_file(b"DF_CFG"), ref.snap_map


def o_bits(v):
    from dustmaker.bitio import BitIOReader, BitIOWriter

    def run():
        out = io.BytesIO()
        w = BitIOWriter(out, noclose=True)
        for i, n in enumerate((3, 13, 8, 1, 32, 7)):
            w.write(n, (i * 37 + v * 5) & ((1 << n) - 1))
        w.write_bytes(b"pq" if v else b"r")
        w.align()
        w.bit_seek(8)
        w.write(5, 9 + v)
        w.close()
        r = BitIOReader(io.BytesIO(out.getvalue()))
        got = [r.read(n, signed=bool(v)) for n in (2, 9, 4, 17)]
        r.bit_seek(13)
        got += [r.read(6), r.read_bytes(2), r.bit_tell()]
        return out.getvalue(), got

    return run, None


def o_move(v):
    lv = ref.build_level(spec(v))

    def run():
        if v:
            lv.flip_horizontal()
            lv.translate(96, -48)
        else:
            lv.rotate(3)
        lv.upscale(2 + v)
        return lv

    return run, ref.snap_level


def o_edges(v):
    s = ref.empty_level()
    for i, sh in enumerate((0, 1 + v, 17, 4, 0, 20 - v)):
        s["tiles"][(19, i % 3, i // 3)] = (sh, 4, 1 + (i + v) % 2, 2, 3, L.EDGES)
    lv = ref.build_level(s)

    def run():
        lv.calculate_edge_visibility(visible_callback=(lambda x, y, side, t, n: (x + y + v) % 2 == 0))
        lv.calculate_edge_caps()
        return lv

    return run, ref.snap_level


def o_merge(v):
    a, b = ref.build_level(spec(v)), ref.build_level(spec(1 - v))

    def run():
        a.merge(b)
        a.remap_ids(300 + v)
        a.add_entity(1, 2, ref.build_entity(("z_new", ("S", ()), v, 18, False, False, True)))
        return a, a.calculate_max_id()

    return run, lambda r: (ref.snap_level(r[0]), r[1])


def o_props(v):
    from dustmaker.entity import CameraNode, FogTrigger
    from dustmaker.level import Level
    from dustmaker.variable import VariableArray, VariableInt

    def run():
        lv = Level()
        lv.name = b"n%d" % v
        lv.start_position(2).x = 5 + v
        f = FogTrigger()
        f.has_sub_layers = False
        f.normalize()
        c = CameraNode()
        c.nodes.append(7 + v)
        arr = VariableArray(VariableInt, [VariableInt(i + v) for i in range(3)])
        arr.insert(1, 40 + v)
        arr.reverse()
        del arr[0]
        return lv.variables, f.variables, c.variables, arr, list(arr), lv.start_position(2).x, lv.start_position(1).x

    return run, lambda r: (ref.snap_map(r[0]), ref.snap_map(r[1]), ref.snap_map(r[2]), ref.snap_var(r[3])) + r[4:]


def o_json(v):
    from dustmaker.cmd.variables import json_to_variables, variables_to_json

    var = ref.build_var(TREES[v])

    def run():
        s, j = variables_to_json(var)
        return s, j, json_to_variables(s, j)

    return run, lambda r: (r[0], r[1], ref.snap_var(r[2]))


def o_save(v):
    from dustmaker.cmd.save_convert import migrate_stats
    from mc.props.c28 import score, stats

    src = ref.build_map(stats([score(n, i + v) for i, n in enumerate((b"den", b"boxes", b"downhill", b"nowhere")[v:])], ("citybook",), 3 + v))
    return lambda: migrate_stats(src), ref.snap_map


def o_tile(v):
    tiles = [ref.build_tile((s, 4, 1, 2, 3, L.EDGES)) for s in (1 + v, 17, 9)]
    mats = [G.tx(G.D4[3 + v]), G.tx(G.D4[6 - v])]

    def run():
        out = []
        for t in tiles:
            for m in mats:
                t.transform(m)
            out.append((hash(t) == hash(t), t == tiles[0], t.is_dustblock(), t.sprite_path))
            out += list(t.upscale(2))
        m = mats[0] * 2 * mats[1].translate(3, 4)
        return tiles, out, m.sample(1, 2), m.determinant, m.scale

    return run, lambda r: ([ref.snap_tile(t) for t in r[0]], [x if len(x) == 4 else (x[0], x[1], ref.snap_tile(x[2])) for x in r[1]]) + r[2:]


USES = {
    "write": o_write, "read": o_read, "old": o_old, "rewrite": o_rewrite, "wreplay": o_wreplay, "rreplay": o_rreplay, "wvar": o_wvar, "rvar": o_rvar,
    "bits": o_bits, "move": o_move, "edges": o_edges, "merge": o_merge, "props": o_props, "json": o_json, "save": o_save, "tile": o_tile,
}


def outcome(use, pair):
    res, err = pair
    if err is not None:
        return ("error", type(err).__name__, str(err))
    snap = use[1]
    return ("ok", res if snap is None else snap(res))


def alone(name, v):
    use = USES[name](v)
    try:
        return outcome(use, (use[0](), None))
    except Exception as e:  # pylint: disable=broad-except
        raise Violated(f"{name} {v} alone: {type(e).__name__}: {e}") from e


def execute(ctx, names, plan):
    """Runs use 0 (first data) and use 1 (second data) under the plan."""
    uses = [USES[n](v) for v, n in enumerate(names)]
    got = sched.Sched([u[0] for u in uses]).run(plan)
    ctx.step()
    return [outcome(u, g) for u, g in zip(uses, got)]


def judge(ctx, names, want, plan):
    got = execute(ctx, names, plan)
    for i, n in enumerate(names):
        if got[i] != want[i]:
            raise Violated(f"{n} (use {i}) interleaved with {names[1 - i]} under {plan}: got {got[i]!r}, alone {want[i]!r}"[:3000])
    ctx.state(names, plan)


def g_pairs(tier):
    for a, b in itertools.product(USES, repeat=2):
        yield (a, b)


def run_of(names, v):
    return USES[names[v]](v)[0]


@PROP.family(g_pairs, "all ordered pairs of 16 uses (reading and writing of every file kind, bits, moves, edges, merging, properties, JSON, saves, tiles) x every line of the first, at its first (thorough: each of its first three) execution, as the point where the second runs in another thread; in functions that the second does not use, only where they are entered (thorough: every line): both have the results they have alone")
def one_switch(ctx, names):
    want = [alone(n, v) for v, n in enumerate(names)]
    if ctx.tier == "quick":
        ks = sched.points(run_of(names, 0), 1, sched.functions(run_of(names, 1)))
    else:
        ks = sched.points(run_of(names, 0), 3)
    for k in ks:
        judge(ctx, names, want, ((0, k), (1, None), (0, None)))


def g_two(tier):
    parts = 8 if tier == "quick" else 16
    pairs = [(a, a) for a in USES]
    related = (("write", "read"), ("wvar", "write"), ("rvar", "read"), ("wreplay", "write"), ("rreplay", "read"), ("bits", "write"), ("move", "tile"), ("rewrite", "read"), ("old", "read"))
    if tier == "thorough":
        pairs += [p for a, b in related for p in ((a, b), (b, a))]
    for p in pairs:
        for i in range(parts):
            yield p + (i, parts)


@PROP.family(g_two, "each of the 16 uses with itself on other data (thorough: also 18 pairs of related uses) x every pair of functions of both, and every line in its first two (thorough four) executions in both, as switching points (the first up to there, the second up to there, the first to its end, the second to its end); in thorough mode every pair of lines of the shorter ones")
def two_switches(ctx, case):
    names, part, parts = case[:2], case[2], case[3]
    want = [alone(n, v) for v, n in enumerate(names)]
    pa, pb = (sched.points(run_of(names, v), 1, ()) for v in (0, 1))
    fa, fb = {}, {}
    occ = 2 if ctx.tier == "quick" else 4
    la, lb = sched.points(run_of(names, 0), occ, None, fa), sched.points(run_of(names, 1), occ, None, fb)
    plans = {(k, q) for k in pa for q in pb}
    at = {}
    for q in lb:
        at.setdefault(fb[q], []).append(q)
    plans |= {(k, q) for k in la for q in at.get(fa[k], ())}
    if ctx.tier == "thorough":
        la, lb = (sched.points(run_of(names, v), 1) for v in (0, 1))
        if len(la) * len(lb) <= 40000:
            plans |= {(k, q) for k in la for q in lb}
    for k, q in sorted(plans)[part::parts]:
        judge(ctx, names, want, ((0, k), (1, q), (0, None), (1, None)))


# --- the library used from inside the library -------------------------------------------


class Stream(io.BytesIO):
    """Every call of the library on the stream uses the library for something else first."""

    inner = None
    n = 0

    def hook(self):
        fn, self.inner = self.inner, None
        if fn is not None:
            fn()
            self.inner = fn
            self.n += 1

    def read(self, *a):
        self.hook()
        return super().read(*a)

    def write(self, *a):
        self.hook()
        return super().write(*a)

    def seek(self, *a):
        self.hook()
        return super().seek(*a)

    def tell(self, *a):
        self.hook()
        return super().tell(*a)


def g_inner(tier):
    for outer in ("write", "read", "wvar", "rvar", "wreplay", "rreplay", "regions", "callback"):
        for inner in USES:
            yield (outer, inner)


@PROP.family(g_inner, "reading and writing of every file kind on streams whose every call first uses the library in one of 16 ways, region data produced by such a generator, and edges decided by such a callback")
def nested(ctx, case):
    from dustmaker import DFReader, DFWriter, write_level

    outer, name = case
    want_inner = alone(name, 1)

    def inner():
        use = USES[name](1)
        same(outcome(use, (use[0](), None)), want_inner, f"{name} inside {outer}")
        ctx.step()

    def perform(hook):
        if outer == "callback":
            s = ref.empty_level()
            for i in range(6):
                s["tiles"][(19, i % 3, i // 3)] = ((0, 17, 4)[i % 3], 4, 1 + i % 2, 2, 3, L.EDGES)
            lv = ref.build_level(s)

            def cb(x, y, side, t, n):
                if hook:
                    inner()
                return (x + y) % 2 == 0

            lv.calculate_edge_visibility(visible_callback=cb)
            return ref.snap_level(lv)
        data = write_level(ref.build_level(spec(0)))
        if outer == "regions":
            r = DFReader(io.BytesIO(data))
            lv, offs = r.read_level_ex()
            body = r.read_bytes(offs[-1])

            def pieces():
                for i in range(0, len(body), 30):
                    if hook:
                        inner()
                    yield body[i : i + 30]

            out = io.BytesIO()
            with DFWriter(out, noclose=True) as w:
                w.write_level_ex(lv, offs, pieces())
            return out.getvalue()
        if outer == "rvar":
            data = var_file(b"DF_CFG", TREES[0])
        elif outer == "rreplay":
            data = o_wreplay(0)[0]()
        st = Stream(data if outer[0] == "r" else b"")
        if hook:
            st.inner = inner
        if outer == "read":
            res = ref.snap_level(DFReader(st).read_level())
        elif outer == "rvar":
            res = ref.snap_map(DFReader(st).read_var_file(b"DF_CFG"))
        elif outer == "rreplay":
            res = replaycases.snap(DFReader(st).read_replay())
        else:
            with DFWriter(st, noclose=True) as w:
                if outer == "write":
                    w.write_level(ref.build_level(spec(0)))
                elif outer == "wvar":
                    w.write_var_file(b"DF_STA", ref.build_map(TREES[0]))
                else:
                    w.write_replay(replaycases.build(replay(0)))
            st.inner = None
            res = st.getvalue()
        if hook:
            require(st.n > 0, "the stream was never used")
        return res

    want = perform(False)
    same(perform(True), want, f"{outer} with {name} inside")
    ctx.state(case)
