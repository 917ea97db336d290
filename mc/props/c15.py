"""C15: transformation matrices compose like affine maps."""
import itertools
import math
from fractions import Fraction

from mc.core import Prop, Violated, require, same

PROP = Prop("C15")
PROP.assumptions = ["matrix entries and points are dyadic numbers small enough for exact float arithmetic"]

E = (-2, -1, 0, 1, 3)
ENTRIES = (-2, 0, 1)


def mk(a):
    from dustmaker.transform import TxMatrix

    return TxMatrix(((a[0], a[1], a[2]), (a[3], a[4], a[5]), (0, 0, 1)))


def smp(a, p, off=True):
    return (
        a[0] * p[0] + a[1] * p[1] + (a[2] if off else 0),
        a[3] * p[0] + a[4] * p[1] + (a[5] if off else 0),
    )


def comp(a, b):
    """a after b"""
    return (
        a[0] * b[0] + a[1] * b[3], a[0] * b[1] + a[1] * b[4], a[0] * b[2] + a[1] * b[5] + a[2],
        a[3] * b[0] + a[4] * b[3], a[3] * b[1] + a[4] * b[4], a[3] * b[2] + a[4] * b[5] + a[5],
    )


def flat(m):
    require(len(m) == 3 and all(len(r) == 3 for r in m), "not 3x3:", m)
    same(tuple(m[2]), (0, 0, 1), "last row")
    return tuple(m[0]) + tuple(m[1])


POINTS = ((0, 0), (1, 0), (0, 1), (-3, 5), (0.5, -0.25), (48, 1000))

UNIT = (1, 0, 0, 0, 1, 0)


def bank():
    """Matrices for pairs and triples: symmetries, scalings, shears, offsets."""
    lin = [(1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0), (-1, 0, 0, 1), (1, 0, 0, -1), (0, 1, 1, 0),
           (2, 0, 0, 2), (1, 2, 0, 1), (1, 0, -3, 1), (0, 0, 0, 0), (0.5, -0.25, 4, 3)]
    offs = [(0, 0), (5, 0), (0, 7), (-3.5, 11), (48, -96)]
    return [(l[0], l[1], o[0], l[2], l[3], o[1]) for l in lin for o in offs]


BANK = bank()


def g_pairs(tier):
    for i in range(len(BANK)):
        for j in range(len(BANK)):
            yield (i, j)


@PROP.family(g_pairs, "all ordered pairs of 60 matrices x 6 points: product, sampling")
def pairs(ctx, case):
    a, b = BANK[case[0]], BANK[case[1]]
    ma, mb = mk(a), mk(b)
    prod = ma * mb
    ctx.step()
    same(flat(prod), comp(a, b), f"product of {a} and {b}")
    same(type(prod), type(ma), "type of the product")
    for p in POINTS:
        same(prod.sample(*p), ma.sample(*mb.sample(*p)), f"sample {p} of {a} * {b}")
        same(prod.sample(*p), smp(comp(a, b), p), f"sample {p} of {a} * {b}")
    same(flat(ma), a, "left factor afterwards")
    same(flat(mb), b, "right factor afterwards")
    ctx.state(comp(a, b))


def g_entries(tier):
    for a in itertools.product(ENTRIES, repeat=6):
        yield a
    if tier == "thorough":
        for a in itertools.product(E, repeat=6):
            yield a


@PROP.family(g_entries, "all matrices with entries in {-2,0,1} (thorough also {-2,-1,0,1,3}): determinant, mirror test, scale, sampling, scalar multiples, translation, neutral element")
def entries(ctx, case):
    from dustmaker.transform import TxMatrix

    a = tuple(case)
    m = mk(a)
    d = a[0] * a[4] - a[1] * a[3]
    same(m.determinant, d, "determinant")
    # orientation and area of the sampled unit square
    o, x, y = m.sample(0, 0), m.sample(1, 0), m.sample(0, 1)
    area = (x[0] - o[0]) * (y[1] - o[1]) - (x[1] - o[1]) * (y[0] - o[0])
    same(d, area, "signed area of the sampled unit square")
    same(bool(m.flipped), area < 0, "flipped")
    require(math.isclose(m.scale * m.scale, abs(area), rel_tol=1e-12, abs_tol=1e-12) and m.scale >= 0, "scale", m.scale, "area", area)
    for p in POINTS:
        same(m.sample(*p), smp(a, p), f"sample {p}")
        same(m.sample(*p, with_offset=False), smp(a, p, False), f"sample {p} without offset")
        same(m.sample(*p, with_offset=True), smp(a, p), f"sample {p} with offset")
    for k in (0, 1, -1, 2, 0.5, 16, 1024, -(2.0**-10)):
        same(flat(m * k), tuple(v * k for v in a), f"times {k}")
        same((m * k).determinant, area * k * k, f"determinant times {k}")
        same(bool((m * k).flipped), area * k * k < 0, f"flipped times {k}")
        require(math.isclose((m * k).scale, m.scale * abs(k), rel_tol=1e-9), "scale", (m * k).scale, "of multiple", k)
        same(flat(k * m), tuple(v * k for v in a), f"{k} times")
        for p in POINTS[:4]:
            q = smp(a, p)
            same((m * k).sample(*p), (q[0] * k, q[1] * k), f"sample of multiple {k}")
            same((k * m).sample(*p), (q[0] * k, q[1] * k), f"sample of multiple {k}")
    for tx, ty in ((0, 0), (5, 0), (0, -7), (1.5, 48)):
        t = m.translate(tx, ty)
        same(flat(t), (a[0], a[1], a[2] + tx, a[3], a[4], a[5] + ty), "translate")
        same(flat(TxMatrix.IDENTITY.translate(tx, ty) * m), flat(t), "translation matrix on the left")
    same(flat(TxMatrix.IDENTITY * m), a, "identity on the left")
    same(flat(m * TxMatrix.IDENTITY), a, "identity on the right")
    same(flat(m), a, "the matrix afterwards")
    ctx.step()
    ctx.state(a)


def g_triples(tier):
    n = len(BANK)
    idx = range(0, n, 3) if tier == "quick" else range(n)
    for i in idx:
        for j in idx:
            for k in idx:
                yield (i, j, k)


@PROP.family(g_triples, "associativity on all triples of 20 (thorough 60) matrices")
def triples(ctx, case):
    a, b, c = (BANK[i] for i in case)
    ma, mb, mc_ = mk(a), mk(b), mk(c)
    left, right = (ma * mb) * mc_, ma * (mb * mc_)
    same(flat(left), flat(right), "associativity")
    same(flat(left), comp(a, comp(b, c)), "triple product")
    ctx.step(2)
    ctx.state(flat(left))


def g_const(tier):
    for name in ("IDENTITY", "HFLIP", "VFLIP", 0, 1, 2, 3):
        yield (name,)


@PROP.family(g_const, "the named constants")
def constants(ctx, case):
    from dustmaker.transform import TxMatrix

    (name,) = case
    if isinstance(name, str):
        m = getattr(TxMatrix, name)
        want = {"IDENTITY": lambda x, y: (x, y), "HFLIP": lambda x, y: (-x, y), "VFLIP": lambda x, y: (x, -y)}[name]
    else:
        same(len(TxMatrix.ROTATE), 4, "number of rotations")
        m = TxMatrix.ROTATE[name]

        def want(x, y):
            for _ in range(name):
                x, y = -y, x  # clockwise on screen, y grows downwards
            return x, y

    for p in POINTS:
        same(m.sample(*p), want(*p), f"{name} of {p}")
    same(bool(m.flipped), name in ("HFLIP", "VFLIP"), f"{name}.flipped")
    same(m.scale, 1, f"{name}.scale")
    ctx.step()
    ctx.state(name)


# ------------------------------------------------------------------ refusals

OKROWS = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


def g_refuse(tier):
    good = [list(r) for r in OKROWS]
    bad = []
    for n in (0, 1, 2, 4):
        bad.append(tuple((1, 0, 0) for _ in range(n)))
    bad.append(())
    bad.append(OKROWS + ((0, 0, 1),))
    for r in range(3):
        for ln in (0, 1, 2, 4):
            rows = [tuple(x) for x in good]
            rows[r] = (rows[r] + (0, 0))[:ln]
            bad.append(tuple(rows))
        for c in range(3):
            for v in ("1", None, b"0", (1,)):
                rows = [list(x) for x in good]
                rows[r][c] = v
                bad.append(tuple(tuple(x) for x in rows))
    for last in itertools.product((0, 1, 2, -1, 0.5), repeat=3):
        if last != (0, 0, 1):
            bad.append(OKROWS[:2] + (last,))
    for b in bad:
        yield (b,)


@PROP.family(g_refuse, "wrong row counts, row lengths, element types at each of the 9 places and every last row over {0,1,2,-1,.5} except 0,0,1")
def refuse(ctx, case):
    from dustmaker.transform import TxMatrix

    ctx.step()
    for form in (lambda x: x, lambda x: [list(r) for r in x], lambda x: (iter(r) for r in x)):
        try:
            m = TxMatrix(form(case[0]))
        except Exception:  # any refusal will do
            ctx.outcome("refused")
            continue
        raise Violated(f"accepted {case[0]!r} as {m!r}")
    ctx.state(case)


def g_accept(tier):
    for a in BANK:
        yield (a,)


@PROP.family(g_accept, "lists, tuples and generators of rows, ints and floats are accepted and read back; equal matrices are equal and hashable; inverse pairs cancel")
def accept(ctx, case):
    from dustmaker.transform import TxMatrix

    a = case[0]
    rows = ((a[0], a[1], a[2]), (a[3], a[4], a[5]), (0, 0, 1))
    forms = [rows, [list(r) for r in rows], (iter(r) for r in rows), tuple(tuple(float(v) for v in r) for r in rows)]
    ms = [TxMatrix(f) for f in forms]
    for m in ms:
        same(flat(m), a, "entries")
        require(m == ms[0] and hash(m) == hash(ms[0]), "equal matrices differ")
    d = Fraction(a[0]) * Fraction(a[4]) - Fraction(a[1]) * Fraction(a[3])
    if d in (1, -1):
        d = int(d)
        il = (a[4] * d, -a[1] * d, -a[3] * d, a[0] * d)
        inv = (il[0], il[1], -(il[0] * a[2] + il[1] * a[5]), il[2], il[3], -(il[2] * a[2] + il[3] * a[5]))
        same(flat(mk(inv) * ms[0]), UNIT, "inverse times matrix")
        same(flat(ms[0] * mk(inv)), UNIT, "matrix times inverse")
    ctx.step()
    ctx.state(a)
