"""Niggli reduction, built-in implementation, through the public function."""

from symx.job import Job

ASSUMPTIONS = [
    "cells are lower triangular with positive diagonal and metric (A,B,C,xi,eta,zeta) free: every right-handed cell up to a rotation; handed_any covers general 3x3 cells for the volume and transformation checks",
    "the absolute tolerance eps = eps_relative*V^(1/3) is free with 0 <= eps <= min(A,B,C)/100 (eps_relative is chosen accordingly)",
    "one or two passes of the loop (max_iterations = 0 or 1) from an arbitrary cell; longer sequences are repetitions of the same pass from another arbitrary state",
    "a value tracked as -|x| or |x| with |x| <= eps may differ from the actual one by 2 eps: the reduced conditions are asserted for the actual metric with slack 12 eps",
    "termination of the loop is not covered",
]


def _cell(h, signs=None, exact=False, generic=False):
    A, B, C = (h.real(n, pos=True) for n in "ABC")
    x, e, z = h.real("xi"), h.real("eta"), h.real("zeta")
    lim = h.q("1/20")
    g22 = A * B * 4 - z * z
    g33 = 4 * A * B * C + x * e * z - A * x * x - B * e * e - C * z * z
    for v in (A, B, C):
        h.assume(h.lt(lim, v), base=True)
    h.assume(h.lt(h.q("1/100"), g22), base=True)
    h.assume(h.lt(h.q("1/100"), g33), base=True)
    if exact:
        q = h.q(0)
    else:
        q = h.real("q", pos=True)
        for v in (A, B, C):
            h.assume(h.le(q * 100, v), base=True)
    a = h.sqrt(A)
    b1 = h.div(z, 2 * a)
    b2 = h.sqrt(h.div(g22, 4 * A))
    c1 = h.div(e, 2 * a)
    c2 = h.div(h.div(x, 2) - b1 * c1, b2)
    c3 = h.sqrt(h.div(g33, g22))
    cell = [[a, h.q(0), h.q(0)], [b1, b2, h.q(0)], [c1, c2, c3]]
    if exact:
        # floating-point replays need a tolerance where exact arithmetic does not
        er = h.q(0) if h.symbolic else 1e-9
    else:
        er = h.div(q, h.root(h.abs(a * b2 * c3), 3))
    return (A, B, C, x, e, z), q, cell, er


def _T(h, cell, R):
    """R = T cell for lower-triangular cell"""
    T = []
    for r in h.rows(R):
        t3 = h.div(r[2], cell[2][2])
        t2 = h.div(r[1] - t3 * cell[2][1], cell[1][1])
        t1 = h.div(r[0] - t3 * cell[2][0] - t2 * cell[1][0], cell[0][0])
        T.append([t1, t2, t3])
    return T


def _lattice(h, cell, R):
    T = _T(h, cell, R)
    for r in T:
        for t in r:
            k = h.floor(t + h.q("1/2"))
            h.eq(t, k, "the transformation matrix is integer")
    h.eq(h.det(T), 1, "the transformation matrix has determinant +1")


def _reduced(h, R, q):
    R = h.rows(R)
    A, B, C = (h.dot(R[i], R[i]) for i in range(3))
    x, e, z = 2 * h.dot(R[1], R[2]), 2 * h.dot(R[0], R[2]), 2 * h.dot(R[0], R[1])
    s = 12 * q
    h.lec(A, B + s, "A <= B")
    h.lec(B, C + s, "B <= C")
    for nm, v, lim in (("xi", x, B), ("eta", e, A), ("zeta", z, A)):
        h.lec(v, lim + s, f"{nm} <= its bound")
        h.lec(-lim - s, v, f"-{nm} <= its bound")
    h.lec(-s, x + e + z + A + B, "xi+eta+zeta+A+B >= 0")
    pos = h.And(h.lt(-s, x), h.lt(-s, e), h.lt(-s, z))
    neg = h.And(h.le(x, s), h.le(e, s), h.le(z, s))
    h.check(h.Or(pos, neg), "all positive or all non-positive")
    return A, B, C, x, e, z


def _special(h, m):
    """boundary conditions of the Niggli cell, exact arithmetic"""
    A, B, C, x, e, z = m
    I, eq, le = h.Implies, h.eqb, h.le
    h.check(I(eq(A, B), le(h.abs(x), h.abs(e))), "A = B: |xi| <= |eta|")
    h.check(I(eq(B, C), le(h.abs(e), h.abs(z))), "B = C: |eta| <= |zeta|")
    h.check(I(eq(x, B), le(z, 2 * e)), "xi = B: zeta <= 2 eta")
    h.check(I(eq(e, A), le(z, 2 * x)), "eta = A: zeta <= 2 xi")
    h.check(I(eq(z, A), le(e, 2 * x)), "zeta = A: eta <= 2 xi")
    h.check(I(eq(x, -B), eq(z, 0)), "xi = -B: zeta = 0")
    h.check(I(eq(e, -A), eq(z, 0)), "eta = -A: zeta = 0")
    h.check(I(eq(z, -A), eq(e, 0)), "zeta = -A: eta = 0")
    h.check(I(eq(x + e + z + A + B, 0), le(2 * (A + e) + z, 0)), "sum = 0: 2(A+eta)+zeta <= 0")


ORD = 6


def _split(h, p, k):
    """8 sign patterns of (xi, eta, zeta): partition the inputs between parallel jobs"""
    A, B, C, x, e, z = p
    for i, v in enumerate((x, e, z)):
        h.assume(h.le(0, v) if (k >> i) & 1 else h.lt(v, 0))


def _run(h, cell, er, n):
    f = h.w.cell.get_niggli
    c0 = h.snapshot(cell)
    R, exc = h.call(f, cell, eps_relative=er, implementation="wulfric", max_iterations=n)
    h.eqv(cell, c0, "argument unchanged")
    if exc is not None:
        h.check(h.exc_name(exc) == "NiggliReductionFailed", "the only error is the failure to converge")
        return None
    return R


def _strict(h, p, q):
    """well inside the reduced region: no step but a sign change can be needed"""
    A, B, C, x, e, z = p
    s = 2 * q
    ax, ae, az = h.abs(x), h.abs(e), h.abs(z)
    base = [h.lt(A + s, B), h.lt(B + s, C), h.lt(ax + s, B), h.lt(ae + s, A), h.lt(az + s, A)]
    base.append(h.lt(ax + ae + az + s, A + B))
    return h.And(*base)


def one_pass(k):
    def f(h):
        p, q, cell, er = _cell(h)
        _split(h, p, k)
        R = _run(h, cell, er, 0)
        if R is not None:
            _lattice(h, cell, R)
            _reduced(h, R, q)
        else:
            h.check(h.Not(_strict(h, p, q)), "a reduced cell needs one pass only")

    return f


def _niggli(h, p):
    """the Niggli conditions, exact arithmetic"""
    A, B, C, x, e, z = p
    I, eq, le, lt = h.Implies, h.eqb, h.le, h.lt
    ax, ae, az = h.abs(x), h.abs(e), h.abs(z)
    main = [le(A, B), le(B, C), le(ax, B), le(ae, A), le(az, A)]
    main += [I(eq(A, B), le(ax, ae)), I(eq(B, C), le(ae, az))]
    pos = h.And(lt(0, x), lt(0, e), lt(0, z), I(eq(x, B), le(z, 2 * e)), I(eq(e, A), le(z, 2 * x)), I(eq(z, A), le(e, 2 * x)))
    s = x + e + z + A + B
    neg = h.And(
        le(x, 0), le(e, 0), le(z, 0), le(0, s),
        I(eq(x, -B), eq(z, 0)), I(eq(e, -A), eq(z, 0)), I(eq(z, -A), eq(e, 0)), I(eq(s, 0), le(2 * (A + e) + z, 0)),
    )
    return h.And(*main, h.Or(pos, neg))


def one_pass_exact(k):
    def f(h):
        p, q, cell, er = _cell(h, exact=True)
        _split(h, p, k)
        R = _run(h, cell, er, 0)
        if R is not None:
            _lattice(h, cell, R)
            _special(h, _reduced(h, R, q))
        else:
            h.check(h.Not(_niggli(h, p)), "a cell that satisfies the Niggli conditions needs one pass only")

    return f


def two_pass_exact(k):
    def f(h):
        p, q, cell, er = _cell(h, exact=True)
        _split(h, p, k)
        R = _run(h, cell, er, 1)
        if R is not None:
            _lattice(h, cell, R)
            _special(h, _reduced(h, R, q))

    return f


# integer cells whose volume is a cube, none of them reduced
SHAPES = [
    ((1, 0, 0), (7, 1, 0), (3, 5, 1)),
    ((2, 0, 0), (3, 2, 0), (5, -7, 2)),
    ((1, 0, 0), (3, 2, 0), (-4, 3, 4)),
    ((0, 3, 1), (1, 4, 4), (3, -2, 0)),
    ((1, 1, 0), (0, 1, 1), (6, 5, -26)),
    ((1, 0, 0), (0, 0, -8), (0, 1, 3)),
]


def scaled(k):
    """any number of passes, any size of the cell, default tolerance"""

    def f(h):
        rows = SHAPES[k]
        v = round(abs(_idet(rows)) ** (1 / 3))
        t = h.real("size", pos=True)
        h.assume(h.And(h.le(h.q("1/2000"), t), h.le(t, 2000)), base=True)
        cell = [[t * x for x in r] for r in rows]
        R, exc = h.call(h.w.cell.get_niggli, h.array(cell) if k % 2 else cell, implementation="wulfric")
        h.check(exc is None, "the reduction ends")
        if exc is not None:
            return
        unit = [[h.div(x, t) for x in r] for r in h.rows(R)]
        one = [[h.q(x) for x in r] for r in rows]
        n = _solve(h, unit, one)
        for r in n:
            for x in r:
                h.eq(x, h.floor(x + h.q("1/2")), "the transformation matrix is integer")
        h.eq(h.det(n), 1, "the transformation matrix has determinant +1")
        # lengths in units of the size of the cell: eps is size * v / 100000
        _reduced(h, unit, h.div(h.q("1/100000") * v, t))

    return f


def _idet(m):
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))


def _solve(h, R, c):
    """T with R = T c"""
    d = h.det(c)
    inv = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = [x for x in range(3) if x != j], [x for x in range(3) if x != i]
            m = c[a[0]][b[0]] * c[a[1]][b[1]] - c[a[0]][b[1]] * c[a[1]][b[0]]
            inv[i][j] = h.div(m if (i + j) % 2 == 0 else -m, d)
    return h.matmul(R, inv)


FAMILIES = [  # rows: (constant, coefficient of t)
    (((1, 0), (0, 0), (0, 0)), ((0, 1), (1, 0), (0, 0)), (("1/3", 0), (0, 1), ("3/2", 0))),
    (((1, 0), (0, 0), (0, 0)), (("1/2", 0), (1, 0), (0, 0)), ((0, 1), ("1/4", -1), ("1/2", 0))),
    (((1, 1), (0, 0), ("1/5", 0)), ((0, 0), (2, 0), (0, 1)), ((0, 0), ("1/7", 0), (3, 0))),
    (((1, 0), (0, 1), (0, 0)), ((0, -1), (1, 0), (0, 0)), (("1/2", 0), ("1/2", 0), (1, 0))),
]


def family(k, lo, hi):
    """any number of passes along a line of cells"""

    def f(h):
        t = h.real("t")
        h.assume(h.And(h.le(h.q(lo), t), h.le(t, h.q(hi))), base=True)
        cell = [[h.q(a) + h.q(b) * t for a, b in r] for r in FAMILIES[k]]
        h.assume(h.lt(h.q("1/10"), h.abs(h.det(cell))), base=True)
        R, exc = h.call(h.w.cell.get_niggli, cell, eps_relative=h.q(0) if h.symbolic else 1e-9, implementation="wulfric", max_iterations=30)
        h.check(exc is None, "the reduction ends")
        if exc is None:
            n = _solve(h, R, cell)
            for r in n:
                for x in r:
                    h.eq(x, h.floor(x + h.q("1/2")), "the transformation matrix is integer")
            h.eq(h.det(n), 1, "the transformation matrix has determinant +1")
            _special(h, _reduced(h, R, h.q(0)))

    return f


def zero_volume(h):
    """a vanishing determinant is refused: third vector in the span of the other two"""
    k = h.choose("which", 3)
    u, v = h.vec("u"), h.vec("v")
    s, t = h.real("s"), h.real("t")
    w = [s * a + t * b for a, b in zip(u, v)]
    if not h.symbolic:
        return  # rounding makes the floating-point volume non-zero; decided symbolically
    cell = [[w, u, v], [u, w, v], [u, v, w]][k]
    R, exc = h.call(h.w.cell.get_niggli, cell, implementation="wulfric", max_iterations=0)
    h.check(exc is not None and isinstance(exc, ValueError), "zero volume is an error")


def zero_volume_flat(h):
    """coordinate-plane cells (exactly zero volume in floating point as well)"""
    k = h.choose("axis", 3)
    c = h.mat("c")
    for r in c:
        r[k] = h.q(0)
    R, exc = h.call(h.w.cell.get_niggli, c, implementation="wulfric", max_iterations=0)
    h.check(exc is not None and isinstance(exc, ValueError), "zero volume is an error")


def options(h):
    """spglib's answer is passed through; unknown names are refused"""
    c = h.mat("c")
    ans = h.array(h.mat("r"))
    seen = []

    def reduce(lattice=None, eps=1e-5):
        seen.append((lattice, eps))
        return ans

    h.stub_spglib(niggli_reduce=reduce)
    e = h.real("e", pos=True)
    R = h.w.cell.get_niggli(c, eps_relative=e)
    h.check(len(seen) == 1, "spglib is asked once")
    h.eqv(R, ans, "spglib's cell is returned")
    h.eqv(seen[0][0], c, "spglib gets the cell")
    h.eq(seen[0][1], e, "spglib gets the tolerance")
    for nm in ("other", ""):
        R, exc = h.call(h.w.cell.get_niggli, c, implementation=nm)
        h.check(exc is not None and isinstance(exc, ValueError), "unknown implementation is an error")


def jobs(tier):
    out = [
        Job("zero_volume", zero_volume, wall=60, bounds="all linearly dependent triples"),
        Job("zero_volume_flat", zero_volume_flat, wall=60, bounds="all cells within a coordinate plane"),
        Job("options", options, wall=30, bounds="any cell, any tolerance"),
    ]
    for k in range(len(SHAPES)):
        out.append(Job(f"scaled_{k}", scaled(k), wall=300, bounds="one shape, any size from 1/2000 to 2000, any number of passes, default tolerance"))
    for k in range(len(FAMILIES)):
        for lo, hi in (("-1", "-1/2"), ("-1/2", "1/2"), ("1/2", "1")) + ((("-3", "-2"), ("-2", "-1"), ("1", "2"), ("2", "3")) if tier == "thorough" else ()):
            if (k, lo) == (2, "-1") and tier != "thorough":
                continue  # takes minutes
            out.append(Job(f"family_{k}_{lo}", family(k, lo, hi), wall=300, paths=4000, bounds=f"a line of cells, parameter from {lo} to {hi}, eps = 0, up to 31 passes"))
    if True:
        for k in range(8):
            out.append(Job(f"two_pass_exact_{k}", two_pass_exact(k), wall=700, paths=6000, bounds=f"two passes, any metric, sign pattern {k}, eps = 0"))
    for k in range(8):
        out.append(Job(f"one_pass_{k}", one_pass(k), wall=250, paths=6000, feas_ms=250, bounds=f"one pass, any metric, sign pattern {k}, 0 < eps <= min(A,B,C)/100"))
        out.append(Job(f"one_pass_exact_{k}", one_pass_exact(k), wall=250, paths=6000, bounds=f"one pass, any metric, sign pattern {k}, eps = 0"))
    return out
