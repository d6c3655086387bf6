"""Lattice parameters <-> cells, angles, admissibility."""

from symx.job import Job

ASSUMPTIONS = [
    "from_params: the geometric admissibility of three angles (positive Gram determinant > 1e-3) is assumed together with the documented angle inequalities, because the inequalities are linear in the angles and the Gram determinant is not",
]


EPS2 = "1e-31"  # documented limit of a zero vector: length <= 2.2e-16


def _angle_is(h, ang, u, v, label, radians=False):
    """ang is the angle between u and v: cos(ang) |u||v| = u.v"""
    t = 1 if radians else h.PI / 180
    c = h.cos(ang * t)
    s = h.sin(ang * t)
    uu, vv, uv = h.dot(u, u), h.dot(v, v), h.dot(u, v)
    h.eq(c * c * uu * vv, uv * uv, label + ": squared cosine")
    h.check(h.Or(h.And(h.le(0, c), h.le(0, uv)), h.And(h.le(c, 0), h.le(uv, 0))), label + ": sign of the cosine")
    h.check(h.le(0, s), label + ": between 0 and 180")


def get_angle(h):
    u, v = h.vec("u"), h.vec("v")
    lim = h.q(EPS2)
    h.assume(h.lt(lim, h.dot(u, u)), base=True)
    h.assume(h.lt(lim, h.dot(v, v)), base=True)
    u0, v0 = h.snapshot(u), h.snapshot(v)
    a = h.w.geometry.get_angle(u, v)
    _angle_is(h, a, u, v, "angle in degrees")
    b = h.w.geometry.get_angle(u, v, radians=True)
    h.eq(b * 180, a * h.PI, "radians and degrees agree")
    h.eqv(u, u0, "first vector unchanged")
    h.eqv(v, v0, "second vector unchanged")
    c = h.w.geometry.get_angle(v, u)
    h.eq(a, c, "angle is symmetric")
    k = h.real("k", pos=True)
    h.assume(h.lt(lim, k * k * h.dot(u, u)))
    d = h.w.geometry.get_angle([k * x for x in u], v)
    h.eq(a, d, "angle does not depend on the length")


def get_angle_arrays(h):
    u, v = h.array(h.vec("u")), h.array(h.vec("v"))
    lim = h.q(EPS2)
    h.assume(h.lt(lim, h.dot(u, u)), base=True)
    h.assume(h.lt(lim, h.dot(v, v)), base=True)
    u0, v0 = h.snapshot(u), h.snapshot(v)
    a = h.w.geometry.get_angle(u, v)
    _angle_is(h, a, u, v, "angle (arrays)")
    h.eqv(u, u0, "first array unchanged")
    h.eqv(v, v0, "second array unchanged")


DIRECTIONS = [
    (1, 1, 1), (1, 2, 3), (1, 1, 2), (1, 2, 0), (3, 1, 2), (1, 3, 1), (2, 5, 1), (1, 1, 0), (4, 1, 1), (1, 2, 5), (3, 3, 1), (2, 3, 1),
]


def angle_rounding(h):
    """(anti)parallel vectors when the computed lengths carry a rounding error: still an angle"""
    u = [h.q(x) for x in DIRECTIONS[h.choose("direction", len(DIRECTIONS))]]
    s = (1, -1, 3, -7)[h.choose("factor", 4)]
    v = [s * x for x in u]
    h.rounding()
    a, e = h.call(h.w.geometry.get_angle, u, v)
    h.exact()
    h.check(e is None, "no error for (anti)parallel vectors")
    h.check(h.is_number(a), "the angle is a number for (anti)parallel vectors")


def zero_angle(h):
    v = h.vec("v")
    k = h.choose("which", 3)
    z = [h.q(0)] * 3
    args = [(z, v), (v, z), (z, z)][k]
    r, e = h.call(h.w.geometry.get_angle, *args)
    h.check(e is not None and isinstance(e, ValueError), "angle with a zero vector is an error")


def get_params(h):
    cell = h.mat("c")
    for i in range(3):
        h.assume(h.lt(h.q(EPS2), h.dot(cell[i], cell[i])), base=True)
    before = h.snapshot(cell)
    a, b, c, al, be, ga = h.w.cell.get_params(cell)
    for x, i in ((a, 0), (b, 1), (c, 2)):
        h.eq(x * x, h.dot(cell[i], cell[i]), f"length {i + 1} squared")
        h.check(h.le(0, x), "length is non-negative")
    _angle_is(h, al, cell[1], cell[2], "alpha is between a2 and a3")
    _angle_is(h, be, cell[0], cell[2], "beta is between a1 and a3")
    _angle_is(h, ga, cell[0], cell[1], "gamma is between a1 and a2")
    h.eqv(cell, before, "argument unchanged")


def _params(h):
    a, b, c = (h.real(n, pos=True) for n in "abc")
    al, be, ga = (h.angle(n) for n in ("alpha", "beta", "gamma"))
    t = h.PI / 180
    cos = (h.cos(al * t), h.cos(be * t), h.cos(ga * t))
    return (a, b, c, al, be, ga), cos


def _adm(h, p, lt=None, at=None):
    """documented inequalities with tolerances"""
    a, b, c, al, be, ga = p
    lt = h.q("1e-8") if lt is None else lt
    at = h.q("1e-4") if at is None else at
    cl = []
    for x in (a, b, c):
        cl.append(h.lt(lt, x))
    for x in (al, be, ga):
        cl.append(h.lt(at, x))
        cl.append(h.lt(x, 180 - at))
    for x, y, z in ((al, be, ga), (al, ga, be), (be, ga, al)):
        cl.append(h.lt(z, x + y - at))
        cl.append(h.lt(x + y, 360 - z - at))
    return h.And(*cl), cl


def from_params(h):
    p, (ca, cb, cg) = _params(h)
    a, b, c = p[:3]
    g = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
    h.assume(h.lt(h.q("1/1000"), g), base=True)
    ok, _ = _adm(h, p)
    h.assume(ok, base=True)
    m = h.rows(h.w.cell.from_params(*p))
    h.eq(m[0][0], a, "first vector along x")
    for i, j in ((0, 1), (0, 2), (1, 2)):
        h.eq(m[i][j], 0, "upper triangle is zero")
    h.check(h.lt(0, m[1][1]), "second vector has positive y")
    h.check(h.lt(0, m[2][2]), "third vector has positive z")
    dots = {
        (0, 0): a * a, (1, 1): b * b, (2, 2): c * c,
        (1, 2): b * c * ca, (0, 2): a * c * cb, (0, 1): a * b * cg,
    }
    for (i, j), v in dots.items():
        h.eq(h.dot(m[i], m[j]), v, f"metric element {i + 1}{j + 1}")


def from_params_rejects(h):
    a, b, c, al, be, ga = (h.real(n) for n in ("a", "b", "c", "al", "be", "ga"))
    p = (a, b, c, al, be, ga)
    ok, _ = _adm(h, p)
    h.assume(h.Not(ok))
    r, e = h.call(h.w.cell.from_params, *p)
    h.check(e is not None and isinstance(e, ValueError), "inadmissible parameters are rejected")


def defaults(h):
    """keyword defaults are 1, 1, 1, 90, 90, 90"""
    m = h.rows(h.w.cell.from_params())
    for i in range(3):
        for j in range(3):
            h.eq(m[i][j], 1 if i == j else 0, "default cell is the unit cube")
    c = h.real("c", pos=True)
    h.assume(h.lt(h.q("1e-2"), c))
    m = h.rows(h.w.cell.from_params(c=c))
    h.eqv([m[0][0], m[1][1], m[2][2]], [1, 1, c], "partial parameters")


def check_accepts(h):
    """parallelepiped_check returns exactly the documented condition, any tolerances"""
    p = tuple(h.real(n) for n in ("a", "b", "c", "al", "be", "ga"))
    lt = h.real("lt", nonneg=True)
    at = h.real("at", nonneg=True)
    ok, clauses = _adm(h, p, lt, at)
    r = h.w.geometry.parallelepiped_check(*p, length_tolerance=lt, angle_tolerance=at)
    r = h.truth(r)
    if r:
        for i, cl in enumerate(clauses):
            h.check(cl, f"accepted implies documented inequality {i + 1}")
    else:
        h.check(h.Not(ok), "rejected only when a documented inequality fails")


def check_default_tolerances(h):
    p = tuple(h.real(n) for n in ("a", "b", "c", "al", "be", "ga"))
    ok, clauses = _adm(h, p)
    r = h.w.geometry.parallelepiped_check(*p)
    h.check(h.Iff(r, ok), "default tolerances are 1e-8 (length) and 1e-4 (angle)")


def check_raises(h):
    """raise_error: error exactly when the answer is negative"""
    p = tuple(h.real(n) for n in ("a", "b", "c", "al", "be", "ga"))
    ok, clauses = _adm(h, p)
    r, e = h.call(h.w.geometry.parallelepiped_check, *p, raise_error=True)
    if e is None:
        h.check(ok, "no error only for admissible parameters")
        h.check(r, "the answer is True when no error is raised")
    else:
        h.check(isinstance(e, ValueError), "the error is a ValueError")
        h.check(h.Not(ok), "error only for inadmissible parameters")


def jobs(tier):
    return [
        Job("get_angle", get_angle, wall=150, bounds="all pairs of real 3-vectors with squared length > 1e-4"),
        Job("get_angle_arrays", get_angle_arrays, wall=100, bounds="as get_angle, ndarray arguments"),
        Job("angle_rounding", angle_rounding, wall=60, bounds="12 directions, (anti)parallel pairs; relative error of every length up to 1e-15"),
        Job("zero_angle", zero_angle, wall=30, bounds="one or both vectors zero"),
        Job("get_params", get_params, wall=200, bounds="all real 3x3 cells with rows of squared length > 1e-4"),
        Job("from_params", from_params, wall=150, bounds="a,b,c > 0, angles in (0,180), documented inequalities, Gram determinant > 1e-3"),
        Job("from_params_rejects", from_params_rejects, wall=120, paths=1200, bounds="all reals violating an inequality"),
        Job("defaults", defaults, wall=30, bounds="c > 0.01"),
        Job("check_accepts", check_accepts, wall=150, bounds="all reals, all non-negative tolerances"),
        Job("check_default_tolerances", check_default_tolerances, wall=100, bounds="all reals"),
        Job("check_raises", check_raises, wall=150, bounds="all reals"),
    ]
