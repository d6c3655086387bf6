"""Spherical coordinates."""

from symx.job import Job

ASSUMPTIONS = [
    "squared length of the vector exceeds 1e-24, lengths of the axis and of the zero direction exceed 1e-6; the zero direction is perpendicular to the axis",
    "within the documented parallel case (normalised vector equals +-axis up to 1e-5 relative) only the returned constants are checked",
]


def _reconstruct(h, v, p, z, res, deg, tag):
    r, th, ph = res
    t = h.PI / 180 if deg else 1
    h.eq(r * r, h.dot(v, v), tag + "radius squared")
    h.check(h.le(0, r), tag + "radius is non-negative")
    ct, st = h.cos(th * t), h.sin(th * t)
    cp, sp = h.cos(ph * t), h.sin(ph * t)
    pl, zl = h.sqrt(h.dot(p, p)), h.sqrt(h.dot(z, z))
    pn = [h.div(x, pl) for x in p]
    zn = [h.div(x, zl) for x in z]
    y = [pn[1] * zn[2] - pn[2] * zn[1], pn[2] * zn[0] - pn[0] * zn[2], pn[0] * zn[1] - pn[1] * zn[0]]
    h.check(h.le(0, st), tag + "polar angle between 0 and 180")
    return ct, st, cp, sp, pn, zn, y


def _par(h, v, p):
    """certainly not parallel (beyond the tolerance 1e-5 of every component): |v x p|^2 > 4e-10 |v|^2 |p|^2"""
    vp = h.dot(v, p)
    return h.lt(h.q("4e-10") * h.dot(v, v) * h.dot(p, p), h.dot(v, v) * h.dot(p, p) - vp * vp)


def _main(h, v, p, z, args, deg=True):
    lim = h.q("1e-24")
    h.assume(h.lt(lim, h.dot(v, v)), base=True)
    h.assume(_par(h, v, p), base=True)
    v0 = h.snapshot(v)
    kw = dict(args)
    if not deg:
        kw["in_degrees"] = False
    res = h.w.geometry.get_spherical(v, **kw)
    ct, st, cp, sp, pn, zn, y = _reconstruct(h, v, p, z, res, deg, "")
    r = res[0]
    full = 360 if deg else 2 * h.PI
    h.check(h.le(0, res[2]), "azimuth is at least 0")
    h.check(h.le(res[2], full), "azimuth is at most 360")
    # components along axis, zero direction, third direction
    h.eq(r * ct, h.dot(v, pn), "component along the polar axis")
    h.eq(r * st * cp, h.dot(v, zn), "component along the zero direction")
    h.eq(r * st * sp, h.dot(v, y), "component along axis x zero direction")
    h.eqv(v, v0, "vector unchanged")


def default_axes(h):
    v = h.vec("v")
    one, zero = h.q(1), h.q(0)
    _main(h, v, [zero, zero, one], [one, zero, zero], {})


def default_axes_radians(h):
    v = h.vec("v")
    one, zero = h.q(1), h.q(0)
    _main(h, v, [zero, zero, one], [one, zero, zero], {}, deg=False)


def default_axes_array(h):
    v = h.array(h.vec("v"))
    one, zero = h.q(1), h.q(0)
    _main(h, v, [zero, zero, one], [one, zero, zero], {})


AXES = [
    # exact orthogonal frames (axis, zero direction) with rational entries
    ([1, 0, 0], [0, 1, 0]),
    ([0, 1, 0], [0, 0, 1]),
    ([0, 0, -1], [1, 0, 0]),
    ([1, 2, 2], [2, -2, 1]),
    ([2, 3, 6], [3, -6, 2]),
    ([-1, 4, 8], [4, -7, 4]),
]


def fixed_axes(k, deg=True):
    p, z = AXES[k]

    def f(h):
        s, t = h.real("s", pos=True), h.real("t", pos=True)
        h.assume(h.lt(h.q("1e-6"), s), base=True)
        h.assume(h.lt(h.q("1e-6"), t), base=True)
        P = [h.q(x) * s for x in p]
        Z = [h.q(x) * t for x in z]
        v = h.vec("v")
        _main(h, v, P, Z, {"polar_axis": P, "radial_line_zero": Z}, deg)

    return f


def free_axes(h):
    """axis in a coordinate plane (stereographic parameter), zero direction perpendicular to it"""
    k = h.choose("plane", 3)
    sg = h.choose("sign", 2)
    t, s = h.real("t"), h.real("s", pos=True)
    h.assume(h.lt(h.q("1e-6"), s), base=True)
    a, b = s * (1 - t * t), s * (2 * t)
    c = h.real("c", pos=True)
    h.assume(h.lt(h.q("1e-6"), c), base=True)
    if sg == 1:
        c = -c
    z0 = h.q(0)
    P = [[z0, a, b], [b, z0, a], [a, b, z0]][k]
    Z = [[c, z0, z0], [z0, c, z0], [z0, z0, c]][k]
    _main(h, _in_frame(h, P, Z), P, Z, {"polar_axis": P, "radial_line_zero": Z})


def _in_frame(h, P, Z):
    """v = x P + y Z + w (P x Z): every vector, in coordinates that suit the frame"""
    x, y, w = h.real("x"), h.real("y"), h.real("w")
    Y = [P[1] * Z[2] - P[2] * Z[1], P[2] * Z[0] - P[0] * Z[2], P[0] * Z[1] - P[1] * Z[0]]
    return [x * P[i] + y * Z[i] + w * Y[i] for i in range(3)]


def rotated_axes(h):
    """axis and zero direction = two columns of the rotation matrix of the quaternion (1, x, y, z)"""
    x, y, z = h.real("qx"), h.real("qy"), h.real("qz")
    R = [
        [1 + x * x - y * y - z * z, 2 * (x * y - z), 2 * (x * z + y)],
        [2 * (x * y + z), 1 - x * x + y * y - z * z, 2 * (y * z - x)],
        [2 * (x * z - y), 2 * (y * z + x), 1 - x * x - y * y + z * z],
    ]
    P = [R[i][2] for i in range(3)]
    Z = [R[i][0] for i in range(3)]
    a, b, c = h.real("x"), h.real("y"), h.real("w")
    v = [a * P[i] + b * Z[i] + c * R[i][1] for i in range(3)]
    _main(h, v, P, Z, {"polar_axis": P, "radial_line_zero": Z})


def parallel(h):
    """exactly along / against the axis"""
    sgn = h.choose("sign", 2)
    deg = h.choose("degrees", 2)
    p = h.vec("p")
    h.assume(h.lt(h.q("1e-12"), h.dot(p, p)), base=True)
    k = h.real("k", pos=True)
    h.assume(h.lt(h.q("1e-6"), k))
    v = [(k if sgn == 0 else -k) * x for x in p]
    if deg == 0:
        res = h.w.geometry.get_spherical(v, polar_axis=p)
    else:
        res = h.w.geometry.get_spherical(v, in_degrees=False, polar_axis=p)
    half = 180 if deg == 0 else h.PI
    h.eq(res[0] * res[0], h.dot(v, v), "radius")
    h.eq(res[1], 0 if sgn == 0 else half, "polar angle along / against the axis")
    h.eq(res[2], 0 if sgn == 0 else half, "azimuth along / against the axis")


FRAMES = [((1, 1, 1), (1, -1, 0)), ((1, 1, 1), (2, -1, -1)), ((1, 2, 3), (3, 0, -1)), ((0, 1, 1), (5, 1, -1)), ((0, 0, 1), (1, 2, 0)), ((1, 0, 2), (2, 3, -1))]


def rounding(h):
    """vectors in the plane of the axis and the zero direction (azimuth 0 or 180) when every computed
    length carries a rounding error"""
    p, z = FRAMES[h.choose("frame", len(FRAMES))]
    a = (0, 1, -2)[h.choose("a", 3)]
    b = (1, -1, 3, -5)[h.choose("b", 4)]
    P, Z = [h.q(x) for x in p], [h.q(x) for x in z]
    v = [a * P[i] + b * Z[i] for i in range(3)]
    h.rounding()
    res, e = h.call(h.w.geometry.get_spherical, v, polar_axis=P, radial_line_zero=Z)
    h.exact()
    h.check(e is None, "no error for a vector in the plane of the axis and the zero direction")
    h.check(h.is_number(res[0]), "the radius is a number")
    h.check(h.is_number(res[1]), "the polar angle is a number")
    h.check(h.is_number(res[2]), "the azimuth is a number")


def jobs(tier):
    out = [
        Job("default_axes", default_axes, wall=200, bounds="all v with |v|^2 > 1e-24, |v x p|^2 > 4e-10 |v|^2|p|^2; default axes"),
        Job("default_axes_radians", default_axes_radians, wall=200, bounds="as default_axes, radians"),
        Job("default_axes_array", default_axes_array, wall=200, bounds="as default_axes, ndarray"),
        Job("free_axes", free_axes, wall=200, bounds="axis s*(1-t^2, 2t) in a coordinate plane (every direction but one), zero direction along the third axis, any lengths and signs"),
        Job("rotated_axes", rotated_axes, wall=200, bounds="axis and zero direction = columns of any rotation by less than 180 degrees, all v"),
        Job("parallel", parallel, wall=200, bounds="v = +-k p, all p, k > 1e-6"),
    ]
    out.append(Job("rounding", rounding, wall=100, bounds="6 frames x 12 vectors in the plane of the axis and the zero direction; relative error of every length up to 1e-15"))
    n = len(AXES) if tier == "thorough" else 5
    for k in range(n):
        out.append(Job(f"fixed_axes_{k}", fixed_axes(k), wall=250, bounds=f"axis = s*{AXES[k][0]}, zero direction = t*{AXES[k][1]}, all s,t > 1e-6, all v"))
    out.append(Job("fixed_axes_radians", fixed_axes(3, False), wall=250, bounds="as fixed_axes_3 in radians"))
    return out
