"""Cell algebra: reciprocal duality, volumes, scalar products, change-of-basis matrix."""

from symx.job import Job

ASSUMPTIONS = ["cells are non-singular (det != 0) where a reciprocal or a transformation matrix is taken"]


def reciprocal(h):
    cell = h.mat("c")
    h.assume(h.Not(h.eqb(h.det(cell), 0, tol=1e-3)), base=True)
    before = h.snapshot(cell)
    rec = h.w.cell.get_reciprocal(cell)
    r = h.rows(rec)
    for i in range(3):
        for j in range(3):
            h.eq(h.dot(cell[i], r[j]), 2 * h.PI if i == j else 0, "a_i . b_j == 2 pi delta_ij")
    back = h.rows(h.w.cell.get_reciprocal(rec))
    h.eqv(back, cell, "reciprocal of the reciprocal is the original cell")
    h.eqv(cell, before, "argument unchanged")
    arr = h.array(cell)
    h.eqv(h.w.cell.get_reciprocal(arr), rec, "ndarray and list arguments agree")
    h.eqv(arr, before, "ndarray argument unchanged")


def singular(h):
    """linearly dependent rows (third row a combination of the others): never a silent result"""
    a, b = h.vec("a"), h.vec("b")
    s, t = h.real("s"), h.real("t")
    cell = [a, b, [s * a[i] + t * b[i] for i in range(3)]]
    r, e = h.call(h.w.cell.get_reciprocal, cell)
    if h.symbolic:
        h.check(e is not None, "reciprocal of a singular cell is an error")


def volume(h):
    cell = h.mat("c")
    d = h.det(cell)
    v = h.w.geometry.get_volume(cell)
    h.eq(v, h.abs(d), "volume of a cell is |a1 . (a2 x a3)|")
    h.check(h.le(0, v), "volume is non-negative")
    h.eq(h.w.geometry.get_volume(*cell), v, "three-vector form agrees with the matrix form")
    h.eq(h.w.geometry.get_volume(h.array(cell)), v, "ndarray form agrees")
    # permutation and sign invariance
    h.eq(h.w.geometry.get_volume([cell[1], cell[0], cell[2]]), v, "volume does not depend on the handedness")


def volume_params(h):
    a, b, c = (h.real(n, pos=True) for n in "abc")
    al, be, ga = (h.angle(n) for n in ("alpha", "beta", "gamma"))
    t = h.PI / 180
    ca, cb, cg = h.cos(al * t), h.cos(be * t), h.cos(ga * t)
    g = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
    h.assume(h.lt(h.q("1/1000"), g), base=True)
    v = h.w.geometry.get_volume(a, b, c, al, be, ga)
    h.eq(v * v, a * a * b * b * c * c * g, "volume from six parameters: V^2 is the Gram determinant")
    h.check(h.lt(0, v), "volume from valid parameters is positive")


def products(h):
    cell = h.mat("c")
    s23, s13, s12 = h.w.cell.get_scalar_products(cell)
    h.eq(s23, h.dot(cell[1], cell[2]), "first value is a2 . a3")
    h.eq(s13, h.dot(cell[0], cell[2]), "second value is a1 . a3")
    h.eq(s12, h.dot(cell[0], cell[1]), "third value is a1 . a2")


def transformation(h):
    o = h.mat("o")
    t = h.mat("t")
    h.assume(h.Not(h.eqb(h.det(o), 0, tol=1e-3)), base=True)
    p = h.rows(h.w.cell.get_transformation_matrix(o, t))
    # documented: (a1', a2', a3') = (a1, a2, a3) P, vectors as columns
    for i in range(3):
        for k in range(3):
            h.eq(
                sum((o[j][k] * p[j][i] for j in range(3)), 0),
                t[i][k],
                "columns of the matrix express the transformed vectors in the original ones",
            )


def jobs(tier):
    return [
        Job("reciprocal", reciprocal, wall=120, bounds="all real 3x3 cells with det != 0"),
        Job("singular", singular, wall=60, bounds="third row = s a1 + t a2, all reals"),
        Job("volume", volume, wall=120, bounds="all real 3x3 cells"),
        Job("volume_params", volume_params, wall=120, bounds="all a,b,c > 0 and angles in (0,180) with Gram determinant > 0.001 a^2b^2c^2"),
        Job("products", products, wall=60, bounds="all real 3x3 cells"),
        Job("transformation", transformation, wall=120, bounds="all pairs of real 3x3 cells, original det != 0"),
    ]
