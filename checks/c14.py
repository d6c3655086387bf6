"""shift_atoms, cure_negative, ensure_000, get_vector, get_distance."""

from symx.job import Job

ASSUMPTIONS = ["exact real arithmetic; cells have |det| > 1e-3 where an inverse is needed"]


def _atoms(h, n, form="lists", rng=None):
    ps = [h.vec(f"p{i}_") for i in range(n)]
    if rng is not None:
        for p in ps:
            for x in p:
                h.assume(h.And(h.le(-rng, x), h.le(x, rng)), base=True)
    pos = [list(p) for p in ps]
    if form == "array":
        pos = h.array(pos)
    elif form == "arrays":
        pos = [h.array(p) for p in pos]
    return {"names": [f"A{i}" for i in range(n)], "positions": pos}, ps


def _keys(h, atoms, n, label):
    h.check(sorted(atoms) == ["names", "positions"], f"{label}: no keys added or removed")
    h.check(atoms["names"] == [f"A{i}" for i in range(n)], f"{label}: names kept")
    h.check(len(atoms["positions"]) == n, f"{label}: number of atoms kept")


def _extremes(h, ps, j, mn, mx, label):
    """mn, mx are the extremes of coordinate j"""
    for p in ps:
        h.lec(mn, p[j], label + ": bound")
        h.lec(p[j], mx, label + ": bound")


def _max(h, xs):
    m = xs[0]
    for x in xs[1:]:
        m = h.Ite(h.lt(m, x), x, m)
    return m


def _min(h, xs):
    m = xs[0]
    for x in xs[1:]:
        m = h.Ite(h.lt(x, m), x, m)
    return m


def _shift(n, form):
    def f(h):
        atoms, ps = _atoms(h, n, form)
        gp = h.vec("g")
        kind = h.choose("gravity point", 3)
        if kind == 0:
            r = h.w.crystal.shift_atoms(atoms, gravity_point=tuple(gp))
        elif kind == 1:
            r = h.w.crystal.shift_atoms(atoms, gravity_point=h.array(gp))
        else:
            gp = [h.q("1/2")] * 3
            r = h.w.crystal.shift_atoms(atoms)
        h.check(r is None, "shift_atoms returns None")
        _keys(h, atoms, n, "shift_atoms")
        q = [list(p) for p in atoms["positions"]]
        for j in range(3):
            col = [p[j] for p in q]
            h.eq(_max(h, col) + _min(h, col), 2 * gp[j], "gravity point is in the middle")
            for p, p0 in zip(q[1:], ps[1:]):
                h.eq(p[j] - q[0][j], p0[j] - ps[0][j], "one common shift")

    return f


def shift_cartesian(h):
    n = 2
    atoms, ps = _atoms(h, n)
    gp = h.vec("g")
    cell = h.mat("c")
    d = h.det(cell)
    h.assume(h.lt(h.q("1/1000"), h.abs(d)), base=True)
    k = h.choose("container", 2)
    c = cell if k == 0 else h.array(cell)
    h.w.crystal.shift_atoms(atoms, gravity_point=tuple(gp) if k == 0 else h.array(gp), cell=c, gp_is_relative=False)
    _keys(h, atoms, n, "shift_atoms")
    q = [list(p) for p in atoms["positions"]]
    mid = []
    for j in range(3):
        col = [p[j] for p in q]
        h.eq(q[1][j] - q[0][j], ps[1][j] - ps[0][j], "one common shift")
        mid.append((q[0][j] + q[1][j]) / 2)
    cart = h.vecmat(mid, cell)
    for j in range(3):
        h.eq(cart[j], gp[j], "middle point in Cartesian coordinates is the gravity point")


def shift_no_cell(h):
    atoms, ps = _atoms(h, 2)
    r, e = h.call(h.w.crystal.shift_atoms, atoms, gravity_point=tuple(h.vec("g")), gp_is_relative=False)
    h.check(e is not None and isinstance(e, ValueError), "Cartesian gravity point without a cell is an error")
    h.eqv(atoms["positions"], ps, "positions unchanged when the call fails")


def _cure(n, form):
    def f(h):
        atoms, ps = _atoms(h, n, form)
        r = h.w.crystal.cure_negative(atoms)
        h.check(r is None, "cure_negative returns None")
        _keys(h, atoms, n, "cure_negative")
        q = [list(p) for p in atoms["positions"]]
        for j in range(3):
            s = q[0][j] - ps[0][j]
            h.lec(0, s, "shift is non-negative")
            for p, p0 in zip(q, ps):
                h.lec(0, p[j], "coordinate is non-negative")
                h.eq(p[j] - p0[j], s, "one common shift")
            # minimal: no shift at all, or an atom is put at zero
            h.check(
                h.Or(h.eqb(s, 0), *[h.eqb(p[j], 0) for p in q]),
                "shift is zero or puts an atom at zero",
            )

    return f


def _ensure(n, form, rng):
    def f(h):
        atoms, ps = _atoms(h, n, form, rng)
        r = h.w.crystal.ensure_000(atoms)
        h.check(r is None, "ensure_000 returns None")
        _keys(h, atoms, n, "ensure_000")
        for i in range(n):
            for j in range(3):
                x = list(atoms["positions"][i])[j]
                h.check(h.And(h.le(0, x), h.le(x, 1)), "coordinate is within [0, 1]")
                d = x - ps[i][j]
                h.eq(d, h.floor(d + h.q("1/2")), "coordinate changes by an integer")

    return f


def _vector(form):
    def f(h):
        atoms, ps = _atoms(h, 3, form)
        p0 = h.snapshot(ps)
        cell = h.mat("c")
        c = cell if form == "lists" else h.array(cell)
        R = tuple(h.vec("R")) if form == "array" else tuple(h.integer(f"R{i}", -1000000, 1000000) for i in range(3))
        i, j = h.choose("atom1", 3), h.choose("atom2", 3)
        rel = [R[k] + ps[j][k] - ps[i][k] for k in range(3)]
        cart = h.vecmat(rel, cell)
        R0, minus = R, tuple(-x for x in R)
        if form == "lists":
            R, minus = list(R), list(minus)
        elif form == "array":
            R, minus = h.array(R), h.array(minus)
        v = h.w.crystal.get_vector(c, atoms, i, j, R=R, return_relative=True)
        h.check(len(v) == 3, "vector has three components")
        h.eqv(v, rel, "relative vector is R + r2 - r1")
        v = h.w.crystal.get_vector(c, atoms, i, j, R=R)
        h.eqv(v, cart, "vector is (R + r2 - r1) times the cell")
        v = h.w.crystal.get_vector(cell=c, atoms=atoms, atom1=j, atom2=i, R=minus)
        h.eqv([-x for x in list(v)], cart, "swapping the atoms and negating R negates the vector")
        v = h.w.crystal.get_vector(c, atoms, i, j)
        h.eqv(v, h.vecmat([ps[j][k] - ps[i][k] for k in range(3)], cell), "default R is zero")
        d = h.w.crystal.get_distance(c, atoms, i, j, R=R)
        h.eq(d * d, h.dot(cart, cart), "distance is the norm of the vector")
        h.lec(0, d, "distance is non-negative")
        d2 = h.w.crystal.get_distance(c, atoms, j, i, R=minus)
        h.eq(d, d2, "distance is symmetric")
        h.eqv(atoms["positions"], p0, "positions unchanged")
        h.eqv(R, R0, "R unchanged")
        h.eqv(c, cell, "cell unchanged")

    return f


def jobs(tier):
    T = tier == "thorough"
    r = []
    for n, form in [(1, "lists"), (1, "array"), (2, "lists"), (2, "arrays"), (3, "array")] + ([(4, "lists"), (5, "array")] if T else []):
        r.append(Job(f"shift_{n}_{form}", _shift(n, form), wall=120, bounds=f"{n} atoms, all real coordinates and gravity points"))
        r.append(Job(f"cure_{n}_{form}", _cure(n, form), wall=120, bounds=f"{n} atoms, all real coordinates"))
    R = 1000
    for n, form in [(1, "lists"), (1, "arrays"), (2, "array")] + ([(3, "array")] if T else []):
        r.append(Job(f"ensure_{n}_{form}", _ensure(n, form, R), wall=120, bounds=f"{n} atoms, all real coordinates in [-{R}, {R}]"))
    r.append(Job("shift_cartesian", shift_cartesian, wall=120, bounds="2 atoms, all cells with |det| > 1e-3, all gravity points"))
    r.append(Job("shift_no_cell", shift_no_cell, wall=60, bounds="2 atoms"))
    for form in ("lists", "arrays", "array"):
        r.append(Job(f"vector_{form}", _vector(form), wall=120, bounds="3 atoms, all positions, all cells, every ordered pair of atoms, |R| <= 1e6"))
    return r
