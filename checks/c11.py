"""Setyawan-Curtarolo special points and paths through get_path_and_points."""

from symx.job import Job
from checks import crystals, sc_tables

ASSUMPTIONS = [
    "the symmetry library's answer is the standardised cell of the Bravais lattice type with arbitrary parameters (lengths at least 1/10), in a fixed rational orientation",
    "aP: reciprocal cell with free metric; parameters on a variation boundary are left to the tolerances",
]


def compare(h, got_path, pts, want_path, want, prim):
    """pts: absolute coordinates; want: coordinates relative to the reciprocal vectors of prim"""
    h.check(got_path == want_path, "the default path is the published one")
    names = [n for s in got_path.split("|") for n in s.split("-")]
    h.check(all(n in pts for n in names), "every point of the path has coordinates")
    h.check(sorted(pts) == sorted(want), "the points are the published ones")
    prim = h.rows(prim)
    for n in want:
        if n not in pts:
            continue
        for j in range(3):
            x = h.div(h.dot(list(pts[n]), prim[j]), 2 * h.PI)
            h.eq(x, want[n][j], f"coordinate {j + 1} of {n}")


def crystal(h, t, rot, extra=None, number=None):
    s = crystals.Std(h, t)
    if extra:
        extra(h, s.p)
    pos, types = crystals.lattice_only(h, t)
    num = crystals.NUMBERS[t]
    cell, atoms, data, conv = crystals.dataset(h, t, number or num[0] or num[1], s.rows, pos, types, rot=rot)
    return s, cell, atoms, data


def _points(t, rot, extra=None):
    def f(h):
        s, cell, atoms, data = crystal(h, t, rot, extra)
        v = h.w.crystal.sc_get_variation(cell, atoms, data)
        conv, _ = h.w.crystal.get_conventional(cell, atoms, convention="SC", spglib_data=data)
        prim, _ = h.w.crystal.get_primitive(cell, atoms, convention="SC", spglib_data=data)
        kp, pts = h.w.kpoints.get_path_and_points(cell, atoms, data, convention="SC", relative=False)
        h.check(v in sc_tables.PATHS, "the variation exists")
        compare(h, kp, pts, sc_tables.path(v), sc_tables.points(h, v, crystals.metric(h, conv)), prim)

    return f


def _mono(h, p):
    """no degenerate cells: 1 < beta < 179 degrees, beta off the right angle, lengths up to 50"""
    h.assume(h.lt(h.q("1/50"), p["sin"]), base=True)
    h.assume(h.lt(h.q("1/1000"), h.abs(p["cos"])), base=True)
    for k in "abc":
        h.assume(h.le(p[k], 50), base=True)


def _distinct(h, p):
    for i, j in (("a", "b"), ("b", "c"), ("a", "c")):
        if i in p and j in p:
            h.assume(h.lt(h.q("1/1000"), h.abs(p[i] - p[j])), base=True)


def _tri(h, p):
    """reciprocal angles off the right angle; lengths up to 20"""
    for k in "xyz":
        h.assume(h.lt(h.q("1/1000"), h.abs(p[k])), base=True)
    for k in ("ka", "kb", "kc"):
        h.assume(h.le(p[k], 20), base=True)


def _rhl(h, p):
    """rhombohedral angle off the right angle"""
    a, c = p["a"], p["c"]
    h.assume(h.lt(h.q("1/1000") * (a * a + c * c), h.abs(2 * c * c - 3 * a * a)), base=True)


EXTRA = {"tI": _distinct, "oF": _distinct, "mP": _mono, "mC": _mono, "aP": _tri, "hR": _rhl}


def jobs(tier):
    r = []
    for i, t in enumerate(crystals.TYPES):
        r.append(Job(f"points_{t}", _points(t, i % 3, EXTRA.get(t)), wall=300, bounds="all lattice parameters"))
    return r
