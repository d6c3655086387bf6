"""HPKOT special points and paths through get_path_and_points."""

from symx.job import Job
from checks import crystals, hpkot_tables
from checks.c11 import EXTRA, compare, crystal

ASSUMPTIONS = [
    "the symmetry library's answer is the standardised cell of the Bravais lattice type with arbitrary parameters (lengths at least 1/10), in a fixed rational orientation; one space group per symbol and inversion class",
    "aP: the Niggli reduction (property C05) is replaced by one that returns an arbitrary basis of the reciprocal lattice with free lengths and cosines; reciprocal angles off 90 degrees",
    "mC, mP: beta off the right angle",
]


def niggli_stub(h, s, change=((1, 1, 0), (0, 1, 0), (0, -1, 1))):
    """the crystal's reciprocal basis is change . s.recip; the reduction must be asked about it and answers s.recip"""
    red = [[2 * h.PI * x for x in r] for r in s.recip]
    T = [[h.q(x) for x in r] for r in change]
    given = h.matmul(T, red)

    def get_niggli(cell, *a, **k):
        h.eqv(cell, given, "Niggli reduction of the reciprocal cell")
        return h.array(red)

    h.stub_function("cell.get_niggli", get_niggli)
    # direct basis: inverse transpose of the change
    D = [[h.q(x) for x in r] for r in ((1, 0, 0), (-1, 1, 1), (0, 0, 1))]
    s.rows = h.rows(h.matmul(D, s.rows))


def _points(t, rot, number):
    def f(h):
        s = crystals.Std(h, t)
        if EXTRA.get(t) and t not in ("tI", "oF", "hR"):
            EXTRA[t](h, s.p)
        if t == "aP":
            niggli_stub(h, s)
        pos, types = crystals.lattice_only(h, t)
        cell, atoms, data, _ = crystals.dataset(h, t, number, s.rows, pos, types, rot=rot)
        v = h.w.crystal.hpkot_get_extended_bl_symbol(cell, atoms, data)
        conv, _ = h.w.crystal.get_conventional(cell, atoms, convention="HPKOT", spglib_data=data)
        prim, _ = h.w.crystal.get_primitive(cell, atoms, convention="HPKOT", spglib_data=data)
        kp, pts = h.w.kpoints.get_path_and_points(cell, atoms, data, convention="HPKOT", relative=False)
        h.check(v in hpkot_tables.PATHS, "the extended symbol exists")
        compare(h, kp, pts, hpkot_tables.path(v), hpkot_tables.points(h, v, crystals.metric(h, conv)), prim)

    return f


def jobs(tier):
    r = []
    for i, t in enumerate(crystals.TYPES):
        for k, n in enumerate(crystals.NUMBERS[t]):
            if n is None or (k and t not in ("cP", "cF", "hP", "oA") and tier == "quick"):
                continue
            r.append(Job(f"points_{t}_{n}", _points(t, 0 if t == "aP" else (i + 1 + k) % 3, n), wall=300, bounds="all lattice parameters"))
    return r
