"""Standardised crystals of every Bravais lattice type with an arbitrary answer of the symmetry library."""

# representative space groups: (with inversion centre, without)
NUMBERS = {
    "cP": (221, 195), "cF": (225, 196), "cI": (229, 197), "tP": (123, 75), "tI": (139, 79), "oP": (47, 16), "oF": (69, 22),
    "oI": (71, 23), "oA": (None, 38), "oC": (65, 20), "hP": (191, 143), "hR": (166, 146), "mP": (10, 3), "mC": (12, 5), "aP": (2, 1),
}
CENTRES = {
    "P": [(0, 0, 0)],
    "F": [(0, 0, 0), (0, "1/2", "1/2"), ("1/2", 0, "1/2"), ("1/2", "1/2", 0)],
    "I": [(0, 0, 0), ("1/2", "1/2", "1/2")],
    "C": [(0, 0, 0), ("1/2", "1/2", 0)],
    "A": [(0, 0, 0), (0, "1/2", "1/2")],
    "R": [(0, 0, 0), ("2/3", "1/3", "1/3"), ("1/3", "2/3", "2/3")],
}
# primitive vectors (rows) in the conventional ones, as the symmetry library chooses them
PRIM = {
    "P": ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "F": ((0, "1/2", "1/2"), ("1/2", 0, "1/2"), ("1/2", "1/2", 0)),
    "I": (("-1/2", "1/2", "1/2"), ("1/2", "-1/2", "1/2"), ("1/2", "1/2", "-1/2")),
    "C": (("1/2", "1/2", 0), ("-1/2", "1/2", 0), (0, 0, 1)),
    "A": ((1, 0, 0), (0, "1/2", "-1/2"), (0, "1/2", "1/2")),
    "R": (("2/3", "1/3", "1/3"), ("-1/3", "1/3", "1/3"), ("-1/3", "-2/3", "1/3")),
}
# rotations from the standard orientation to the one of the crystal (rational)
ROTATIONS = [
    ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    (("2/3", "-1/3", "2/3"), ("2/3", "2/3", "-1/3"), ("-1/3", "2/3", "2/3")),
    (("3/5", "4/5", 0), ("-4/5", "3/5", 0), (0, 0, 1)),
]
TYPES = list(NUMBERS)


def q3(h, rows):
    return [[h.q(x) for x in r] for r in rows]


class Std:
    """standardised conventional cell: rows, lengths and cosines"""

    def __init__(self, h, t, lo="1/10", hi=None):
        self.t = t
        f = t[0]
        self.p = p = {}

        def length(n):
            x = h.real(n, pos=True)
            h.assume(h.le(h.q(lo), x), base=True)
            if hi is not None:
                h.assume(h.le(x, h.q(hi)), base=True)
            p[n] = x
            return x

        O = h.q(0)
        if f == "c":
            a = length("a")
            rows = [[a, O, O], [O, a, O], [O, O, a]]
        elif f == "t":
            a, c = length("a"), length("c")
            rows = [[a, O, O], [O, a, O], [O, O, c]]
        elif f == "o":
            a, b, c = length("a"), length("b"), length("c")
            rows = [[a, O, O], [O, b, O], [O, O, c]]
        elif f == "h":
            a, c = length("a"), length("c")
            s = h.sqrt(h.q(3)) * a / 2
            rows = [[a, O, O], [-a / 2, s, O], [O, O, c]]
        elif f == "m":
            a, b, c = length("a"), length("b"), length("c")
            be = p["beta"] = h.angle("beta")
            r = be * (h.PI / 180)
            p["cos"], p["sin"] = h.cos(r), h.sin(r)
            rows = [[a, O, O], [O, b, O], [c * p["cos"], O, c * p["sin"]]]
        elif f == "a":
            # reciprocal cell (without 2 pi) given by its lengths and the cosines of its angles
            la, lb, lc = length("ka"), length("kb"), length("kc")
            x, y, z = (h.real(n) for n in ("cosalpha", "cosbeta", "cosgamma"))
            p.update(x=x, y=y, z=z)
            for q in (x, y, z):
                h.assume(h.And(h.lt(-1, q), h.lt(q, 1)), base=True)
            D = 1 - x * x - y * y - z * z + 2 * x * y * z
            h.assume(h.lt(h.q("1/100"), D), base=True)
            for q in (D, 1 - x * x, 1 - y * y, 1 - z * z):
                h.known_nonneg(q)
            v, w, d = h.sqrt(1 - z * z), h.sqrt(D), h.div
            for q in (x, y, z):  # implied by D > 1/100 and |q| < 1: (1 - q^2) (1 - r^2) = D + (s - q r)^2
                h.assume(h.And(h.le(w, h.sqrt(1 - q * q)), h.le(D, 1 - q * q)), base=True)
            h.assume(h.And(h.le(w, 1), h.le(h.q("1/10"), w)), base=True)
            for l in (la, lb, lc):
                h.assume(h.le(l, 20), base=True)
            self.recip = [[la, O, O], [lb * z, lb * v, O], [lc * y, lc * d(x - y * z, v), lc * d(w, v)]]
            rows = [
                [d(1, la), -d(z, la * v), d(x * z - y, la * v * w)],
                [O, d(1, lb * v), -d(x - y * z, lb * v * w)],
                [O, O, d(v, lc * w)],
            ]
            for r in rows:  # implied: the length of a direct vector is at least the inverse of a reciprocal one
                n = h.sqrt(h.dot(r, r))
                h.assume(h.lt(h.q("1/1000"), n), base=True)
        else:
            raise ValueError(t)
        self.rows = rows


class DS:
    pass


def dataset(h, t, number, std, positions, types, cell=None, atoms=None, rot=0, prim=None, prim_atoms=None, **kw):
    """SpglibData object for a crystal whose standardised cell is std (rows), through the public constructor.

    cell, atoms: the crystal as given by the user (default: its primitive cell and the first atom)."""
    R = q3(h, ROTATIONS[rot])
    def answer():  # a new object for every call, as the library does
        o = DS()
        o.number = number
        o.std_lattice = h.array(std)
        o.std_rotation_matrix = h.array(R)
        o.std_positions = h.array(positions)
        o.std_types = h.np.array([int(x) for x in types], dtype=int)
        return o

    conv = h.matmul(std, R)
    P = q3(h, PRIM[t[1]])
    if prim is None:
        prim = h.matmul(P, std)
    if prim_atoms is None:
        n = len(CENTRES[t[1]])
        prim_atoms = ([[h.q(0)] * 3] * (len(positions) // n), list(types)[: len(positions) // n])
    if cell is None:
        cell = h.matmul(prim, R)
    if atoms is None:
        atoms = {"positions": [[h.q(0)] * 3], "spglib_types": [types[0]]}
    h.stub_spglib(
        get_symmetry_dataset=lambda c, **k: answer(),
        find_primitive=lambda c, **k: (h.array(prim), h.array(prim_atoms[0]), h.np.array([int(x) for x in prim_atoms[1]], dtype=int)),
        __version__="stub",
    )
    data = h.w.get_spglib_data(cell, atoms, **kw)
    return cell, atoms, data, conv


def lattice_only(h, t):
    """positions and types of one atom at each lattice point of the conventional cell"""
    pos = [[h.q(x) for x in c] for c in CENTRES[t[1]]]
    return pos, [1] * len(pos)


def metric(h, cell):
    m = h.rows(cell)
    return [[h.dot(m[i], m[j]) for j in range(3)] for i in range(3)]


def reciprocal_metric(h, M):
    """inverse of the metric, up to the positive factor 1/det"""
    def cof(i, j):
        r = [k for k in range(3) if k != i]
        c = [k for k in range(3) if k != j]
        v = M[r[0]][c[0]] * M[r[1]][c[1]] - M[r[0]][c[1]] * M[r[1]][c[0]]
        return v if (i + j) % 2 == 0 else -v
    return [[cof(i, j) for j in range(3)] for i in range(3)]
