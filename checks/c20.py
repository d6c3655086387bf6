"""Space-group tables and centring matrices against International Tables and the publications."""

from symx.job import Job

ASSUMPTIONS = []

# International Tables vol. A, written down independently of the package
FAMILY = [("a", 1, 2), ("m", 3, 15), ("o", 16, 74), ("t", 75, 142), ("h", 143, 194), ("c", 195, 230)]
CENTRO = [(2, 2), (10, 15), (47, 74), (83, 88), (123, 142), (147, 148), (162, 167), (175, 176), (191, 194), (200, 206), (221, 230)]
CENTRING = {
    "A": [(38, 41)],
    "C": [(5, 5), (8, 9), (12, 12), (15, 15), (20, 21), (35, 37), (63, 68)],
    "F": [(22, 22), (42, 43), (69, 70), (196, 196), (202, 203), (209, 210), (216, 216), (219, 219), (225, 228)],
    "I": [(23, 24), (44, 46), (71, 74), (79, 80), (82, 82), (87, 88), (97, 98), (107, 110), (119, 122), (139, 142),
          (197, 197), (199, 199), (204, 204), (206, 206), (211, 211), (214, 214), (217, 217), (220, 220), (229, 230)],
    "R": [(146, 146), (148, 148), (155, 155), (160, 161), (166, 167)],
}
TYPES = ["cP", "cF", "cI", "tP", "tI", "oP", "oF", "oI", "oA", "oC", "hP", "hR", "mP", "mC", "aP"]

F12 = [["0", "1/2", "1/2"], ["1/2", "0", "1/2"], ["1/2", "1/2", "0"]]
I12 = [["-1/2", "1/2", "1/2"], ["1/2", "-1/2", "1/2"], ["1/2", "1/2", "-1/2"]]
C12 = [["1/2", "1/2", "0"], ["-1/2", "1/2", "0"], ["0", "0", "1"]]
E = [["1", "0", "0"], ["0", "1", "0"], ["0", "0", "1"]]
MC = [["1/2", "-1/2", "0"], ["1/2", "1/2", "0"], ["0", "0", "1"]]
# columns are the primitive vectors in the conventional ones: HPKOT table 3 ...
HPKOT = {
    "cF": F12, "oF": F12, "cI": I12, "tI": I12, "oI": I12, "oC": C12, "mC": MC,
    "oA": [["0", "0", "1"], ["1/2", "1/2", "0"], ["-1/2", "1/2", "0"]],
    "hR": [["2/3", "-1/3", "-1/3"], ["1/3", "1/3", "-2/3"], ["1/3", "1/3", "1/3"]],
}
# ... and section 2 of Setyawan and Curtarolo (hR is described by its primitive cell, oA by C centring)
SC = {"cF": F12, "oF": F12, "cI": I12, "tI": I12, "oI": I12, "oC": C12, "oA": C12, "mC": MC}
CENTRES = {
    "P": [], "F": [("0", "1/2", "1/2"), ("1/2", "0", "1/2"), ("1/2", "1/2", "0")], "I": [("1/2", "1/2", "1/2")],
    "C": [("1/2", "1/2", "0")], "A": [("0", "1/2", "1/2")], "R": [("2/3", "1/3", "1/3"), ("1/3", "2/3", "2/3")],
}


def _in(h, n, ranges):
    return h.Or(False, *[h.And(h.le(a, n), h.le(n, b)) for a, b in ranges])


def _lookup(h, table, n):
    """table[n] for a symbolic n, one path per distinct value"""
    if not h.symbolic:
        return table[n]
    from symx import shims

    return shims.getitem(table, n)


def inversion(h):
    n = h.integer("number", 1, 230)
    v = _lookup(h, h.w.constants.INVERSION_SYMMETRY, n)
    h.check(h.Iff(v, _in(h, n, CENTRO)), "inversion centre as in the International Tables")


def family(h):
    n = h.integer("number", 1, 230)
    v = _lookup(h, h.w.constants.CRYSTAL_FAMILY, n)
    known = [f for f in FAMILY if f[0] == v]
    h.check(len(known) == 1, "the family is one of the six letters")
    for _, lo, hi in known:
        h.check(h.And(h.le(lo, n), h.le(n, hi)), "crystal family as in the International Tables")


def centring(h):
    n = h.integer("number", 1, 230)
    v = _lookup(h, h.w.constants.CENTRING_TYPE, n)
    if v in CENTRING:
        h.check(_in(h, n, CENTRING[v]), "centring letter as in the International Tables")
    else:
        h.check(v == "P", "the centring is one of the letters")
        for k, r in CENTRING.items():
            h.check(h.Not(_in(h, n, r)), f"P only when not {k}")


def lattice_type(h):
    """family + centring is always one of the lattice types the other tables know"""
    n = h.integer("number", 1, 230)
    c = h.w.constants
    t = _lookup(h, c.CRYSTAL_FAMILY, n) + _lookup(h, c.CENTRING_TYPE, n)
    h.check(t in TYPES, "Bravais lattice type exists")
    h.check(t in c.BRAVAIS_LATTICES, "listed")
    for name in ("SC_CONVENTIONAL_TO_PRIMITIVE", "HPKOT_CONVENTIONAL_TO_PRIMITIVE", "SC_BRAVAIS_LATTICE_SHORT_NAMES", "SC_BRAVAIS_LATTICE_LONG_NAMES"):
        h.check(t in getattr(c, name), f"{name} has the lattice type")
    short = {
        "cP": "CUB", "cF": "FCC", "cI": "BCC", "tP": "TET", "tI": "BCT", "oP": "ORC", "oF": "ORCF", "oI": "ORCI",
        "oA": "ORCC", "oC": "ORCC", "hP": "HEX", "hR": "RHL", "mP": "MCL", "mC": "MCLC", "aP": "TRI",
    }
    h.check(c.SC_BRAVAIS_LATTICE_SHORT_NAMES[t] == short[t], "short name of the lattice")


def numbers(h):
    c = h.w.constants
    for name in ("INVERSION_SYMMETRY", "CRYSTAL_FAMILY", "CENTRING_TYPE"):
        h.check(sorted(getattr(c, name)) == list(range(1, 231)), f"{name} covers exactly 1..230")


def _matrix(conv, t):
    def f(h):
        M = getattr(h.w.constants, conv + "_CONVENTIONAL_TO_PRIMITIVE")[t]
        want = {"HPKOT": HPKOT, "SC": SC}[conv].get(t, E)
        M = h.rows(M)
        for i in range(3):
            for j in range(3):
                h.eq(M[i][j], h.q(want[i][j]), f"{conv} matrix of {t}", tol=1e-12)

    return f


def _lattice(conv, t):
    """the columns generate exactly the conventional lattice with its centring translations"""

    def f(h):
        M = h.rows(getattr(h.w.constants, conv + "_CONVENTIONAL_TO_PRIMITIVE")[t])
        letter = t[1]
        if conv == "SC" and t == "oA":
            letter = "C"
        if conv == "SC" and t == "hR":
            letter = "P"
        shifts = [("0", "0", "0")] + CENTRES[letter]
        d = h.det(M)
        h.eq(d * len(shifts), 1, "volume of the primitive cell")
        # every primitive vector is a conventional one up to a centring translation
        m = [h.integer(f"m{i}", -1000000, 1000000) for i in range(3)]
        v = h.matvec(M, m)
        alts = []
        for s in shifts:
            alts.append(h.And(*[h.eqb(v[i] - h.q(s[i]), h.floor(v[i] - h.q(s[i]) + h.q("1/1000000"))) for i in range(3)]))
        h.check(h.Or(*alts), "primitive vectors are lattice vectors")
        # and every lattice vector is an integer combination of the primitive ones (Cramer)
        n = [h.integer(f"n{i}", -1000000, 1000000) for i in range(3)]
        k = h.choose("translation", len(shifts))
        x = [n[i] + h.q(shifts[k][i]) for i in range(3)]
        for j in range(3):
            A = [[(x[r] if cc == j else M[r][cc]) for cc in range(3)] for r in range(3)]
            y = h.div(h.det(A), d)
            h.check(h.eqb(y, h.floor(y + h.q("1/1000"))), "lattice vectors are integer combinations of the primitive ones")

    return f


def jobs(tier):
    b = "all 230 numbers (symbolic)"
    r = [Job(f.__name__, f, wall=60, bounds=b) for f in (inversion, family, centring, lattice_type, numbers)]
    for conv in ("HPKOT", "SC"):
        for t in TYPES:
            r.append(Job(f"matrix_{conv}_{t}", _matrix(conv, t), wall=30, bounds="all nine elements"))
            r.append(Job(f"lattice_{conv}_{t}", _lattice(conv, t), wall=60, bounds="all integer combinations up to 1e6"))
    return r
