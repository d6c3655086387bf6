"""get_path_and_points: completeness, coordinate modes, extension without inversion and time reversal."""

from symx.job import Job
from checks import crystals
from checks.c10 import niggli_stub
from checks.c11 import EXTRA

ASSUMPTIONS = [
    "the symmetry library's answer is the standardised cell of the Bravais lattice type with arbitrary parameters (lengths at least 1/10), in a fixed rational orientation",
    "the cell of the user is one of three fixed integer combinations (determinant 1, 1, 2) of the primitive vectors",
    "aP: reciprocal cell with free metric, angles off 90 degrees; HPKOT aP: the Niggli reduction (property C05) is replaced by an arbitrary basis change",
    "extension of the path, aP: all reciprocal angles acute",
    "mC, mP: beta off the right angle",
]

# space groups with an inversion centre and centring letters, from the International Tables
_CENTRO = [(2, 2), (10, 15), (47, 74), (83, 88), (123, 142), (147, 148), (162, 167), (175, 176), (191, 194), (200, 206), (221, 230)]
_CENTRING = {
    "C": [5, 8, 9, 12, 15, 20, 21, 35, 36, 37, 63, 64, 65, 66, 67, 68],
    "A": [38, 39, 40, 41],
    "F": [22, 42, 43, 69, 70, 196, 202, 203, 209, 210, 216, 219, 225, 226, 227, 228],
    "I": [23, 24, 44, 45, 46, 71, 72, 73, 74, 79, 80, 82, 87, 88, 97, 98, 107, 108, 109, 110, 119, 120, 121, 122, 139, 140, 141, 142, 197, 199, 204, 206, 211, 214, 217, 220, 229, 230],
    "R": [146, 148, 155, 160, 161, 166, 167],
}
_FAMILY = [(1, 2, "a"), (3, 15, "m"), (16, 74, "o"), (75, 142, "t"), (143, 194, "h"), (195, 230, "c")]


def centro(n):
    return any(a <= n <= b for a, b in _CENTRO)


def lattice_type(n):
    c = next((k for k, v in _CENTRING.items() if n in v), "P")
    return next(f for a, b, f in _FAMILY if a <= n <= b) + c


BY_TYPE = {t: [n for n in range(1, 231) if lattice_type(n) == t] for t in crystals.TYPES}

CELLS = [
    ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    ((1, 1, 0), (0, 1, -1), (1, 1, 1)),
    ((1, 0, 0), (1, 0, 2), (0, -1, 1)),
]


def crystal(h, t, rot, number, change, conv, acute=False):
    s = crystals.Std(h, t)
    if acute and t == "aP":
        h.assume(h.And(*[h.lt(0, s.p[k]) for k in "xyz"]), base=True)
    if EXTRA.get(t) and (conv == "SC" or t in ("mP", "mC", "aP")):
        EXTRA[t](h, s.p)
    if t == "aP" and conv == "HPKOT":
        niggli_stub(h, s)
    pos, types = crystals.lattice_only(h, t)
    prim = h.matmul(crystals.q3(h, crystals.PRIM[t[1]]), s.rows)
    U = [[h.q(x) for x in r] for r in CELLS[change]]
    cell = h.matmul(U, h.matmul(prim, crystals.q3(h, crystals.ROTATIONS[rot])))
    det = abs(round(float(h.det(U))))
    # the second atom of a doubled cell sits at the primitive vector that U misses
    atoms = {"positions": [[h.q(0)] * 3], "spglib_types": [1]}
    if det == 2:
        atoms = {"positions": [[h.q(0)] * 3, [h.q(x) for x in ("-1/2", "1/2", 0)]], "spglib_types": [1, 1]}
    cell, atoms, data, _ = crystals.dataset(h, t, number, s.rows, pos, types, cell=cell, atoms=atoms, rot=rot)
    return cell, atoms, data


def _get(h, cell, atoms, data, conv, **k):
    if conv != "HPKOT":  # the default
        k["convention"] = conv
    return h.w.kpoints.get_path_and_points(cell, atoms, data, **k)


def _modes(t, conv, rot, number, change):
    """relative coordinates refer to the reciprocal cell of the user's cell"""

    def f(h):
        cell, atoms, data = crystal(h, t, rot, number, change, conv)
        p1, absolute = _get(h, cell, atoms, data, conv, relative=False)
        p2, relative = _get(h, cell, atoms, data, conv)
        p3, again = _get(h, cell, atoms, data, conv.lower(), relative=True, with_time_reversal=False)
        h.check(p1 == p2, "the path does not depend on the coordinate mode")
        h.check(list(absolute) == list(relative), "the points do not depend on the coordinate mode")
        names = [n for s in p2.split("|") for n in s.split("-")]
        h.check(all(n in relative for n in names), "every point of the path has coordinates")
        h.check("GAMMA" in relative, "the origin is among the points")
        if "GAMMA" in relative:
            h.eqv(relative["GAMMA"], [0, 0, 0], "coordinates of the origin")
        rows = h.rows(cell)
        for n in relative:
            if n not in absolute:
                continue
            for j in range(3):
                x = h.div(h.dot(list(absolute[n]), rows[j]), 2 * h.PI)
                h.eq(relative[n][j], x, f"absolute coordinates of {n} are the image of the relative ones")
        _extended(h, p2, relative, p3, again, centro(number))

    return f


def _extended(h, path, pts, path2, pts2, inversion):
    if inversion:
        h.check(path2 == path, "with inversion the path is not extended")
        h.check(sorted(pts2) == sorted(pts), "with inversion no points are added")
    else:
        twin = "|".join("-".join(n if n == "GAMMA" else n + "_P" for n in s.split("-")) for s in path.split("|"))
        h.check(path2 == path + "|" + twin, "the path is extended by the inverted one")
        want = sorted(list(pts) + [n + "_P" for n in pts if n != "GAMMA"])
        h.check(sorted(pts2) == want, "the inverted points are added")
    for n in pts2:
        if n in pts:
            h.eqv(pts2[n], pts[n], f"{n} is the same with and without time reversal")
        elif n.endswith("_P") and n[:-2] in pts:
            h.eqv(pts2[n], [-x for x in pts[n[:-2]]], f"{n} is the inverted point")


def _groups(t, conv, rot, numbers):
    """every space group: extension of the path"""

    def f(h):
        k = h.choose("number", len(numbers))
        n = numbers[k]
        cell, atoms, data = crystal(h, t, rot, n, 0, conv, acute=True)
        h.check(data.crystal_family + data.centring_type == t, f"lattice type of space group {n}")
        path, pts = _get(h, cell, atoms, data, conv, relative=False)
        path2, pts2 = _get(h, cell, atoms, data, conv, relative=False, with_time_reversal=False)
        _extended(h, path, pts, path2, pts2, centro(n))

    return f


def jobs(tier):
    r = []
    for i, t in enumerate(crystals.TYPES):
        for c, conv in enumerate(("SC", "HPKOT")):
            num = crystals.NUMBERS[t]
            without = num[1]
            rot = 0 if t == "aP" else (i + c) % 3
            change = (1, 2, 1)[(i + c) % 3]
            r.append(Job(f"modes_{conv}_{t}", _modes(t, conv, rot, without, change), wall=400 if t == "aP" else 300, bounds="all lattice parameters"))
            if tier == "thorough" and num[0]:
                r.append(Job(f"modes_inv_{conv}_{t}", _modes(t, conv, (rot + 1) % 3 if t != "aP" else 0, num[0], 3 - change), wall=300, bounds="all lattice parameters"))
            nums = BY_TYPE[t]
            size = 1 if t == "aP" else 60 if t[0] in "cho" else 20
            for j in range(0, len(nums), size):
                part = nums[j : j + size]
                r.append(Job(f"groups_{conv}_{t}_{part[0]}", _groups(t, conv, 0, part), wall=400 if t == "aP" else 300, bounds=f"space groups {part[0]}..{part[-1]} of type {t}, all lattice parameters"))
    return r
