"""get_conventional: same crystal in the same orientation, documented choice of the cell for every lattice type."""

from symx.job import Job
from checks import crystals
from checks.c10 import niggli_stub

ASSUMPTIONS = [
    "the symmetry library's answer is the standardised cell of the Bravais lattice type with arbitrary parameters (lengths at least 1/10), in a fixed rational orientation, and arbitrary positions of its atoms",
    "mP, mC: beta between 1 and 179 degrees and off the right angle; hR: rhombohedral angle off the right angle; aP: cosines of the reciprocal angles zero or beyond 1/1000; lengths up to 50 (aP: reciprocal ones up to 20)",
    "HPKOT aP: the Niggli reduction (property C05) is replaced by one that returns an arbitrary basis of the reciprocal lattice",
]

# conventional cells whose centring is not moved by the choice of axes must keep their c axis
FLIPS = [((1, 1, 1)), ((1, -1, -1)), ((-1, 1, -1)), ((-1, -1, 1))]


def _num(x):
    try:
        return float(x)
    except Exception:
        return None


def integer_change(h, new, inverse, label, det=1):
    """rows of new are integer combinations (determinant det) of a basis given by the columns of inverse; returns the matrix"""
    M = h.matmul(new, inverse)
    for i in range(3):
        for j in range(3):
            h.eq(M[i][j], h.floor(M[i][j] + h.q("1/2")), f"{label}: integer coefficient [{i}][{j}]")
    h.eq(h.det(M), det, f"{label}: determinant")
    return M


def inverse_std(h, s, R):
    """inverse of (standardised cell . R), columns"""
    t = s.t
    rows = h.rows(s.rows)
    if getattr(s, "recip", None) is not None and not getattr(s, "changed", False):
        # columns are the reciprocal vectors
        inv = [[s.recip[j][i] for j in range(3)] for i in range(3)]
    else:
        d = h.det(rows)
        inv = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                r = [k for k in range(3) if k != j]
                c = [k for k in range(3) if k != i]
                m = rows[r[0]][c[0]] * rows[r[1]][c[1]] - rows[r[0]][c[1]] * rows[r[1]][c[0]]
                inv[i][j] = h.div(m if (i + j) % 2 == 0 else -m, d)
    RT = [[R[j][i] for j in range(3)] for i in range(3)]
    return h.matmul(RT, inv)


def same_site(h, new_pos, new_cell, old_abs, new_inverse):
    d = h.vecmat([x - y for x, y in zip(h.vecmat(new_pos, new_cell), old_abs)], new_inverse)
    return h.And(*[h.eqb(x, h.floor(x + h.q("1/2"))) for x in d])


def inverse(h, m):
    m = h.rows(m)
    d = h.det(m)
    inv = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [k for k in range(3) if k != j]
            c = [k for k in range(3) if k != i]
            x = m[r[0]][c[0]] * m[r[1]][c[1]] - m[r[0]][c[1]] * m[r[1]][c[0]]
            inv[i][j] = h.div(x if (i + j) % 2 == 0 else -x, d)
    return inv


def _mono(h, p):
    h.assume(h.lt(h.q("1/50"), p["sin"]), base=True)
    h.assume(h.lt(h.q("1/1000"), h.abs(p["cos"])), base=True)
    for k in "abc":
        h.assume(h.le(p[k], 50), base=True)


def _choice(h, t, conv, M, s):
    """documented choice of the SC conventional cell"""
    g = crystals.metric(h, conv)
    if t[0] in "ct":
        h.eq(g[0][0], g[1][1], "a = b")
        if t[0] == "c":
            h.eq(g[0][0], g[2][2], "a = c")
    if t[0] in "cto":
        for i, j in ((0, 1), (0, 2), (1, 2)):
            h.eq(g[i][j], 0, f"right angle {i}{j}")
    if t in ("oP", "oF", "oI"):
        h.lec(g[0][0], g[1][1], "a <= b")
        h.lec(g[1][1], g[2][2], "b <= c")
    if t in ("oC", "oA"):
        h.lec(g[0][0], g[1][1], "a <= b")
        axis = 2 if t == "oC" else 0  # the vector that is not mixed by the centring
        h.eq(h.abs(M[2][axis]), 1, "the centred face stays the ab one")
    if t == "hP":
        h.eq(g[0][0], g[1][1], "a = b")
        h.eq(g[0][1], -g[0][0] / 2, "gamma = 120")
        h.eq(g[0][2], 0, "beta = 90")
        h.eq(g[1][2], 0, "alpha = 90")
    if t[0] == "m":
        h.eq(g[0][1], 0, "gamma = 90")
        h.eq(g[0][2], 0, "beta = 90")
        h.lec(0, g[1][2], "alpha <= 90")
        if t == "mP":
            h.lec(g[1][1], g[2][2], "b <= c")
        else:
            h.eq(h.abs(M[2][2]), 1, "the centred face stays the ab one")
    if t == "hR":
        h.eq(g[0][0], g[1][1], "a = b")
        h.eq(g[0][0], g[2][2], "a = c")
        h.eq(g[0][1], g[0][2], "gamma = beta")
        h.eq(g[0][1], g[1][2], "gamma = alpha")


def _cosines(h, M, s):
    """cosines of the reciprocal angles (alpha, beta, gamma) of M . std for a signed permutation M"""
    old = [[1, s.p["z"], s.p["y"]], [s.p["z"], 1, s.p["x"]], [s.p["y"], s.p["x"], 1]]
    out = []
    for i, j in ((1, 2), (0, 2), (0, 1)):
        out.append(sum((M[i][p] * M[j][q] * old[p][q] for p in range(3) for q in range(3)), 0))
    return out


def _triclinic_choice(h, M, s):
    al, be, ga = _cosines(h, M, s)
    obtuse = h.And(h.le(al, 0), h.le(be, 0), h.le(ga, 0), h.le(al, ga), h.le(be, ga))
    acute = h.And(h.le(0, al), h.le(0, be), h.le(0, ga), h.le(ga, al), h.le(ga, be))
    h.check(h.Or(obtuse, acute), "reciprocal angles: all >= 90 with gamma smallest or all <= 90 with gamma largest")


def _signed_permutation(h, M, label):
    for i in range(3):
        h.eq(sum((h.abs(M[i][j]) for j in range(3)), 0), 1, f"{label}: axis {i + 1} is one of the axes")


def _atoms(h, s, n_kinds):
    """positions and types of n_kinds orbits of the centring translations"""
    pos, types = [], []
    for k in range(n_kinds):
        p = h.vec(f"x{k}_")
        for c in crystals.CENTRES[s.t[1]]:
            pos.append([p[i] + h.q(c[i]) for i in range(3)])
            types.append(k + 1)
    return pos, types


def _setup(h, t, conv, rot, kinds, flip=0):
    s = crystals.Std(h, t)
    if t[0] == "m":
        _mono(h, s.p)
    if t == "hR":
        a, c = s.p["a"], s.p["c"]
        h.assume(h.le(h.q("1/1000") * (a * a + c * c), h.abs(2 * c * c - 3 * a * a)), base=True)
    if t == "aP":
        for k in "xyz":
            q = s.p[k]
            h.assume(h.Or(h.eqb(q, 0), h.le(h.q("1/1000"), h.abs(q))), base=True)
        if conv == "HPKOT":
            niggli_stub(h, s)
            s.changed = True
    pos, types = _atoms(h, s, kinds)
    R = crystals.q3(h, crystals.ROTATIONS[rot])
    prim = h.matmul(crystals.q3(h, crystals.PRIM[t[1]]), s.rows)
    if flip:
        prim = [[h.q(FLIPS[flip][i]) * x for x in r] for i, r in enumerate(prim)]
    n = len(crystals.CENTRES[t[1]])
    # positions of the primitive atoms in the primitive cell
    pinv = inverse(h, h.matmul(crystals.q3(h, crystals.PRIM[t[1]]), [[h.q(int(i == j)) for j in range(3)] for i in range(3)]))
    ppos = []
    for k in range(kinds):
        v = h.vecmat(pos[k * n], pinv)
        if flip:
            v = [h.q(FLIPS[flip][i]) * x for i, x in enumerate(v)]
        ppos.append(v)
    ptypes = [k + 1 for k in range(kinds)]
    num = crystals.NUMBERS[t]
    atoms = {"positions": [list(p) for p in ppos], "spglib_types": list(ptypes)}
    cell = h.matmul(prim, R)
    cell, atoms, data, std = crystals.dataset(h, t, num[0] or num[1], s.rows, pos, types, rot=rot, cell=cell, atoms=atoms, prim=prim, prim_atoms=(ppos, ptypes))
    return s, R, cell, atoms, data, std, pos, types, prim, ppos, ptypes


def _check_atoms(h, conv, conv_inv, got, old_cell, old_pos, old_types):
    pos = h.rows(got["positions"])
    kinds = list(got["spglib_types"])
    h.check(len(pos) == len(old_pos) and len(kinds) == len(old_pos), "number of atoms")
    if len(pos) != len(old_pos):
        return
    olds = [h.vecmat(p, old_cell) for p in old_pos]
    for i in range(len(pos)):
        # the site in the same place of the list first, then any other of the kind
        order = [i] + [j for j in range(len(olds)) if j != i]
        found = False
        for j in order:
            if kinds[i] != old_types[j]:
                continue
            c = same_site(h, pos[i], conv, olds[j], conv_inv)
            found = h.Or(found, c)
            if found is True:
                break
        h.check(found, f"atom {i + 1} sits at a site of its kind")
    for k in set(old_types):
        h.check(list(kinds).count(k) == list(old_types).count(k), f"number of atoms of kind {k}")


def _sc(t, rot, flip=0, kinds=2):
    def f(h):
        s, R, cell, atoms, data, std, pos, types, prim, ppos, ptypes = _setup(h, t, "SC", rot, kinds, flip)
        conv, got = h.w.crystal.get_conventional(cell, atoms, convention="SC", spglib_data=data)
        sinv = inverse_std(h, s, R)
        if t == "hR":
            pinv = h.matmul(sinv, inverse(h, [[h.q(FLIPS[flip][i]) * h.q(x) for x in r] for i, r in enumerate(crystals.PRIM["R"])]))
            M = integer_change(h, conv, pinv, "basis change")
            conv_inv = _inv_from(h, M, pinv)
            _choice(h, t, conv, M, s)
            _check_atoms(h, conv, conv_inv, got, h.matmul(prim, R), ppos, ptypes)
        else:
            M = integer_change(h, conv, sinv, "basis change")
            conv_inv = _inv_from(h, M, sinv)
            _signed_permutation(h, M, "SC")
            _choice(h, t, conv, M, s)
            if t == "aP":
                _triclinic_choice(h, M, s)
            _check_atoms(h, conv, conv_inv, got, std, pos, types)

    return f


def _inv_from(h, M, old_inv):
    """inverse of M . old for a basis change M of determinant one"""
    adj = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [k for k in range(3) if k != j]
            c = [k for k in range(3) if k != i]
            x = M[r[0]][c[0]] * M[r[1]][c[1]] - M[r[0]][c[1]] * M[r[1]][c[0]]
            adj[i][j] = x if (i + j) % 2 == 0 else -x
    return h.matmul(old_inv, adj)


def _same(t, conv_name, rot, kinds=1):
    """conventions that take the standardised cell as it is"""

    def f(h):
        s, R, cell, atoms, data, std, pos, types, *_ = _setup(h, t, "spglib", rot, kinds)
        conv, got = h.w.crystal.get_conventional(cell, atoms, convention=conv_name, spglib_data=data)
        sinv = inverse_std(h, s, R)
        M = integer_change(h, conv, sinv, "basis change")
        h.eqv(M, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "the standardised cell in the orientation of the crystal")
        _check_atoms(h, conv, sinv, got, std, pos, types)

    return f


def _hpkot_a(h):
    s, R, cell, atoms, data, std, pos, types, *_ = _setup(h, "aP", "HPKOT", 0, 1)
    conv, got = h.w.crystal.get_conventional(cell, atoms, convention="HPKOT", spglib_data=data)
    # conv^-T is the reciprocal cell: coefficients relative to the reduced reciprocal basis
    red = s.recip
    # the direct basis of the reduced reciprocal one: columns are the reduced reciprocal vectors
    inv = [[red[j][i] for j in range(3)] for i in range(3)]
    M = integer_change(h, conv, inv, "basis change")
    _signed_permutation(h, M, "HPKOT")
    al, be, ga = _cosines(h, M, s)
    k = [s.p[n + "0"] if n + "0" in s.p else s.p[n] for n in ("ka", "kb", "kc")]
    L = [sum((h.abs(M[i][j]) * k[j] for j in range(3)), 0) for i in range(3)]
    bc, ac, ab = h.abs(L[1] * L[2] * al), h.abs(L[0] * L[2] * be), h.abs(L[0] * L[1] * ga)
    h.lec(ab, bc, "|b1.b2| is the smallest product")
    h.lec(ab, ac, "|b1.b2| is the smallest product")
    h.check(h.Or(h.And(h.lt(0, al), h.lt(0, be), h.lt(0, ga)), h.And(h.le(al, 0), h.le(be, 0), h.le(ga, 0))), "reciprocal angles are all acute or all non-acute")
    _check_atoms(h, conv, _inv_from(h, M, inv), got, std, pos, types)


PATTERNS = [[1, 2], [2, 1], [1, 1], [1, 2, 1], [2, 1, 1], [1, 1, 2], [1, 2, 2, 1], [2, 2, 1, 3]]


def _keys(conv_name, t, getter):
    """per-atom data of the returned atoms come from the last atom of the kind"""

    def f(h):
        k = h.choose("pattern", len(PATTERNS))
        orig = PATTERNS[k]
        s = crystals.Std(h, t)
        kinds = sorted(set(orig))
        if h.boolean_choice("descending"):
            kinds = kinds[::-1]
        pos, types = [], []
        for q, kind in enumerate(kinds):
            for c in crystals.CENTRES[t[1]]:
                pos.append([h.q(c[i]) + h.q(q) / 7 for i in range(3)])
                types.append(kind)
        with_types = h.boolean_choice("types given")
        a = [h.real(f"data{i}") for i in range(len(orig))]
        atoms = {"positions": [h.vec(f"p{i}_") for i in range(len(orig))]}
        if with_types:
            atoms["spglib_types"] = list(orig)
        else:
            atoms["species"] = [["", "Cr", "O", "I"][q] for q in orig]
        atoms["charge"] = list(a)
        cell = h.matmul([[h.q(x) for x in r] for r in ((1, 0, 0), (0, 2, 0), (0, 0, 3))], s.rows)
        before = h.snapshot(atoms)
        # types that the package gives to the atoms (property C16)
        given = list(h.w.get_spglib_types(atoms))
        n = len(crystals.CENTRES[t[1]])
        name = {o: g for o, g in zip(orig, given)}
        if len(set(name.values())) != len(name) or any(name[o] != g for o, g in zip(orig, given)):
            h.check(False, "types follow the species")
            return
        types = [name[q] for q in types]
        ppos, ptypes = [h.vecmat(pos[i], inverse(h, crystals.q3(h, crystals.PRIM[t[1]]))) for i in range(0, len(pos), n)], types[::n]
        cell, atoms, data, std = crystals.dataset(h, t, (crystals.NUMBERS[t][0] or crystals.NUMBERS[t][1]), s.rows, pos, types, cell=cell, atoms=atoms, prim_atoms=(ppos, ptypes))
        conv, got = getter(h)(cell, atoms, convention=conv_name, spglib_data=data)
        h.check(set(got) == set(atoms) | {"spglib_types"}, "all keys of the input and the types")
        out = list(got["spglib_types"])
        h.check(len(out) == len(h.rows(got["positions"])) and set(out) == set(types), "types of the returned atoms")
        for key in atoms:
            if key == "positions":
                continue
            h.check(len(got[key]) == len(out), f"length of {key}")
            if len(got[key]) != len(out):
                continue
            for i, q in enumerate(out):
                last = max(j for j in range(len(given)) if given[j] == q)
                if key == "charge":
                    h.eq(got[key][i], a[last], "data of the last atom of the kind")
                else:
                    h.check(got[key][i] == atoms[key][last], f"{key} of the last atom of the kind")
        h.check(list(before) == list(atoms), "the input keeps its keys")
        for i in range(len(orig)):
            h.eq(atoms["charge"][i], before["charge"][i], "the input keeps its values")
            h.eqv(atoms["positions"][i], before["positions"][i], "the input keeps its positions")

    return f


def _names(h):
    """convention names are case-insensitive, unknown ones are errors"""
    s = crystals.Std(h, "oP")
    pos, types = crystals.lattice_only(h, "oP")
    cell, atoms, data, std = crystals.dataset(h, "oP", 47, s.rows, pos, types)
    groups = [("SC", "sc", "Sc"), ("HPKOT", "hpkot", "Hpkot"), ("spglib", "SPGLIB")]
    g = groups[h.choose("group", 3)]
    ref, _ = h.w.crystal.get_conventional(cell, atoms, convention=g[0], spglib_data=data)
    for n in g[1:]:
        c, _ = h.w.crystal.get_conventional(cell, atoms, convention=n, spglib_data=data)
        h.eqv(c, ref, "letter case of the convention")
    r, e = h.call(h.w.crystal.get_conventional, cell, atoms, convention="ITA", spglib_data=data)
    h.check(e is not None, "unknown convention is an error")
    d, _ = h.w.crystal.get_conventional(cell, atoms, spglib_data=data)
    q, _ = h.w.crystal.get_conventional(cell, atoms, convention="hpkot", spglib_data=data)
    h.eqv(d, q, "HPKOT is the default")


def jobs(tier):
    r = []
    for i, t in enumerate(crystals.TYPES):
        kinds = 1 if t == "aP" else 2
        rot = 0 if t == "aP" else i % 3
        if t == "hR":
            for fl in range(4):
                r.append(Job(f"sc_hR_{fl}", _sc(t, fl % 3, fl, kinds), wall=300, bounds="all lattice parameters, any positions of 2 atoms"))
        else:
            r.append(Job(f"sc_{t}", _sc(t, rot, 0, kinds), wall=400 if t == "aP" else 300, bounds=f"all lattice parameters, any positions of {kinds} atoms"))
        if t != "aP":
            r.append(Job(f"hpkot_{t}", _same(t, "HPKOT", (i + 1) % 3), wall=300, bounds="all lattice parameters, any position of 1 atom"))
        r.append(Job(f"spglib_{t}", _same(t, "spglib", (i + 2) % 3 if t != "aP" else 0), wall=300, bounds="all lattice parameters, any position of 1 atom"))
    r.append(Job("hpkot_aP", _hpkot_a, wall=400, bounds="all reciprocal parameters, any position of 1 atom"))
    get = lambda h: h.w.crystal.get_conventional
    for c in ("SC", "HPKOT", "spglib"):
        r.append(Job(f"keys_{c}", _keys(c, "oI", get), wall=300, bounds="up to 4 atoms of up to 3 kinds"))
    r.append(Job("names", _names, wall=100))
    return r
