"""get_primitive: the lattice with its centring translations, one atom per orbit, data of the atoms."""

from symx.job import Job
from checks import crystals
from checks.c07 import _inv_from, _keys, _mono, integer_change, inverse, inverse_std
from checks.c10 import niggli_stub

ASSUMPTIONS = [
    "the symmetry library's answer is the standardised cell of the Bravais lattice type with arbitrary parameters (lengths at least 1/10), in a fixed rational orientation; its atoms are exact copies under the centring translations",
    "distinct orbits of atoms differ by at least 1/50 (modulo 1) in one coordinate of the primitive basis; coordinates from -2 to 2",
    "mP, mC: beta between 1 and 179 degrees and off the right angle; hR: rhombohedral angle off the right angle; aP: cosines of the reciprocal angles zero or beyond 1/1000",
    "HPKOT aP: the Niggli reduction (property C05) is replaced by one that returns an arbitrary basis of the reciprocal lattice",
]


def _extra(h, t, s, conv):
    if t[0] == "m":
        _mono(h, s.p)
    if t == "hR":
        a, c = s.p["a"], s.p["c"]
        h.assume(h.le(h.q("1/1000") * (a * a + c * c), h.abs(2 * c * c - 3 * a * a)), base=True)
    if t == "aP":
        for k in "xyz":
            q = s.p[k]
            h.assume(h.Or(h.eqb(q, 0), h.le(h.q("1/1000"), h.abs(q))), base=True)
        if conv == "HPKOT":
            niggli_stub(h, s)
            s.changed = True


def _prim(t, conv, rot, kinds, axis=0):
    def f(h):
        s = crystals.Std(h, t)
        _extra(h, t, s, conv)
        P = crystals.q3(h, crystals.PRIM[t[1]])
        centres = crystals.CENTRES[t[1]]
        ys, pos, types, kind = [], [], [], []
        for k in range(kinds):
            y = h.vec(f"y{k}_")
            for i in range(3):
                if kinds > 1 and i == axis:
                    lo, hi = h.q(k) / kinds + h.q("1/100"), h.q(k + 1) / kinds - h.q("1/100")
                    h.assume(h.And(h.le(lo, y[i]), h.le(y[i], hi)), base=True)
                else:
                    h.assume(h.And(h.le(-2, y[i]), h.le(y[i], 2)), base=True)
            ys.append(y)
            kind.append((5, 3, 5)[k])
            c0 = h.vecmat(y, P)
            for c in centres:
                pos.append([c0[i] + h.q(c[i]) for i in range(3)])
                types.append(kind[k])
        # the centring copies of different orbits are interleaved, as the library may order them at will
        order = sorted(range(len(pos)), key=lambda i: (i % len(centres), i // len(centres)))
        pos, types = [pos[i] for i in order], [types[i] for i in order]
        R = crystals.q3(h, crystals.ROTATIONS[rot])
        prim_std = h.matmul(P, s.rows)
        atoms = {"positions": [list(y) for y in ys], "spglib_types": list(kind), "label": [h.real(f"label{k}") for k in range(kinds)]}
        cell = h.matmul(prim_std, R)
        num = crystals.NUMBERS[t]
        cell, atoms, data, std = crystals.dataset(h, t, num[0] or num[1], s.rows, pos, types, rot=rot, cell=cell, atoms=atoms, prim_atoms=(ys, kind))
        conv_cell, _ = h.w.crystal.get_conventional(cell, atoms, convention=conv, spglib_data=data)
        prim, got = h.w.crystal.get_primitive(cell, atoms, spglib_data=data, **({} if conv == "HPKOT" and kinds == 1 else {"convention": conv}))
        # lattice: integer combinations of the primitive vectors of the standardised cell
        pinv = h.matmul(inverse_std(h, s, R), inverse(h, P))
        M = integer_change(h, prim, pinv, "primitive lattice")
        n = len(centres)
        v = h.abs(h.det(h.rows(prim)))
        w = h.abs(h.det(h.rows(conv_cell)))
        h.eq(v * (1 if conv == "SC" and t == "hR" else n), w, "volume is that of the conventional cell over the number of centring points")
        # atoms
        p = h.rows(got["positions"])
        k_out = list(got["spglib_types"])
        h.check(len(p) == kinds and len(k_out) == kinds, "one atom per orbit")
        if len(p) != kinds:
            return
        inv = _inv_from(h, M, [[h.q(int(i == j)) for j in range(3)] for i in range(3)])
        want = [h.vecmat(y, inv) for y in ys]
        tol = h.q("1e-7")
        used = [[] for _ in range(kinds)]
        for i in range(kinds):
            if conv != "spglib":
                for j in range(3):
                    h.check(h.And(h.le(0, p[i][j]), h.lt(p[i][j], 1)), "coordinates in [0, 1)")
            found = []
            for k in [i] + [k for k in range(kinds) if k != i]:
                if k_out[i] != kind[k]:
                    continue
                d = [p[i][j] - want[k][j] for j in range(3)]
                c = h.And(*[h.le(h.abs(x - h.floor(x + h.q("1/2"))), tol) for x in d])
                found.append(c)
                used[k].append(c)
            h.check(h.Or(*found) if found else False, "the atom sits at a site of its kind")
        for k in range(kinds):
            h.check(h.Or(*used[k]) if used[k] else False, "every orbit has its atom")
        for k in set(kind):
            h.check(k_out.count(k) == kind.count(k), "number of atoms of each kind")
        for i in range(kinds):
            src = [h.eqb(got["label"][i], atoms["label"][k]) for k in range(kinds) if kind[k] == k_out[i]]
            h.check(h.Or(*src) if src else False, "data come from an input atom of the kind")

    return f


def jobs(tier):
    r = []
    for i, t in enumerate(crystals.TYPES):
        for c, conv in enumerate(("SC", "HPKOT", "spglib")):
            rot = 0 if t == "aP" else (i + c) % 3
            for kinds in (1, 2) if tier == "quick" else (1, 2, 3):
                if kinds == 2 and (conv == "spglib" or t == "aP") and tier == "quick":
                    continue
                r.append(Job(f"{conv}_{t}_{kinds}", _prim(t, conv, rot, kinds, axis=i % 3), wall=400 if t == "aP" else 300,
                             bounds=f"all lattice parameters, {kinds} orbits of atoms at any position"))
    get = lambda h: h.w.crystal.get_primitive
    for c in ("SC", "HPKOT", "spglib"):
        for t in ("oI", "mP"):
            r.append(Job(f"keys_{c}_{t}", _keys(c, t, get), wall=300, bounds="up to 4 atoms of up to 3 kinds"))
    return r
