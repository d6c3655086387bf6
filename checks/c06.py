"""Lattice points, Wigner-Seitz cells and Brillouin zones."""

import itertools

from symx.job import Job

ASSUMPTIONS = [
    "scipy.spatial.Voronoi is replaced by a stub that returns any tessellation allowed by its contract: a closed polyhedron (box, hexagonal prism, rhombic dodecahedron or truncated octahedron) around the origin with free vertex coordinates, arbitrary vertex numbering out of a family, faces traversed from any start in either direction, plus unrelated finite and infinite ridges",
    "that scipy's answer is the exact tessellation is trusted; the stub demands that the origin and all face-defining neighbours are among the points passed to it",
    "shear of the given cell with respect to the reduced one: up to 10 cell vectors are sampled by the listed U; more than 10 is the known finding C06-very-skewed",
]


# ---- polyhedra: list of faces, each a cycle of vertex numbers; neighbour per face as integer
# coefficients with respect to a reduced superbase
def _box():
    vs = list(itertools.product((0, 1), repeat=3))
    idx = {v: i for i, v in enumerate(vs)}
    faces, nb = [], []
    for ax in range(3):
        o = [i for i in range(3) if i != ax]
        for s in (0, 1):
            cyc = []
            for a, b in ((0, 0), (0, 1), (1, 1), (1, 0)):
                v = [0, 0, 0]
                v[ax], v[o[0]], v[o[1]] = s, a, b
                cyc.append(idx[tuple(v)])
            faces.append(cyc)
            n = [0, 0, 0]
            n[ax] = 1 if s else -1
            nb.append(n)
    return 8, faces, nb


def _prism():
    faces = [[0, 1, 2, 3, 4, 5], [6, 7, 8, 9, 10, 11]]
    nb = [[0, 0, 1], [0, 0, -1]]
    ring = [[1, 0, 0], [1, 1, 0], [0, 1, 0], [-1, 0, 0], [-1, -1, 0], [0, -1, 0]]
    for i in range(6):
        j = (i + 1) % 6
        faces.append([i, j, 6 + j, 6 + i])
        nb.append(ring[i])
    return 12, faces, nb


def _rhombic():
    cube = list(itertools.product((1, -1), repeat=3))
    axes = [(s * 2 if i == 0 else 0, s * 2 if i == 1 else 0, s * 2 if i == 2 else 0) for i in range(3) for s in (1, -1)]
    vs = cube + axes
    idx = {v: i for i, v in enumerate(vs)}
    # neighbours of fcc with v1, v2, v3 = (0,1,1), (1,0,1), (1,1,0): coordinates solved below
    faces, nb = [], []
    for a, b in ((0, 1), (0, 2), (1, 2)):
        c = 3 - a - b
        for sa, sb in itertools.product((1, -1), repeat=2):
            p = [0, 0, 0]
            q = [0, 0, 0]
            p[a], q[b] = 2 * sa, 2 * sb
            u = [0, 0, 0]
            w = [0, 0, 0]
            for x, sc in ((u, 1), (w, -1)):
                x[a], x[b], x[c] = sa, sb, sc
            faces.append([idx[tuple(p)], idx[tuple(u)], idx[tuple(q)], idx[tuple(w)]])
            r = [0, 0, 0]
            r[a], r[b] = sa, sb
            x, y, z = r
            nb.append([(-x + y + z) // 2, (x - y + z) // 2, (x + y - z) // 2])
    return 14, faces, nb


def _permutohedron():
    perms = list(itertools.permutations(range(4)))
    idx = {p: i for i, p in enumerate(perms)}
    faces, nb = [], []
    hexa = [(0, 1, 2), (1, 0, 2), (1, 2, 0), (2, 1, 0), (2, 0, 1), (0, 2, 1)]
    for k in (1, 2, 3):
        for S in itertools.combinations(range(4), k):
            R = [x for x in range(4) if x not in S]
            if k == 1:
                cyc = [idx[tuple(S) + tuple(R[i] for i in h)] for h in hexa]
            elif k == 3:
                cyc = [idx[tuple(S[i] for i in h) + tuple(R)] for h in hexa]
            else:
                a, b = S
                c, d = R
                cyc = [idx[x] for x in ((a, b, c, d), (b, a, c, d), (b, a, d, c), (a, b, d, c))]
            faces.append(cyc)
            n = [0, 0, 0]
            for x in S:
                if x < 3:
                    n[x] += 1
                else:
                    n = [y - 1 for y in n]
            nb.append(n)
    return 24, faces, nb


SHAPES = {"box": _box, "hexagonal prism": _prism, "rhombic dodecahedron": _rhombic, "truncated octahedron": _permutohedron}
EXTRA = 6


def _stub(h, shape, cell, U, seen):
    nv, faces, nb = SHAPES[shape]()
    lab = h.choose("numbering", 3)
    rot = h.choose("start", 2)
    rev = h.choose("direction", 2)
    M = nv + EXTRA
    if lab == 0:
        label = list(range(nv))
    elif lab == 1:
        label = [M - 1 - i for i in range(nv)]
    else:
        m = next(x for x in (7, 11, 5) if M % x)
        label = [(m * i + 3) % M for i in range(nv)]
    verts = [h.vec(f"v{i}_") for i in range(nv)]
    table = [None] * M
    for i in range(nv):
        table[label[i]] = verts[i]
    free = [k for k in range(M) if table[k] is None]
    for j, k in enumerate(free):
        table[k] = [h.q(1000 + j), h.q(2000 + j), h.q(3000 + j)]

    # wanted neighbour vectors: n . base, base = U^-1 cell  (U integer, unimodular)
    inv = _inv3(U)
    want = []
    for n in nb:
        co = [sum(n[a] * inv[a][b] for a in range(3)) for b in range(3)]
        want.append([co[0] * cell[0][c] + co[1] * cell[1][c] + co[2] * cell[2][c] for c in range(3)])

    class Voronoi:
        def __init__(self, points, *a, **k):
            pts = h.rows(points)
            seen.append(pts)
            pos = {}
            for i, p in enumerate(pts):
                pos.setdefault(h.ident(p), i)
            h.check(len(pos) == len(pts), "no lattice point is given twice")
            o = pos.get(h.ident([h.q(0)] * 3))
            h.check(o is not None, "the origin is one of the points")
            if o is None:
                o = 0
            nbi = []
            for w in want:
                i = pos.get(h.ident(w))
                h.check(i is not None, "every neighbour that bounds the zone is one of the points")
                nbi.append(i if i is not None else (o + 1) % len(pts))
            far = [i for i in range(len(pts)) if i != o and i not in nbi][:4] or [i for i in range(len(pts)) if i != o]
            rv, rp = [], []

            def add(c, p):
                rv.append(list(c))
                rp.append(list(p))

            # unrelated ridges that share vertices with the zone
            add([label[0], label[2], free[0]], [far[0], far[-1]])
            for fi, cyc in enumerate(faces):
                c = [label[x] for x in cyc]
                s = (rot * (fi + 1)) % len(c)
                c = c[s:] + c[:s]
                if rev:
                    c = c[::-1]
                add(c, [o, nbi[fi]] if (fi + rev) % 2 == 0 else [nbi[fi], o])
                if fi % 3 == 0:
                    add([-1, label[cyc[0]], free[1], label[cyc[2]]], [nbi[fi], far[0]])
                if fi % 3 == 1:
                    add([free[2], label[cyc[1]], free[3]], [far[-1], nbi[fi]])
            add([-1, free[4], free[5]], [far[0], far[-1]])
            self.points = points
            self.vertices = h.array(table)
            self.ridge_vertices = rv
            self.ridge_points = h.np.array(rp)
            self.ridge_dict = {tuple(p): v for p, v in zip(rp, rv)}
            self.regions = [sorted(set(label))]
            self.point_region = [0 if i == o else -1 for i in range(len(pts))]

    h.stub_voronoi(Voronoi)
    edges = set()
    for cyc in faces:
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            edges.add(frozenset((a, b)))
    return verts, edges


def _inv3(U):
    def minor(i, j):
        r = [k for k in range(3) if k != i]
        c = [k for k in range(3) if k != j]
        return U[r[0]][c[0]] * U[r[1]][c[1]] - U[r[0]][c[1]] * U[r[1]][c[0]]

    det = sum((-1) ** j * U[0][j] * minor(0, j) for j in range(3))
    assert det in (1, -1)
    return [[det * (-1) ** (i + j) * minor(j, i) for j in range(3)] for i in range(3)]


def _compare(h, res, verts, edges, what):
    v, e = res
    v, e = h.rows(v), [[int(x) for x in r] for r in h.rows(e)]
    key = {h.ident(x): i for i, x in enumerate(verts)}
    if len(key) < len(verts):
        return  # replay with coinciding vertices decides nothing
    ids = [key.get(h.ident(x)) for x in v]
    h.check(len(v) == len(verts), what + ": number of vertices")
    h.check(None not in ids, what + ": every reported vertex is a vertex of the zone")
    h.check(len(set(ids)) == len(ids), what + ": no vertex is repeated")
    ok = all(len(r) == 2 and 0 <= r[0] < len(v) and 0 <= r[1] < len(v) and r[0] != r[1] for r in e)
    h.check(ok, what + ": every edge joins two distinct reported vertices")
    if not ok:
        return
    got = [frozenset((ids[a], ids[b])) for a, b in e]
    h.check(len(set(got)) == len(got), what + ": no edge is repeated")
    h.check(set(got) == edges, what + ": the edges are the sides of the faces")


US = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    [[1, 4, 0], [0, 1, 0], [0, -5, 1]],
    [[1, 0, 0], [-7, 1, 0], [2, 0, -1]],
    [[1, 1, 0], [1, 2, 3], [0, 1, 4]],
    [[1, 0, 0], [12, 1, 0], [0, 0, 1]],
]


def zone(shape, k, bz):
    def f(h):
        cell = h.mat("c")
        h.assume(h.lt(h.q("1e-3"), h.det(cell)), base=True)
        if k % 2:
            cell = h.array(cell)
        seen = []
        c0 = h.snapshot(cell)
        if bz:
            rec = h.rows(h.w.cell.get_reciprocal(cell))
            verts, edges = _stub(h, shape, rec, US[k], seen)
            res = h.w.cell.get_brillouin_zone(cell)
        else:
            verts, edges = _stub(h, shape, cell, US[k], seen)
            res = h.w.cell.get_wigner_seitz_cell(cell)
        h.eqv(cell, c0, "argument unchanged")
        _compare(h, res, verts, edges, shape)

    return f


def lattice_points(relative, flat):
    def f(h):
        cell = h.mat("c")
        r = [h.integer(f"r{i}", 0, 2) for i in range(3)]
        r = [int(x) for x in r]
        kw = {}
        if relative:
            kw["relative"] = True
        if not flat:
            kw["flat"] = False
        c0 = h.snapshot(cell)
        p = h.w.cell.get_lattice_points(cell, range=tuple(r), **kw)
        h.eqv(cell, c0, "argument unchanged")
        shape = tuple(2 * x + 1 for x in r)
        n = shape[0] * shape[1] * shape[2]
        h.check(tuple(p.shape) == ((n, 3) if flat else shape + (3,)), "shape of the result")
        want = []
        for i in range(-r[0], r[0] + 1):
            for j in range(-r[1], r[1] + 1):
                for k in range(-r[2], r[2] + 1):
                    if relative:
                        w = [i, j, k]
                    else:
                        w = [i * cell[0][c] + j * cell[1][c] + k * cell[2][c] for c in range(3)]
                    want.append(w)
                    if not flat:
                        h.eqv(p[i + r[0]][j + r[1]][k + r[2]], w, "point (i, j, k) is i a1 + j a2 + k a3")
        if flat:
            got = sorted(str(h.ident(x)) for x in h.rows(p))
            exp = sorted(str(h.ident(x)) for x in want)
            if h.symbolic or len(set(exp)) == len(exp):
                h.check(got == exp, "each integer combination once")

    return f


def default_range(h):
    cell = h.mat("c")
    p = h.rows(h.w.cell.get_lattice_points(cell))
    q = h.rows(h.w.cell.get_lattice_points(cell, range=(1, 1, 1), relative=False, flat=True))
    h.check(len(p) == 27, "27 points by default")
    h.eqv(p, q, "defaults")


def jobs(tier):
    out = [Job("default_range", default_range, wall=60, bounds="any cell")]
    for rel in (0, 1):
        for fl in (0, 1):
            out.append(Job(f"points_{'rel' if rel else 'abs'}_{'flat' if fl else 'grid'}", lattice_points(rel, fl), wall=150, bounds="any cell, ranges 0..2 in each direction"))
    sh = list(SHAPES)
    for i, s in enumerate(sh):
        ks = range(len(US) - 1) if tier == "thorough" else [i, 4] if i < 3 else [2, 3]
        for k in ks:
            out.append(Job(f"wigner_seitz_{s.replace(' ', '_')}_{k}", zone(s, k, False), wall=250, bounds=f"any cell with det > 1e-3 whose reduced basis is U^-1 cell, U = {US[k]}; zone = {s}, 3 numberings x 2 starts x 2 directions"))
        for k in (range(len(US) - 1) if tier == "thorough" else [(i + 1) % 5]):
            out.append(Job(f"brillouin_{s.replace(' ', '_')}_{k}", zone(s, k, True), wall=250, bounds=f"as wigner_seitz, zone of the reciprocal cell, U = {US[k]}"))
    # known finding: at 12 cell vectors the neighbours are outside of the grid the zone is computed from
    out.append(Job("very_skewed", zone("box", len(US) - 1, False), wall=150, bounds=f"any cell whose reduced basis is U^-1 cell, U = {US[-1]}; zone = box"))
    return out
