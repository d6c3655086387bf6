"""Constructors of the Setyawan-Curtarolo cells and sc_get_example."""

from symx.job import Job

ASSUMPTIONS = [
    "RHL: alpha < 120 degrees (no rhombohedron otherwise); TRI: positive Gram determinant > 1e-3 besides the documented inequalities",
]


def _lens(h, names):
    return [h.real(n, pos=True) for n in names]


def _mat(h, got, want, label):
    m = h.rows(got)
    h.check(len(m) == 3 and all(len(r) == 3 for r in m), label + ": shape")
    for i in range(3):
        for j in range(3):
            h.eq(m[i][j], want[i][j], f"{label}: element {i + 1}{j + 1}")


def _call(h, fn, names, vals):
    if h.choose("call", 2):
        return fn(**dict(zip(names, vals)))
    return fn(*vals)


def cub(h):
    (a,) = _lens(h, "a")
    _mat(h, _call(h, h.w.cell.SC_CUB, "a", [a]), [[a, 0, 0], [0, a, 0], [0, 0, a]], "CUB")


def fcc(h):
    (a,) = _lens(h, "a")
    t = a / 2
    _mat(h, _call(h, h.w.cell.SC_FCC, "a", [a]), [[0, t, t], [t, 0, t], [t, t, 0]], "FCC")


def bcc(h):
    (a,) = _lens(h, "a")
    t = a / 2
    _mat(h, _call(h, h.w.cell.SC_BCC, "a", [a]), [[-t, t, t], [t, -t, t], [t, t, -t]], "BCC")


def tet(h):
    a, c = _lens(h, "ac")
    _mat(h, _call(h, h.w.cell.SC_TET, "ac", [a, c]), [[a, 0, 0], [0, a, 0], [0, 0, c]], "TET")


def bct(h):
    a, c = _lens(h, "ac")
    x, z = a / 2, c / 2
    _mat(h, _call(h, h.w.cell.SC_BCT, "ac", [a, c]), [[-x, x, z], [x, -x, z], [x, x, -z]], "BCT")


def orc(h):
    a, b, c = v = _lens(h, "abc")
    _mat(h, _call(h, h.w.cell.SC_ORC, "abc", v), [[a, 0, 0], [0, b, 0], [0, 0, c]], "ORC")


def orcf(h):
    v = _lens(h, "abc")
    x, y, z = (q / 2 for q in v)
    _mat(h, _call(h, h.w.cell.SC_ORCF, "abc", v), [[0, y, z], [x, 0, z], [x, y, 0]], "ORCF")


def orci(h):
    v = _lens(h, "abc")
    x, y, z = (q / 2 for q in v)
    _mat(h, _call(h, h.w.cell.SC_ORCI, "abc", v), [[-x, y, z], [x, -y, z], [x, y, -z]], "ORCI")


def orcc(h):
    v = _lens(h, "abc")
    x, y, z = v[0] / 2, v[1] / 2, v[2]
    _mat(h, _call(h, h.w.cell.SC_ORCC, "abc", v), [[x, -y, 0], [x, y, 0], [0, 0, z]], "ORCC")


def hexa(h):
    a, c = _lens(h, "ac")
    m = h.rows(_call(h, h.w.cell.SC_HEX, "ac", [a, c]))
    s = h.sqrt(h.q(3)) * a / 2
    _mat(h, m, [[a / 2, -s, 0], [a / 2, s, 0], [0, 0, c]], "HEX")
    h.eq(h.dot(m[0], m[1]), -a * a / 2, "HEX: angle of 120 degrees")


def rhl(h):
    (a,) = _lens(h, "a")
    half = h.angle("half")
    t = h.PI / 180
    ch, sh = h.cos(half * t), h.sin(half * t)
    h.assume(h.lt(h.q("51/100"), ch), base=True)  # alpha < 118.7
    alpha = 2 * half
    ca = 2 * ch * ch - 1
    m = h.rows(_call(h, h.w.cell.SC_RHL, ("a", "alpha"), [a, alpha]))
    for i in range(3):
        h.eq(h.dot(m[i], m[i]), a * a, "RHL: equal lengths")
        for j in range(i):
            h.eq(h.dot(m[i], m[j]), a * a * ca, "RHL: equal angles")
    _mat(h, [m[0], m[1], [m[2][0], m[2][1], m[2][2]]],
         [[a * ch, -a * sh, 0], [a * ch, a * sh, 0], [h.div(a * ca, ch), 0, m[2][2]]], "RHL")
    h.check(h.lt(0, m[2][2]), "RHL: third vector points up")


def _mono(h):
    v = _lens(h, "abc")
    al = h.angle("alpha")
    t = h.PI / 180
    return v, al, h.cos(al * t), h.sin(al * t)


def mcl(h):
    (a, b, c), al, ca, sa = _mono(h)
    m = _call(h, h.w.cell.SC_MCL, ("a", "b", "c", "alpha"), [a, b, c, al])
    _mat(h, m, [[a, 0, 0], [0, b, 0], [0, c * ca, c * sa]], "MCL")


def mclc(h):
    (a, b, c), al, ca, sa = _mono(h)
    m = _call(h, h.w.cell.SC_MCLC, ("a", "b", "c", "alpha"), [a, b, c, al])
    _mat(h, m, [[a / 2, b / 2, 0], [-a / 2, b / 2, 0], [0, c * ca, c * sa]], "MCLC")


def _tri(h):
    a, b, c = _lens(h, "abc")
    lo = h.q("1/100")
    for x in (a, b, c):
        h.assume(h.lt(lo, x), base=True)
    al, be, ga = (h.angle(n) for n in ("alpha", "beta", "gamma"))
    t = h.PI / 180
    ca, cb, cg = h.cos(al * t), h.cos(be * t), h.cos(ga * t)
    g = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
    h.assume(h.lt(h.q("1/1000"), g), base=True)
    at = h.q("1e-3")
    for x, y, z in ((al, be, ga), (al, ga, be), (be, ga, al)):
        h.assume(h.lt(z + at, x + y), base=True)
        h.assume(h.lt(x + y + z, 360 - at), base=True)
    for x in (al, be, ga):
        h.assume(h.And(h.lt(at, x), h.lt(x, 180 - at)), base=True)
    G = [[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]]
    return (a, b, c, al, be, ga), G


def tri(h):
    p, G = _tri(h)
    m = h.rows(_call(h, h.w.cell.SC_TRI, ("a", "b", "c", "alpha", "beta", "gamma"), p))
    for i in range(3):
        for j in range(i + 1):
            h.eq(h.dot(m[i], m[j]), G[i][j], "TRI: metric")
    for i, j in ((0, 1), (0, 2), (1, 2)):
        h.eq(m[i][j], 0, "TRI: orientation")
    h.check(h.And(h.lt(0, m[0][0]), h.lt(0, m[1][1]), h.lt(0, m[2][2])), "TRI: positive diagonal")


def tri_reciprocal(h):
    p, G = _tri(h)
    b = h.rows(h.w.cell.from_params(*p))
    m = h.rows(h.w.cell.SC_TRI(*p, input_reciprocal=True))
    for i in range(3):
        for j in range(3):
            h.eq(h.dot(m[i], b[j]), 2 * h.PI if i == j else 0, "TRI: parameters are those of the reciprocal cell")


def tri_rejects(h):
    """the constructor rejects what is no parallelepiped"""
    p = [h.real(n) for n in ("a", "b", "c", "al", "be", "ga")]
    a, b, c, al, be, ga = p
    bad = h.Or(h.le(a, 0), h.le(b, 0), h.le(c, 0), h.le(al, 0), h.le(be, 0), h.le(ga, 0), h.le(al + be, ga),
               h.le(al + ga, be), h.le(be + ga, al), h.le(360, al + be + ga))
    h.assume(bad)
    r, e = h.call(h.w.cell.SC_TRI, *p)
    h.check(e is not None and isinstance(e, ValueError), "TRI: inadmissible parameters are rejected")


VARIATIONS = (
    "CUB FCC BCC TET BCT1 BCT2 ORC ORCF1 ORCF2 ORCF3 ORCI ORCC HEX RHL1 RHL2 MCL MCLC1 MCLC2 MCLC3 MCLC4 MCLC5 "
    "TRI1a TRI2a TRI1b TRI2b"
).split()
LATTICES = "CUB FCC BCC TET BCT ORC ORCF ORCI ORCC HEX RHL MCL MCLC TRI".split()
OTHERS = ["tri1", "tri2", "tria", "trib"]  # undocumented spellings, left open


def _names(n):
    def f(h):
        s = h.string("s", n)
        low = s.lower()
        ok = h.Or(False, *[low == h.text(x.lower()) for x in VARIATIONS + LATTICES if len(x) == n])
        free = h.Or(False, *[low == h.text(x) for x in OTHERS if len(x) == n])
        r, e = h.call(h.w.cell.sc_get_example, s)
        if e is None:
            h.check(h.Or(ok, free), "unknown names are an error")
            m = h.rows(r)
            h.check(len(m) == 3 and all(len(x) == 3 for x in m), "an example is a cell")
            h.check(h.Not(h.eqb(h.det(m), 0)), "an example is not flat")
        else:
            h.check(isinstance(e, ValueError), "unknown name is a ValueError")
            h.check(h.Not(ok), "every documented name has an example, whatever the case")

    return f


def no_name(h):
    for x in (None, 1, ["CUB"], 2.5):
        r, e = h.call(h.w.cell.sc_get_example, x)
        h.check(e is not None and isinstance(e, ValueError), "something that is not a name is a ValueError")


HPKOT = "cP1 cP2 cF1 cF2 cI1 tP1 tI1 tI2 oP1 oF1 oF2 oF3 oI1 oI2 oI3 oC1 oC2 oA1 oA2 hP1 hP2 hR1 hR2 mP1 mC1 mC2 mC3 aP2 aP3".split()
SHORT = {**{x[:2]: x[:2] + "1" for x in HPKOT}, "aP": "aP2"}
NO_INVERSION = ("oF2", "oI2", "oA1", "oA2")


def _hpkot_names(n):
    """any other symbol is an error"""

    def f(h):
        s = h.string("s", n)
        h.assume(h.And(*[h.Not(s == h.text(x)) for x in HPKOT + list(SHORT) if len(x) == n]))
        r, e = h.call(h.w.crystal.hpkot_get_example, s, h.boolean_choice("inversion"))
        h.check(e is not None and isinstance(e, ValueError), "unknown symbols are a ValueError")

    return f


def _example(first):
    """every documented symbol has an example; it has an inversion centre exactly when asked for"""

    def f(h):
        names = [x for x in HPKOT + list(SHORT) if x[0] == first]
        name = names[h.choose("name", len(names))]
        how = h.choose("with_inversion", 3)
        args = [(name, True), (name, False), (name,)][how]
        r, e = h.call(h.w.crystal.hpkot_get_example, *args)
        if how == 0 and SHORT.get(name, name) in NO_INVERSION:
            h.check(e is not None and isinstance(e, ValueError), "examples with inversion that are not there are a ValueError")
            return
        h.check(e is None, f"{name}: there is an example")
        if e is not None:
            return
        cell, atoms = r
        m = h.rows(cell)
        h.check(h.lt(h.q("1/10"), h.abs(h.det(m))), f"{name}: the cell is not flat")
        if name in SHORT:
            q = h.w.crystal.hpkot_get_example(SHORT[name], *args[1:])
            h.eqv(q[0], cell, f"{name}: the example of the first variation")
            h.check(list(q[1]["names"]) == list(atoms["names"]), f"{name}: the atoms of the first variation")
            return
        if h.w.crystal.validate_atoms(atoms, required_keys=["names", "positions"], raise_errors=False) is not True:
            h.fail(f"{name}: atoms are valid")
            return
        _family(h, name, m)
        _centre(h, name, atoms, how == 0)

    return f


def _family(h, name, m):
    """the conventional cell has the shape of the crystal family (in some order of the vectors), up to 0.1 %"""
    eps = h.q("1/1000")
    g = [[h.dot(m[i], m[j]) for j in range(3)] for i in range(3)]

    def same(x, y, unit):
        return h.le(h.abs(x - y), eps * unit)

    def right(i, j):
        return h.And(h.le(g[i][j] * g[i][j], eps * eps * g[i][i] * g[j][j]))

    def equal(i, j):
        return same(g[i][i], g[j][j], g[i][i])

    box = h.And(right(0, 1), right(0, 2), right(1, 2))
    turns = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
    kind = name[0]
    if kind == "a":
        return
    if kind == "m":
        ok = h.Or(*[h.And(right(k, i), right(k, j)) for i, j, k in turns])
    elif kind == "o":
        ok = box
    elif kind == "t":
        ok = h.And(box, h.Or(*[equal(i, j) for i, j, k in turns]))
    elif kind == "c":
        ok = h.And(box, equal(0, 1), equal(1, 2))
    else:
        ok = h.Or(*[h.And(equal(i, j), right(i, k), right(j, k), same(2 * g[i][j], -g[i][i], g[i][i])) for i, j, k in turns])
        if name[:2] == "hR":  # the rhombohedral cell is as good
            ok = h.Or(ok, h.And(equal(0, 1), equal(1, 2), *[same(g[0][1], g[i][2], g[0][0]) for i in (0, 1)]))
    h.check(ok, f"{name}: the cell has the shape of its crystal family")


def _centre(h, name, atoms, wanted):
    """inversion centre of the atoms, decided for every position of the centre"""
    pos = [list(p) for p in h.rows(atoms["positions"])]
    kinds = list(atoms["names"])
    rare = min(sorted(set(kinds)), key=kinds.count)
    group = [i for i, k in enumerate(kinds) if k == rare]
    by = {k: [i for i, q in enumerate(kinds) if q == k] for k in set(kinds)}
    tol = h.q("1/5000")
    # twice the centre is r_1 + r_j up to tol for some atom j of the rarest species
    d = [0, 0, 0] if wanted else [h.real(f"d{i}") for i in range(3)]
    h.assume(h.And(*[h.And(h.le(-tol, x), h.le(x, tol)) for x in d]))

    def near(q, c):
        r = q - round(q)
        return None if abs(r) > 3 * tol else h.And(h.le(r - d[c], tol), h.le(d[c] - r, tol))

    def centre(j):
        t = [pos[group[0]][c] + pos[j][c] for c in range(3)]
        out = []
        for i in range(len(pos)):
            sides = []
            for k in by[kinds[i]]:
                x = [near(pos[i][c] + pos[k][c] - t[c], c) for c in range(3)]
                if None not in x:
                    sides.append(h.And(*x))
            if not sides:
                return False
            out.append(h.Or(False, *sides))
        return h.And(*out)

    found = h.Or(False, *[centre(j) for j in group])
    h.check(found if wanted else h.Not(found), f"{name}: inversion centre " + ("as asked for" if wanted else "only when asked for"))


def jobs(tier):
    b = "all positive lengths, all angles between 0 and 180"
    r = [Job(f.__name__, f, wall=100, bounds=b) for f in (cub, fcc, bcc, tet, bct, orc, orcf, orci, orcc, hexa, rhl, mcl, mclc, tri, tri_reciprocal, tri_rejects)]
    for n in (2, 3, 4, 5, 6):
        r.append(Job(f"example_names_{n}", _names(n), wall=100, bounds=f"all names of {n} printable characters"))
    for n in (1, 2, 3, 4):
        r.append(Job(f"hpkot_names_{n}", _hpkot_names(n), wall=100, bounds=f"all names of {n} printable characters"))
    for k in "chtoma":
        r.append(Job(f"hpkot_examples_{k}", _example(k), wall=200, bounds="every documented symbol; every position of the inversion centre"))
    r.append(Job("no_name", no_name, wall=30, bounds="four values"))
    return r
