"""sc_get_variation and hpkot_get_extended_bl_symbol against the published conditions, written in the metric of the standardised cell."""

from symx.job import Job
from checks import crystals
from checks.c10 import niggli_stub
from checks.c12 import BY_TYPE

ASSUMPTIONS = [
    "the symmetry library's answer is the standardised cell of the Bravais lattice type with arbitrary parameters (lengths from 1/10), in a fixed rational orientation",
    "quantities compared with a tolerance are either further than a margin from the boundary or exactly on it (margins: 1/1000 in cosines of angles; exact tolerances for lengths)",
    "aP: reciprocal cell with free metric; HPKOT aP: the Niggli reduction (property C05) is replaced by an arbitrary basis change",
    "boundaries between extended symbols given by irrational expressions (hR, mC, oF) may be assigned to either side",
]

SC_NAMES = {"cP": "CUB", "cF": "FCC", "cI": "BCC", "tP": "TET", "oP": "ORC", "oI": "ORCI", "oA": "ORCC", "oC": "ORCC", "hP": "HEX", "mP": "MCL"}


def margin(h, x, scale, m="1/1000"):
    """x is zero or at least m * scale away from it"""
    h.assume(h.Or(h.eqb(x, 0), h.le(h.q(m) * scale, h.abs(x))), base=True)


def sc_spec(h, t, p, eps):
    """list of (condition, answer); answer None = an error"""
    if t in SC_NAMES:
        return [(True, SC_NAMES[t])]
    if t == "tI":
        a, c = p["a"], p["c"]
        return [(h.lt(c, a), "BCT1"), (h.lt(a, c), "BCT2"), (h.eqb(a, c), None)]
    if t == "oF":
        a, b, c = p["a"], p["b"], p["c"]
        tie = h.Or(*[h.le(h.abs(u - v), eps) for u, v in ((a, b), (b, c), (a, c))])
        ia, ib, ic = (h.div(1, x * x) for x in (a, b, c))
        e = [ia - ib - ic, ib - ia - ic, ic - ia - ib]
        one = h.Or(*[h.lt(eps, x) for x in e])
        two = h.And(*[h.lt(x, -eps) for x in e])
        free = h.Not(tie)
        return [(tie, None), (h.And(free, one), "ORCF1"), (h.And(free, two), "ORCF2"), (h.And(free, h.Not(one), h.Not(two)), "ORCF3")]
    if t == "hR":
        A, C = p["a"] * p["a"], p["c"] * p["c"]
        x = 2 * C - 3 * A
        margin(h, x, A + C)
        return [(h.lt(0, x), "RHL1"), (h.lt(x, 0), "RHL2"), (h.eqb(x, 0), None)]
    if t == "mC":
        a, b, c, s = p["a"], p["b"], p["c"], p["sin"]
        k = b * b - a * a * s * s
        margin(h, k, b * b + a * a * s * s)
        e = h.div(a * h.abs(p["cos"]), c) + h.div(a * a * s * s, b * b) - 1
        less = h.lt(0, k)
        return [
            (h.lt(k, 0), "MCLC1"), (h.eqb(k, 0), "MCLC2"),
            (h.And(less, h.lt(e, -eps)), "MCLC3"), (h.And(less, h.lt(eps, e)), "MCLC5"), (h.And(less, h.le(h.abs(e), eps)), "MCLC4"),
        ]
    if t == "aP":
        x, y, z = p["x"], p["y"], p["z"]
        for q in (x, y, z):
            margin(h, q, 1)
        # the sign of the product of the cosines does not depend on the choice of the signs of the vectors
        q = x * y * z
        zeros = [h.eqb(u, 0) for u in (x, y, z)]
        # two right angles: a monoclinic lattice
        h.assume(h.Not(h.Or(h.And(zeros[0], zeros[1]), h.And(zeros[0], zeros[2]), h.And(zeros[1], zeros[2]))), base=True)
        return [(h.lt(q, 0), "TRI1a"), (h.lt(0, q), "TRI1b"), (h.eqb(q, 0), ("TRI2a", "TRI2b"))]
    raise ValueError(t)


def hpkot_spec(h, t, p, n):
    if t in ("cI", "tP", "oP", "mP"):
        return [(True, t + "1")]
    if t in ("cP", "cF"):
        return [(True, t + ("1" if n < 207 else "2"))]
    if t == "hP":
        return [(True, "hP1" if n in (143, 144, 145, 146, 147, 148, 149, 151, 153, 157, 159, 160, 161, 162, 163) else "hP2")]
    if t == "tI":
        return [(h.le(p["c"], p["a"]), "tI1"), (h.lt(p["a"], p["c"]), "tI2")]
    if t == "oF":
        ia, ib, ic = (h.div(1, p[k] * p[k]) for k in "abc")
        x, y = ia - ib - ic, ic - ia - ib
        return [(h.lt(0, x), "oF1"), (h.eqb(x, 0), ("oF1", "oF3")), (h.lt(0, y), "oF2"), (h.eqb(y, 0), ("oF2", "oF3")), (h.And(h.lt(x, 0), h.lt(y, 0)), "oF3")]
    if t == "oI":
        a, b, c = p["a"], p["b"], p["c"]
        one = h.And(h.le(a, c), h.le(b, c))
        two = h.And(h.le(b, a), h.le(c, a))
        return [(one, "oI1"), (h.And(two, h.Not(one)), "oI2"), (h.Not(h.Or(one, two)), "oI3")]
    if t == "oC":
        return [(h.le(p["a"], p["b"]), "oC1"), (h.lt(p["b"], p["a"]), "oC2")]
    if t == "oA":
        return [(h.le(p["b"], p["c"]), "oA1"), (h.lt(p["c"], p["b"]), "oA2")]
    if t == "hR":
        x = 3 * p["a"] * p["a"] - 2 * p["c"] * p["c"]
        return [(h.lt(x, 0), "hR1"), (h.lt(0, x), "hR2"), (h.eqb(x, 0), ("hR1", "hR2"))]
    if t == "mC":
        a, b, c, s = p["a"], p["b"], p["c"], p["sin"]
        k = b - a * s
        e = -h.div(a * p["cos"], c) + h.div(a * a * s * s, b * b) - 1
        more = h.lt(0, k)
        return [
            (h.lt(k, 0), "mC1"), (h.And(more, h.lt(e, 0)), "mC2"), (h.And(more, h.lt(0, e)), "mC3"),
            (h.eqb(k, 0), ("mC1", "mC2", "mC3")), (h.And(more, h.eqb(e, 0)), ("mC2", "mC3")),
        ]
    if t == "aP":
        # invariant under the choice of signs; a right angle counts as obtuse
        x, y, z = p["x"], p["y"], p["z"]
        q = x * y * z
        return [(h.lt(0, q), "aP3"), (h.le(q, 0), "aP2")]
    raise ValueError(t)


def _decide(h, spec, got, exc, what):
    """the conditions cover every lattice and exclude each other, so the condition of the given answer has to hold"""
    if exc is not None:
        h.check(isinstance(exc, ValueError) and any(a is None for _, a in spec), f"{what}: an error (ValueError) only for an undefined case")
        h.check(h.Or(*[c for c, a in spec if a is None]) if any(a is None for _, a in spec) else False, f"{what}: an error only under the condition of the undefined case")
    else:
        mine = [c for c, a in spec if a is not None and got in (a if isinstance(a, tuple) else (a,))]
        h.check(bool(mine), f"{what}: the answer is one of the published names")
        if mine:
            h.check(h.Or(*mine), f"{what}: {got} under its published condition")


def _mono(h, p, right=False):
    h.assume(h.lt(h.q("1/50"), p["sin"]), base=True)
    h.assume(h.lt(h.q("1/1000"), h.abs(p["cos"])), base=True)
    for k in "abc":
        h.assume(h.le(p[k], 50), base=True)


def _crystal(h, t, rot, numbers, conv, **kw):
    n = numbers[h.choose("number", len(numbers))] if len(numbers) > 1 else numbers[0]
    s = crystals.Std(h, t)
    if t in ("mC", "mP"):
        _mono(h, s.p)
    if t == "aP" and conv == "HPKOT":
        niggli_stub(h, s)
    pos, types = crystals.lattice_only(h, t)
    return n, s, pos, types


def _sc(t, rot, numbers, tol=None):
    def f(h):
        n, s, pos, types = _crystal(h, t, rot, numbers, "SC")
        eps = h.q("1e-5") if tol is None else h.q(tol)
        spec = sc_spec(h, t, s.p, eps)
        kw = {} if tol is None else {"spglib_symprec": h.q(tol), "spglib_angle_tolerance": h.q("1/100")}
        cell, atoms, data, _ = crystals.dataset(h, t, n, s.rows, pos, types, rot=rot, **kw)
        got, exc = h.call(h.w.crystal.sc_get_variation, cell, atoms, data)
        _decide(h, spec, got, exc, "SC variation")

    return f


def _hpkot(t, rot, numbers):
    def f(h):
        n, s, pos, types = _crystal(h, t, rot, numbers, "HPKOT")
        spec = hpkot_spec(h, t, s.p, n)
        cell, atoms, data, _ = crystals.dataset(h, t, n, s.rows, pos, types, rot=rot)
        got, exc = h.call(h.w.crystal.hpkot_get_extended_bl_symbol, cell, atoms, data)
        _decide(h, spec, got, exc, "HPKOT symbol")

    return f


def jobs(tier):
    r = []
    for i, t in enumerate(crystals.TYPES):
        nums = BY_TYPE[t]
        few = nums if t not in ("mC", "aP", "oF") else [nums[0]]
        wall = 400 if t == "aP" else 300
        r.append(Job(f"sc_{t}", _sc(t, 0 if t == "aP" else i % 3, few), wall=wall, bounds=f"space groups {few[0]}..{few[-1]} of the type, all lattice parameters"))
        r.append(Job(f"hpkot_{t}", _hpkot(t, 0 if t == "aP" else (i + 1) % 3, few), wall=wall, bounds=f"space groups {few[0]}..{few[-1]} of the type, all lattice parameters"))
        if t in ("oF", "mC", "hR"):
            r.append(Job(f"sc_tolerance_{t}", _sc(t, 0, nums[-1:], tol="1/100"), wall=wall, bounds="tolerances 1/100, all lattice parameters"))
    return r
