"""get_spglib_types, SpglibData (spglib as a nondeterministic stub), validate_spglib_data."""

from symx.job import Job
from checks.c15 import ELEMENTS

ASSUMPTIONS = [
    "spglib returns any dataset whatever (its own correctness is not part of the property)",
    "'different' means by more than 1e-3 (1 + |value|), 'the same' means identical: differences in between are left to the tolerance",
]

# first and last space groups of each crystal family
FAMILY = [("a", 1, 2), ("m", 3, 15), ("o", 16, 74), ("t", 75, 142), ("h", 143, 194), ("c", 195, 230)]


def _consistent(h, t, same, n, label):
    h.check(len(t) == n, f"{label}: one type per atom")
    if len(t) != n:
        return
    for i in range(n):
        h.check(h.le(1, t[i]), f"{label}: types are positive")
        for j in range(i):
            h.check(h.Iff(t[i] == t[j], same(i, j)), f"{label}: equal types exactly for equal atoms")


def _from_types(n):
    def f(h):
        t = [h.integer(f"t{i}", 1, 1000) for i in range(n)]
        atoms = {"spglib_types": list(t)}
        k = h.choose("other keys", 4)
        if k & 1:
            atoms["species"] = ["Cr"] * n
        if k & 2:
            atoms["names"] = [f"Br{i}" for i in range(n)]
        r = h.w.get_spglib_types(atoms)
        h.check(len(r) == n, "one type per atom")
        for i in range(n):
            h.check(r[i] == t[i], "given types are used as they are")

    return f


def _from_species(n, where, lens):
    def f(h):
        sp = []
        for i in range(n):
            if i in where:
                k = lens[h.choose(f"len{i}", len(lens))]
                s = h.string(f"s{i}", k)
                h.assume(h.Or(*[s == h.text(x) for x in ["X"] + ELEMENTS if len(x) == k]), base=True)
            else:
                s = h.text(["Cr", "Br"][i % 2])
            sp.append(s)
        atoms = {"species": list(sp)}
        if h.choose("names", 2):
            atoms["names"] = ["Fe"] * n  # would make all atoms alike
        r = h.w.get_spglib_types(atoms)
        _consistent(h, r, lambda i, j: sp[i] == sp[j], n, "types from species")
        for i in range(n):
            h.check(atoms["species"][i] == sp[i], "species unchanged")

    return f


def _from_names(n):
    """names of one character: either a species (in any case) or its own kind"""

    def f(h):
        nm = [h.string(f"n{i}", 1) for i in range(n)]
        r = h.w.get_spglib_types({"names": list(nm)})
        one = [e for e in ELEMENTS if len(e) == 1]

        def same(i, j):
            li, lj = nm[i].lower(), nm[j].lower()
            return h.Or(nm[i] == nm[j], *[h.And(li == h.text(e.lower()), lj == h.text(e.lower())) for e in one])

        _consistent(h, r, same, n, "types from names")

    return f


def _from_names_species(n):
    """names with a known species, decorated with any non-letters"""
    sp = ["Cr", "Br", "S", "O", "Fe"]

    def f(h):
        nm, el = [], []
        for i in range(n):
            e = sp[h.choose(f"e{i}", len(sp) if i < 2 else 2)]
            el.append(e)
            nm.append(h.text([e, e.lower()][i % 2]) + h.string(f"d{i}", 1 + i % 2, 33, 64))
        r = h.w.get_spglib_types({"names": list(nm)})
        _consistent(h, r, lambda i, j: el[i] == el[j], n, "types from decorated names")

    return f


def _from_unknown(n, where):
    """names without any species: the name itself decides"""

    def f(h):
        nm = []
        for i in range(n):
            if i in where:
                nm.append(h.string(f"n{i}", 1 + h.choose(f"l{i}", 2), 33, 64))
            else:
                nm.append(h.text(f"#{i:03d}"))
        r = h.w.get_spglib_types({"names": list(nm)})
        _consistent(h, r, lambda i, j: nm[i] == nm[j], n, "types from unknown names")

    return f


def no_identifier(h):
    atoms = {"positions": [h.vec("p")]}
    if h.choose("extra", 2):
        atoms["charges"] = [h.real("q")]
    r, e = h.call(h.w.get_spglib_types, atoms)
    h.check(e is not None and isinstance(e, ValueError), "no types, species or names is an error")


class _DS:
    pass


def _data(h, n=2, tag="", as_dict=False, symprec=None):
    """an SpglibData whose spglib answers are arbitrary"""
    cell = h.mat("c" + tag)
    pos = [h.vec(f"p{tag}{i}_") for i in range(n)]
    types = [h.integer(f"t{tag}{i}", 1, 1000) for i in range(n)]
    return cell, pos, types


def _stub(h, answer, calls):
    def dataset(c, **kw):
        calls.append(("dataset", c, kw))
        return answer["dataset"]

    def primitive(c, **kw):
        calls.append(("primitive", c, kw))
        return answer["primitive"]

    h.stub_spglib(get_symmetry_dataset=dataset, find_primitive=primitive, __version__="stub")


def _make(h, cell, pos, types, number=1, as_dict=False, make=None, **kw):
    n = len(pos)
    L, R = h.mat("L"), h.mat("R")
    std_pos = h.array([h.vec(f"sp{i}_") for i in range(n + 1)])
    prim = h.mat("P")
    prim_pos = h.array([h.vec("pp0_")])
    d = dict(
        number=number, std_lattice=h.array(L), std_rotation_matrix=h.array(R), std_positions=std_pos,
        std_types=[5] * (n + 1),
    )
    if not as_dict:
        o = _DS()
        o.__dict__.update(d)
    else:
        o = d
    calls = []
    _stub(h, {"dataset": o, "primitive": (h.array(prim), prim_pos, [7])}, calls)
    atoms = {"positions": pos, "spglib_types": types}
    data = (make or h.w.get_spglib_data)(cell, atoms, **kw)
    return data, calls, (L, R, std_pos, prim, prim_pos)


def _spglib_data(form, as_dict):
    def f(h):
        n = 2
        cell, pos, types = _data(h, n)
        c0, p0, t0 = h.snapshot(cell), h.snapshot(pos), list(types)
        fam, lo, hi = FAMILY[h.choose("family", 6)]
        num = (lo, hi)[h.choose("number", 2)]
        kw = {}
        if h.choose("tolerances", 2):
            kw = dict(spglib_symprec=h.real("sp", pos=True), spglib_angle_tolerance=h.real("at"))
        if form == "arrays":
            cell, pos = h.array(cell), h.array(pos)
        make = h.w.SpglibData if h.choose("made by", 2) else None
        data, calls, (L, R, sp, prim, pp) = _make(h, cell, pos, types, number=num, as_dict=as_dict, make=make, **kw)
        h.check(sorted(c[0] for c in calls) == ["dataset", "primitive"], "the library is asked once for each")
        for _, (c, p, t), k in calls:
            h.eqv(c, c0, "the given cell is passed on")
            h.eqv(p, p0, "the given positions are passed on")
            h.eqv(list(t), t0, "the given types are passed on")
            h.eq(k["symprec"], kw.get("spglib_symprec", h.q("1e-5")), "symprec is passed on")
            h.eq(k["angle_tolerance"], kw.get("spglib_angle_tolerance", -1), "angle tolerance is passed on")
        h.eq(data.symprec, kw.get("spglib_symprec", h.q("1e-5")), "symprec is recorded")
        h.eq(data.angle_tolerance, kw.get("spglib_angle_tolerance", -1), "angle tolerance is recorded")
        h.check(data.space_group_number == num, "space group number is the library's")
        h.check(data.crystal_family == fam, "crystal family follows from the number")
        h.eqv(data.conventional_cell, h.matmul(L, R), "conventional cell is rotated back")
        h.eqv(data.conventional_positions, sp, "conventional positions are the library's")
        h.check(list(data.conventional_types) == [5] * (n + 1), "conventional types are the library's")
        h.eqv(data.primitive_cell, h.matmul(prim, R), "primitive cell is rotated back")
        h.eqv(data.primitive_positions, pp, "primitive positions are the library's")
        h.check(list(data.primitive_types) == [7], "primitive types are the library's")
        # later changes of the caller's data are not seen by the dataset
        cell[0][0] = cell[0][0] + 1
        pos[1][2] = pos[1][2] + 1
        types[1] = 77
        h.eqv(data.original_cell, c0, "original cell is recorded and independent of the caller's")
        h.eqv(data.original_positions, p0, "original positions are recorded and independent of the caller's")
        h.eqv(data.original_types, t0, "original types are recorded and independent of the caller's")

    return f


def no_dataset(h):
    cell, pos, types = _data(h, 2)
    calls = []
    _stub(h, {"dataset": None, "primitive": None}, calls)
    r, e = h.call(h.w.get_spglib_data, cell, {"positions": pos, "spglib_types": types})
    h.check(e is not None and isinstance(e, RuntimeError), "no symmetry found is a RuntimeError")


def bad_cell(h):
    k = h.choose("shape", 3)
    cell = h.mat("c", *[(2, 3), (3, 2), (4, 3)][k])
    _stub(h, {"dataset": None, "primitive": None}, [])
    r, e = h.call(h.w.get_spglib_data, cell, {"positions": [h.vec("p")], "spglib_types": [1]})
    h.check(e is not None and isinstance(e, ValueError), "a cell of other shape is a ValueError")


def _far(h, a, b):
    return h.lt(h.q("1/1000") * (1 + h.abs(b)), h.abs(a - b))


def _validate(n, what):
    def f(h):
        cell, pos, types = _data(h, n)
        data, _, _ = _make(h, h.snapshot(cell), h.snapshot(pos), list(types))
        c, p, t = h.snapshot(cell), h.snapshot(pos), list(types)
        if what == "same":
            form = h.choose("form", 2)
            if form:
                c, p = h.array(c), h.array(p)
            r, e = h.call(h.w.validate_spglib_data, c, {"positions": p, "spglib_types": t}, data)
            h.check(e is None, "the crystal the dataset was made for is accepted")
            return
        if what == "cell":
            i, j = h.choose("i", 3), h.choose("j", 3)
            x = h.real("x")
            h.assume(_far(h, x, c[i][j]), base=True)
            c[i][j] = x
        elif what == "positions":
            i, j = h.choose("i", n), h.choose("j", 3)
            x = h.real("x")
            h.assume(_far(h, x, p[i][j]), base=True)
            p[i][j] = x
        elif what == "types":
            i = h.choose("i", n)
            x = h.integer("x", 1, 1000)
            h.assume(h.Not(x == t[i]), base=True)
            t[i] = x
        elif what == "any_types":
            # all types may differ, e.g. the same types in another order
            t = [h.integer(f"x{k}", 1, 1000) for k in range(n)]
            h.assume(h.Or(*[h.Not(a == b) for a, b in zip(t, types)]), base=True)
        elif what == "any_positions":
            p = [h.vec(f"x{k}_") for k in range(n)]
            h.assume(h.Or(*[_far(h, a, b) for u, v in zip(p, pos) for a, b in zip(u, v)]), base=True)
        elif what == "any_cell":
            c = h.mat("x")
            h.assume(h.Or(*[_far(h, c[i][j], cell[i][j]) for i in range(3) for j in range(3)]), base=True)
        elif what == "fewer":
            p, t = p[:-1], t[:-1]
        elif what == "more":
            p, t = p + [h.vec("extra")], t + [1]
        r, e = h.call(h.w.validate_spglib_data, c, {"positions": p, "spglib_types": t}, data)
        h.check(e is not None and isinstance(e, ValueError), f"different {what}: rejected")

    return f


def jobs(tier):
    T = tier == "thorough"
    r = []
    for n in (1, 3, 12):
        r.append(Job(f"from_types_{n}", _from_types(n), wall=100, bounds=f"{n} atoms, all types up to 1000"))
    for n, where, lens in [(2, (0, 1), (1, 2)), (3, (0, 1, 2), (2,)), (12, (0, 11), (2,))] + ([(4, (0, 1, 2, 3), (1, 2))] if T else []):
        r.append(Job(f"from_species_{n}_{len(where)}", _from_species(n, where, lens), wall=300, paths=20000, bounds=f"{n} atoms, any valid species of {where}"))
    for n in (2,) + ((3,) if T else ()):
        r.append(Job(f"from_names_{n}", _from_names(n), wall=800 if T else 200, paths=20000, bounds=f"{n} atoms, all names of one character"))
    for n in (2, 3) + ((4,) if T else ()):
        r.append(Job(f"from_names_species_{n}", _from_names_species(n), wall=300, paths=20000, bounds=f"{n} atoms, five species with any decoration"))
    for n, where in [(2, (0, 1)), (3, (0, 1, 2)), (12, (0, 11))]:
        r.append(Job(f"from_unknown_{n}", _from_unknown(n, where), wall=300, paths=20000, bounds=f"{n} atoms, any names of up to 2 non-letters"))
    r.append(Job("no_identifier", no_identifier, wall=60, bounds="one atom"))
    for form in ("lists", "arrays"):
        for d in (False, True):
            r.append(Job(f"spglib_data_{form}_{'dict' if d else 'object'}", _spglib_data(form, d), wall=200, bounds="2 atoms, any answers of the library, 12 space groups"))
    r.append(Job("no_dataset", no_dataset, wall=60, bounds="2 atoms"))
    r.append(Job("bad_cell", bad_cell, wall=60, bounds="three wrong shapes"))
    for what in ("same", "cell", "positions", "types", "any_cell", "any_positions", "any_types", "fewer", "more"):
        for n in (1, 2, 3):
            if what == "fewer" and n == 1:
                continue
            r.append(Job(f"validate_{what}_{n}", _validate(n, what), wall=200, bounds=f"{n} atoms, any cell, positions and types, one element different"))
    return r
