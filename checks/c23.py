"""Calls are independent: arguments, shared symmetry data, tables and earlier results stay as they are."""

from symx.job import Job
from checks import crystals
from checks.c10 import niggli_stub
from checks.c11 import EXTRA
from checks.c17 import File

ASSUMPTIONS = [
    "the symmetry library's answer is the standardised cell of the Bravais lattice type with arbitrary parameters (lengths at least 1/10), in a fixed rational orientation",
    "aP: reciprocal cell with free metric, angles off 90 degrees; HPKOT aP: the Niggli reduction (property C05) is replaced by an arbitrary basis change; mC, mP: beta off the right angle",
    "get_unique_names is left out: its documentation relies on the names of the atoms being replaced in place",
    "per-atom data are compared and edited at the level of the lists of the dictionary; objects stored per atom by the user are the user's",
]


def flatten(x, pre="", out=None):
    """leaves of nested dictionaries, lists and arrays with their paths"""
    out = [] if out is None else out
    if isinstance(x, dict):
        out.append((pre + "{}", tuple(str(k) for k in x)))
        for k in x:
            flatten(x[k], f"{pre}.{k}", out)
    elif isinstance(x, (list, tuple)) or hasattr(x, "tolist") and hasattr(x, "shape") and x.shape != ():
        items = list(x)
        out.append((pre + "[]", len(items)))
        for i, y in enumerate(items):
            flatten(y, f"{pre}[{i}]", out)
    else:
        out.append((pre, x))
    return out


def same(h, got, want, label):
    a, b = flatten(got), flatten(want)
    if [k for k, _ in a] != [k for k, _ in b]:
        h.check(False, label)
        return
    rest = []
    for (k, x), (_, y) in zip(a, b):
        if isinstance(x, (str, bool, tuple, type(None))) or isinstance(y, (str, bool, tuple, type(None))):
            if x != y:
                h.check(False, f"{label} ({k})")
                return
        else:
            if (x == y) is not True:
                rest.append((x, y))
    h.check(True, label)
    h.eqv([x for x, _ in rest], [y for _, y in rest], label)


def damage(h, x, t, top=True):
    """what a caller may do to the result of a call: overwrite all of its arrays, lists and dictionaries"""
    if isinstance(x, dict):
        for k in list(x):
            damage(h, x[k], t, False)
        x["_edited"] = 1
    elif isinstance(x, tuple):
        for y in x:
            damage(h, y, t, False)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (list, dict, tuple)) or hasattr(y, "shape") and y.shape != ():
                damage(h, y, t, False)
        x.append("edited")
        x[0] = "edited"
    elif hasattr(x, "shape") and "int" in str(x.dtype):
        x[...] = x + 7
    elif hasattr(x, "shape") and len(x.shape) == 1:
        for i in range(len(x)):
            x[i] = x[i] + t
    elif hasattr(x, "shape") and len(x.shape) == 2:
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                x[i, j] = x[i, j] + t


def tables(h):
    c = h.w.constants
    return {k: getattr(c, k) for k in dir(c) if k.isupper()}


CALLS = ("get_conventional", "get_primitive", "get_path_and_points", "symbol", "from_crystal")


def _run(h, which, conv, cell, atoms, data):
    k = {} if data is None else {"spglib_data": data}
    if which in ("get_conventional", "get_primitive"):
        return getattr(h.w.crystal, which)(cell, atoms, convention=conv, **k)
    if which == "get_path_and_points":
        return h.w.kpoints.get_path_and_points(cell, atoms, convention=conv, **k)
    if which == "symbol":
        return (h.w.crystal.sc_get_variation if conv == "SC" else h.w.crystal.hpkot_get_extended_bl_symbol)(cell, atoms, **k)
    o = h.w.Kpoints.from_crystal(cell, atoms, convention=conv, **k)
    return o


def _state(x):
    """comparable content of a result"""
    if hasattr(x, "hs_names"):
        names = list(x.hs_names)
        return [names, [list(x.hs_coordinates[n]) for n in names], [str(x.hs_labels[n]) for n in names], [list(s) for s in x.path], x.n, x.rcell]
    return x


def _edit(h, which, x, t):
    if which == "symbol":
        return
    if which == "from_crystal":
        x.add_hs_point("EDITED", [t, t, t], "edited", relative=True)
        x.path = "EDITED-GAMMA"
        x.n = 3
    else:
        damage(h, x, t)


def _setup(h, t, conv, rot, types=True):
    """two atoms of different species at fixed relative positions, lattice parameters free"""
    s = crystals.Std(h, t)
    if EXTRA.get(t) and (conv == "SC" or t in ("mP", "mC", "aP")):
        EXTRA[t](h, s.p)
    if t == "aP":
        h.assume(h.And(*[h.lt(0, s.p[k]) for k in "xyz"]), base=True)
        if conv == "HPKOT":
            niggli_stub(h, s)
    P = crystals.q3(h, crystals.PRIM[t[1]])
    ys = [[h.q(0)] * 3, [h.q("1/4"), h.q("1/3"), h.q("1/5")]]
    pos, kinds = [], []
    for k, y in enumerate(ys):
        c0 = h.vecmat(y, P)
        for c in crystals.CENTRES[t[1]]:
            pos.append([c0[i] + h.q(c[i]) for i in range(3)])
            kinds.append(k + 1)
    atoms = {"positions": ys, "names": ["Fe", "O"], "label": [h.real("label0"), h.real("label1")]}
    if types:
        atoms["spglib_types"] = [1, 2]
    num = crystals.NUMBERS[t]
    cell, atoms, data, _ = crystals.dataset(h, t, num[1] or num[0], s.rows, pos, kinds, rot=rot, atoms=atoms, prim_atoms=(ys, [1, 2]))
    return cell, atoms, data


def _edits(h):
    e = h.real("edit")
    h.assume(h.Or(h.lt(1, e), h.lt(e, -1)), base=True)
    return e


def _history(t, conv, rot, pairs, as_lists):
    """call A, call B, overwrite their results: nothing shared has changed and B answers as before"""

    def f(h):
        a, b = pairs[h.choose("calls", len(pairs))]
        cell, atoms, data = _setup(h, t, conv, rot)
        if as_lists:
            cell = h.rows(cell)
        else:
            cell = h.array(h.rows(cell))
            atoms["positions"] = h.array(atoms["positions"])
        before = h.snapshot([cell, atoms, dict(vars(data))])
        consts = h.snapshot(tables(h))
        e = _edits(h)
        first = _run(h, a, conv, cell, atoms, data)
        kept = h.snapshot(_state(first))
        other = _run(h, b, conv, cell, atoms, data)
        want = h.snapshot(_state(other))
        _edit(h, b, other, e)
        same(h, _state(first), kept, f"the result of {a} does not change when the one of {b} is edited")
        _edit(h, a, first, e)
        same(h, [cell, atoms, dict(vars(data))], before, f"arguments and symmetry data do not change with {a}, {b} and edits of their results")
        same(h, tables(h), consts, "constants do not change")
        same(h, _state(_run(h, b, conv, cell, atoms, data)), want, f"{b} gives the same answer again")

    return f


def _implicit(t, conv, rot, calls):
    """symmetry data left out: computed for the call, the answer is the same and arguments do not change"""

    def f(h):
        a = calls[h.choose("call", len(calls))]
        cell, atoms, data = _setup(h, t, conv, rot, types=False)
        before = h.snapshot([cell, atoms])
        with_data = h.snapshot(_state(_run(h, a, conv, cell, atoms, data)))
        got = _run(h, a, conv, cell, atoms, None)
        same(h, _state(got), with_data, f"{a} with and without the symmetry data")
        if a in CALLS[:2]:
            _compose(h, a, *got)
        _edit(h, a, got, _edits(h))
        same(h, [cell, atoms], before, f"arguments do not change with {a}")

    return f


def _compose(h, a, cell, atoms):
    """the returned crystal is as good an input as the one it was computed from"""
    ok, err = h.call(h.w.crystal.validate_atoms, atoms, required_keys=["positions", "names", "spglib_types"], raise_errors=True)
    h.check(err is None and ok is True, f"atoms of {a} are valid")
    if err is not None:
        return
    types, err = h.call(h.w.get_spglib_types, atoms)
    h.check(err is None, f"types of the atoms of {a} are available")
    _, err = h.call(h.w.get_spglib_data, cell, atoms)
    h.check(err is None, f"the result of {a} has symmetry data")
    if err is None:
        _, err = h.call(lambda: h.w.validate_spglib_data(cell, atoms, h.w.get_spglib_data(cell, atoms)))
        h.check(err is None, f"the symmetry data of the result of {a} are accepted")
    for n in ("shift_atoms", "ensure_000", "cure_negative"):
        _, err = h.call(getattr(h.w.crystal, n), atoms)
        h.check(err is None, f"{n} works on the result of {a}")
    h.check(len(atoms["names"]) == len(h.rows(atoms["positions"])) == len(atoms["label"]), f"data of every atom of the result of {a}")


# name, arguments (positional) as functions of the harness
def _cell_calls(h, c, p):
    return {
        "get_reciprocal": lambda: h.w.cell.get_reciprocal(c),
        "get_params": lambda: h.w.cell.get_params(c),
        "get_scalar_products": lambda: h.w.cell.get_scalar_products(c),
        "get_transformation_matrix": lambda: h.w.cell.get_transformation_matrix(c, c),
        "get_lattice_points": lambda: h.w.cell.get_lattice_points(c, (1, 1, 0)),
        "get_volume": lambda: h.w.geometry.get_volume(c),
        "get_vector": lambda: h.w.crystal.get_vector(c, p[0], 0, 1, R=p[1]),
        "get_relative": lambda: h.w.crystal.get_vector(c, p[0], 0, 1, R=p[1], return_relative=True),
        "get_distance": lambda: h.w.crystal.get_distance(c, p[0], 0, 1, R=p[1]),
        "get_path_as_list": lambda: h.w.kpoints.get_path_as_list("GAMMA-X|Y-Z"),
        "get_path_as_string": lambda: h.w.kpoints.get_path_as_string(p[2]),
        "get_spglib_types": lambda: h.w.get_spglib_types(p[0]),
        "get_atoms_species": lambda: h.w.crystal.get_atoms_species(p[0]),
        "SC_ORCF": lambda: h.w.cell.SC_ORCF(1, 2, 3),
        "sc_get_example": lambda: h.w.cell.sc_get_example("BCT1"),
        "get_angle": lambda: h.w.geometry.get_angle(c[0], c[1], radians=True),
        "get_spherical": lambda: h.w.geometry.get_spherical(c[0]),
        "get_spherical_axes": lambda: h.w.geometry.get_spherical(c[0], in_degrees=False, polar_axis=c[1], radial_line_zero=c[2]),
        "get_atom_species": lambda: h.w.crystal.get_atom_species("fe"),
        "validate_atoms": lambda: h.w.crystal.validate_atoms(p[0], required_keys=p[6]),
        "from_params": lambda: h.w.cell.from_params(*p[7]),
        "dump_poscar": lambda: _dumped(h, c, p[0]),
        "get_niggli": lambda: h.w.cell.get_niggli(p[8], implementation="wulfric"),
        "Kpoints.points": lambda: _kp(h, c, p).points(relative=True),
        "Kpoints.flat_points": lambda: _kp(h, c, p).flat_points(relative=True),
        "Kpoints.ticks": lambda: _kp(h, c, p).ticks(relative=True),
        "Kpoints": lambda: h.w.Kpoints(c, p[3], names=p[4], labels=p[5], path=p[2], n=2),
    }


def _kp(h, c, p):
    return h.w.Kpoints(c, p[3], names=p[4], labels=p[5], path=p[2], n=2)


def _dumped(h, c, atoms):
    out = File()
    h.w.io.dump_poscar(c, atoms, out, comment="x")
    return h.w.io.load_poscar(File(out.content()))


CELL_CALLS = ("get_reciprocal", "get_params", "get_scalar_products", "get_transformation_matrix", "get_lattice_points", "get_volume", "get_vector",
              "get_relative", "get_distance", "get_path_as_list", "get_path_as_string", "get_spglib_types", "get_atoms_species", "SC_ORCF", "sc_get_example", "Kpoints",
              "get_angle", "get_spherical", "get_spherical_axes", "get_atom_species", "validate_atoms", "from_params", "dump_poscar", "get_niggli",
              "Kpoints.points", "Kpoints.flat_points", "Kpoints.ticks")


def _plain(call, as_lists):
    """functions of cells, atoms and paths: called, result overwritten, called again"""

    def f(h):
        c = [h.vec(f"a{i}") for i in range(3)]
        h.assume(h.lt(h.q("1/100"), h.abs(h.det(c))), base=True)
        for v in c:
            h.assume(h.lt(h.q("1/100"), h.dot(v, v)), base=True)
        wrap = (lambda x: x) if as_lists else h.array
        c = wrap(c)
        R, x = h.vec("R"), [h.vec("x"), h.vec("y")]
        h.assume(h.lt(h.q("1/100"), h.abs(x[0][0] - x[1][0])), base=True)
        p = [{"positions": wrap(x), "names": ["Fe1", "O1"], "tag": [1, 2]}, wrap(R), [["A", "B"], ["B", "A"]], wrap([h.vec("k"), h.vec("l")]), ["A", "B"], ["a", "b"], ["names", "positions"]]
        p.append([h.real(k, pos=True) for k in "abc"] + [90, 90, h.angle("gamma")] if call == "from_params" else [])
        t = h.real("size", pos=True)
        h.assume(h.And(h.le(h.q("1/10"), t), h.le(t, 10)), base=True)
        p.append(wrap([[t * v for v in r] for r in ((1, 0, 0), (2, 1, 0), (0, -1, 1))]))
        if p[7]:
            h.assume(h.And(*[h.lt(h.q("1/100"), v) for v in p[7][:3]], h.lt(1, p[7][5]), h.lt(p[7][5], 179)), base=True)
        before = h.snapshot([c, p])
        consts = h.snapshot(tables(h))
        run = _cell_calls(h, c, p)[call]
        got = run()
        kept = h.snapshot(_state(got))
        again = run()
        same(h, _state(again), kept, f"{call} gives the same answer twice")
        e = _edits(h)
        if call == "Kpoints":
            again.add_hs_point("EDITED", [e, e, e], "edited", relative=True)
            again.path = "EDITED-A"
            damage(h, again.rcell, e)
            damage(h, [again.hs_coordinates], e)
        else:
            damage(h, again, e)
        same(h, _state(got), kept, f"results of {call} are independent")
        same(h, [c, p], before, f"{call} does not change its arguments")
        same(h, tables(h), consts, "constants do not change")
        same(h, _state(run()), kept, f"{call} gives the same answer after its result was edited")

    return f


def jobs(tier):
    r = []
    for i, t in enumerate(crystals.TYPES):
        for c, conv in enumerate(("SC", "HPKOT", "spglib")):
            rot = 0 if t == "aP" else (i + c) % 3
            calls = CALLS[:2] if conv == "spglib" else CALLS
            n = len(calls)
            pairs = [(a, b) for a in calls for b in calls]
            if tier == "quick":  # each function with itself and with one other
                pairs = [(calls[k], calls[(k + d) % n]) for k in range(n) for d in (0, 1 + (i + c) % (n - 1))]
            half = (len(pairs) + 1) // 2 if t in ("aP", "mC") else len(pairs)
            for j in range(0, len(pairs), half):
                r.append(Job(f"history_{conv}_{t}" + (f"_{j}" if half < len(pairs) else ""), _history(t, conv, rot, pairs[j : j + half], (i + c) % 2 == 0), wall=400, bounds="all lattice parameters, 3 calls and edits of their results"))
            r.append(Job(f"implicit_{conv}_{t}", _implicit(t, conv, rot, calls), wall=400, bounds="all lattice parameters"))
    for n in CELL_CALLS:
        for as_lists in (True, False):
            r.append(Job(f"plain_{n}_{'list' if as_lists else 'array'}", _plain(n, as_lists), wall=200, bounds="any cell, two atoms"))
    return r
