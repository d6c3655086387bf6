"""validate_atoms, get_atom(s)_species, get_unique_names."""

import itertools

from symx.job import Job

ASSUMPTIONS = [
    "names consist of printable ASCII characters without the blank",
    "integers of spglib_types are Python ints",
]

# the periodic table, written down independently of the package
ELEMENTS = (
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr "
    "Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir "
    "Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl "
    "Mc Lv Ts Og"
).split()
assert len(ELEMENTS) == 118
ONE = [e for e in ELEMENTS if len(e) == 1]
TWO = [e for e in ELEMENTS if len(e) == 2]


# ---- species ------------------------------------------------------------------
def _species_spec(h, name, r, label):
    low = name.lower()
    occ = {e: h.has(low, e.lower()) for e in ELEMENTS}
    two = h.Or(*[occ[e] for e in TWO])
    one = h.Or(*[occ[e] for e in ONE])
    if r == "X":
        h.check(h.Not(h.Or(one, two)), f"{label}: X only if no species occurs in the name")
    elif r in TWO:
        h.check(occ[r], f"{label}: the species occurs in the name")
    else:
        h.check(r in ONE, f"{label}: the result is a species or X")
        if r in ONE:
            h.check(occ[r], f"{label}: the species occurs in the name")
            h.check(h.Not(two), f"{label}: a two-letter species is preferred")
    return h.Or(one, two)


def _species(n):
    def f(h):
        name = h.string("name", n)
        r, e = h.call(h.w.crystal.get_atom_species, name)
        h.check(e is None, "no error unless asked for")
        if e is not None:
            return
        _species_spec(h, name, r, "species")

    return f


def _species_raise(n):
    def f(h):
        name = h.string("name", n)
        r, e = h.call(h.w.crystal.get_atom_species, name, raise_on_fail=True)
        if e is not None:
            h.check(h.exc_name(e) == "FailedToDeduceAtomSpecies", "kind of the error")
            low = name.lower()
            h.check(h.Not(h.Or(*[h.has(low, x.lower()) for x in ELEMENTS])), "error only if no species occurs")
        else:
            h.check(r != "X", "X is an error when asked for")
            _species_spec(h, name, r, "species")

    return f


def _species_around(pre, post):
    """each species with symbolic neighbours that are not letters is found"""

    def f(h):
        rng = [(33, 64), (91, 96), (123, 126)][h.choose("characters", 3)]
        a, b = h.string("a", pre, *rng), h.string("b", post, *rng)
        k = h.choose("species", len(ELEMENTS))
        case = h.choose("case", 3)
        e = ELEMENTS[k]
        txt = [e, e.lower(), e.upper()][case]
        name = a + h.text(txt) + b
        r = h.w.crystal.get_atom_species(name)
        h.check(r == e, "the only species in the name is found")
        rr = h.w.crystal.get_atoms_species({"names": [name, h.text("#"), name]})
        h.check(len(rr) == 3 and rr[0] == e and rr[1] == "X" and rr[2] == e, "one species per atom, in order")

    return f


def species_many(h):
    """per-atom results, in order, for atoms with symbolic names"""
    n = 2
    names = [h.string(f"n{i}", 1) for i in range(n)]
    atoms = {"names": list(names), "tag": list(range(n))}
    r = h.w.crystal.get_atoms_species(atoms)
    h.check(len(r) == n, "one species per atom")
    for i in range(n):
        _species_spec(h, names[i], r[i], f"atom {i}")
    h.check(sorted(atoms) == ["names", "tag"], "no keys added or removed")
    for i in range(n):
        h.check(atoms["names"][i] == names[i], "names unchanged")


# ---- unique names ---------------------------------------------------------------
def _names(h, n, where, maxlen):
    names = []
    for i in range(n):
        if i in where:
            k = 1 + h.choose(f"len{i}", maxlen)
            names.append(h.string(f"n{i}", k))
        else:
            names.append(h.text(f"Zz_{i:03d}_"))
    return names


def _distinct(h, xs):
    return h.And(*[h.Not(xs[i] == xs[j]) for i in range(len(xs)) for j in range(i)])


def _unique(n, where, maxlen, strategy):
    def f(h):
        names = _names(h, n, where, maxlen)
        atoms = {"names": list(names)}
        st = strategy
        if strategy == "default":
            r, e = h.call(h.w.crystal.get_unique_names, atoms)
            st = "all"
        else:
            v = h.choose("case", 2)
            r, e = h.call(h.w.crystal.get_unique_names, atoms, strategy=[strategy, strategy.upper()][v])
        h.check(e is None, "supported strategy is accepted")
        if e is not None:
            return
        h.check(len(r) == n, "one name per atom")
        if len(r) != n:
            return
        was = _distinct(h, names)
        h.check(_distinct(h, r), "names are pairwise distinct")
        same = h.And(*[r[i] == names[i] for i in range(n)])
        h.check(h.Implies(was, same), "names that are unique already are returned as they are")
        for i in range(n):
            h.check(r[i].startswith(names[i]), "each name extends the original one")
            alone = h.And(*[h.Not(names[i] == names[j]) for j in range(n) if j != i])
            if st == "repeated-only":
                h.check(h.Iff(alone, r[i] == names[i]), "exactly the repeated names are changed")
            else:
                h.check(h.Iff(was, r[i] == names[i]), "every name gets an index when some are repeated")
            tail = r[i][len(names[i]):]
            h.check(h.Or(len(tail) == 0, tail.isdigit()), "names are extended by digits")

    return f


def _bad_strategy(n):
    def f(h):
        s = h.string("s", n)
        ok = h.Or(s.lower() == h.text("all"), s.lower() == h.text("repeated-only"))
        atoms = {"names": ["A", "A"]}
        r, e = h.call(h.w.crystal.get_unique_names, atoms, strategy=s)
        if e is None:
            h.check(ok, "an unsupported strategy is an error")
        else:
            h.check(isinstance(e, ValueError), "unsupported strategy is a ValueError")
            h.check(h.Not(ok), "supported strategies are accepted whatever the case")

    return f


# ---- validation -----------------------------------------------------------------
def _val(h, atoms, req, good, label, kinds=(ValueError,)):
    """good: does the documentation accept this?"""
    kw = {} if req is None else {"required_keys": req}
    r, e = h.call(h.w.crystal.validate_atoms, atoms, raise_errors=False, **kw)
    h.check(e is None, f"{label}: never raises when asked not to")
    if e is None:
        h.check(h.Iff(r, good), f"{label}: accepted exactly when the conditions hold")
    r, e = h.call(h.w.crystal.validate_atoms, atoms, **kw)
    if e is None:
        h.check(good, f"{label}: raises when a condition fails")
        h.check(r is True, f"{label}: returns True")
    else:
        h.check(h.Not(good), f"{label}: does not raise when all conditions hold")
        h.check(isinstance(e, kinds), f"{label}: kind of the error")


KEYS = ("names", "species", "positions", "spglib_types", "charges")


def _value(h, key, n):
    if key == "names":
        return [f"A{i}" for i in range(n)]
    if key == "species":
        return ["Cr", "X", "Br", "H", "O"][:n] if n <= 5 else ["Cr"] * n
    if key == "positions":
        return [[h.real(f"p{i}_{j}") for j in range(3)] for i in range(n)]
    if key == "spglib_types":
        return [i + 1 for i in range(n)]
    return [h.real(f"q{i}") for i in range(n)]


def _lengths(maxn):
    def f(h):
        atoms = {}
        lens = []
        for key in KEYS:
            k = h.choose("len_" + key, maxn + (1 if key == "positions" else 2))  # 0: absent, maxn + 1: empty
            if k:
                k %= maxn + 1
                atoms[key] = _value(h, key, k)
                lens.append(k)
        _val(h, atoms, None, len(set(lens)) <= 1, "lengths")

    return f


def required(h):
    have = [k for k in KEYS if h.boolean_choice("has_" + k)]
    need = [k for k in KEYS if h.boolean_choice("need_" + k)]
    n = 2
    atoms = {k: _value(h, k, n) for k in have}
    _val(h, atoms, need, set(need) <= set(have), "required keys")


def _types(n):
    def f(h):
        t = [h.integer(f"t{i}", -5, 300) for i in range(n)]
        atoms = {"spglib_types": list(t)}
        if h.choose("more", 2):
            atoms["names"] = _value(h, "names", n)
            atoms["positions"] = _value(h, "positions", n)
        _val(h, atoms, None, h.And(*[h.le(1, x) for x in t]), "spglib_types")

    return f


def _types_not_int(n):
    def f(h):
        k = h.choose("which", n)
        bad = [1.5, "1", None, [1], 2.0][h.choose("bad", 5)]
        t = [1] * n
        t[k] = bad
        _val(h, {"spglib_types": t}, None, False, "spglib_types that are not integers")

    return f


def _elements_not_str(n):
    def f(h):
        key = ("names", "species")[h.choose("key", 2)]
        k = h.choose("which", n)
        bad = [1, None, 1.5, ["Cr"]][h.choose("bad", 4)]
        v = ["Cr"] * n
        v[k] = bad
        atoms = {key: v}
        if h.choose("other", 2):
            atoms["positions"] = _value(h, "positions", n)
        _val(h, atoms, None, False, f"{key} that are not strings")

    return f


def _species_valid(n, length):
    def f(h):
        k = h.choose("which", n)
        s = h.string("s", length)
        v = [h.text("Cr")] * n
        v[k] = s
        good = h.Or(*[s == h.text(x) for x in ["X"] + ELEMENTS if len(x) == length])
        _val(h, {"species": v}, None, good, "species")

    return f


def positions_shape(h):
    n = 1 + h.choose("n", 3)
    m = 1 + h.choose("m", 5)
    form = h.choose("form", 3)
    v = [[h.real(f"p{i}_{j}") for j in range(m)] for i in range(n)]
    if form == 1:
        v = h.array(v)
    elif form == 2:
        v = [h.array(x) for x in v]
    atoms = {"positions": v, "names": [f"A{i}" for i in range(n)]}
    _val(h, atoms, ["positions"], m == 3, "positions of other shape")


def positions_flat(h):
    n = 1 + h.choose("n", 4)
    _val(h, {"positions": [h.real(f"p{i}") for i in range(n)]}, None, False, "flat positions")


def positions_ragged(h):
    n = 2 + h.choose("n", 2)
    v = [[h.real(f"p{i}_{j}") for j in range(3)] for i in range(n)]
    k = h.choose("which", n)
    v[k] = v[k][: 1 + h.choose("m", 2)]
    _val(h, {"positions": v}, None, False, "ragged positions")


def positions_deep(h):
    n = 1 + h.choose("n", 2)
    v = [[[h.real(f"p{i}_{j}")] for j in range(3)] for i in range(n)]
    _val(h, {"positions": v}, None, False, "nested positions")


def not_sized(h):
    key = KEYS[h.choose("key", len(KEYS))]
    bad = [1, None, 1.5, True][h.choose("bad", 4)]
    atoms = {}
    if h.choose("first", 2):
        atoms["names" if key != "names" else "other"] = ["A"]
    atoms[key] = bad
    _val(h, atoms, None, False, "values that cannot be counted", kinds=(ValueError, TypeError))


def untouched(h):
    n = 2
    atoms = {k: _value(h, k, n) for k in KEYS}
    before = h.snapshot(atoms)
    h.w.crystal.validate_atoms(atoms, required_keys=list(KEYS))
    h.check(list(atoms) == list(before), "keys unchanged")
    for k in KEYS:
        h.check(len(atoms[k]) == n, "lengths unchanged")
    h.eqv(atoms["positions"], before["positions"], "positions unchanged")
    h.check(atoms["names"] == before["names"] and atoms["species"] == before["species"], "names and species unchanged")


def jobs(tier):
    T = tier == "thorough"
    r = []
    for n in (1, 2) + ((3,) if T else ()):
        r.append(Job(f"species_{n}", _species(n), wall=600 if T else 200, paths=40000, bounds=f"all names of {n} printable characters"))
    for n in (1,) + ((2,) if T else ()):
        r.append(Job(f"species_raise_{n}", _species_raise(n), wall=600 if T else 120, paths=40000, bounds=f"all names of {n} printable characters"))
    for a, b in [(0, 1), (2, 2)] + ([(3, 4), (6, 6)] if T else []):
        r.append(Job(f"species_around_{a}_{b}", _species_around(a, b), wall=300, paths=10000, bounds=f"every species in three spellings with any {a} non-letters before and {b} after"))
    r.append(Job("species_many", species_many, wall=300, paths=10000, bounds="2 atoms, names of one character"))
    for st in ("all", "repeated-only", "default"):
        for n, where, ml in [(2, (0, 1), 2), (3, (0, 1, 2), 2), (11, (0, 5, 10), 2), (12, (1, 11), 3)] + (
            [(4, (0, 1, 2, 3), 2), (12, (0, 1, 10, 11), 2), (112, (0, 10, 110), 3)] if T else []
        ):
            if st == "default" and n > 3:
                continue
            r.append(Job(f"unique_{st}_{n}_{len(where)}", _unique(n, where, ml, st), wall=600 if T else 200, paths=20000,
                         bounds=f"{n} atoms, of which {where} have any names of up to {ml} characters"))
    for n in (0, 2, 3, 13):
        r.append(Job(f"strategy_{n}", _bad_strategy(n), wall=100, bounds=f"all strategies of {n} characters"))
    r.append(Job("lengths", _lengths(3 if T else 2), wall=300, paths=5000, bounds="five keys, each absent, empty or with up to %d atoms" % (3 if T else 2)))
    r.append(Job("required", required, wall=300, paths=5000, bounds="all subsets of five keys, required and present"))
    for n in (1, 2, 4):
        r.append(Job(f"types_{n}", _types(n), wall=100, bounds=f"{n} atoms, all integers from -5 to 300"))
    r.append(Job("types_not_int", _types_not_int(3), wall=100, bounds="3 atoms, one offending"))
    r.append(Job("elements_not_str", _elements_not_str(3), wall=100, bounds="3 atoms, one offending"))
    for n in (1, 2, 3):
        r.append(Job(f"species_valid_{n}", _species_valid(2, n), wall=200, bounds=f"2 atoms, any species of {n} characters"))
    for f in (positions_shape, positions_flat, positions_ragged, positions_deep, not_sized, untouched):
        r.append(Job(f.__name__, f, wall=100, bounds="up to 4 atoms"))
    return r
