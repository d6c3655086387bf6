"""Kpoints: points, path, labels, ticks and distances agree after any history of edits."""

import copy

from symx.job import Job
from checks import crystals
from checks.c11 import EXTRA

ASSUMPTIONS = [
    "names of the points are fixed strings without '-' and '|' (prefixes of each other included); coordinates, reciprocal cell (non-singular) are arbitrary",
    "number of intermediate points per section 0..3 (thorough: 0..4)",
]

NAMES = ["K1", "K", "GAMMA", "K10"]


class Model:
    def __init__(self, names, coords, labels, path, n):
        self.names = list(names)
        self.coords = dict(zip(names, coords))
        self.labels = dict(zip(names, labels))
        self.path = [list(s) for s in path]
        self.n = n


def text(path):
    return "|".join("-".join(s) for s in path)


def used(path):
    return {n for s in path for n in s}


def rcell_of(h):
    rcell = h.mat("r")
    h.assume(h.Not(h.eqb(h.det(rcell), 0)))
    return rcell


def shape(h, k, m, label):
    """what needs no arithmetic"""
    h.check(list(k.hs_names) == m.names, f"{label}: names of the points")
    h.check(sorted(k.hs_coordinates) == sorted(m.names), f"{label}: every point has coordinates")
    h.check(sorted(k.hs_labels) == sorted(m.names), f"{label}: every point has a label")
    for x in m.names:
        if x in k.hs_coordinates:
            h.eqv(list(k.hs_coordinates[x]), m.coords[x], f"{label}: coordinates of {x}")
        if x in k.hs_labels:
            h.check(k.hs_labels[x] == m.labels[x], f"{label}: label of {x}")
    h.check([list(s) for s in k.path] == m.path, f"{label}: path")
    h.check(k.path_string == text(m.path), f"{label}: path as text")
    h.check(used(k.path) <= set(k.hs_names), f"{label}: every point of the path exists")
    h.check(k.n == m.n, f"{label}: number of intermediate points")
    want = []
    for i, s in enumerate(m.path):
        part = [m.labels[x] for x in s]
        if i:
            want[-1] = want[-1] + "|" + part[0]
            part = part[1:]
        want += part
    h.check(list(k.labels) == want, f"{label}: labels")


def numbers(h, k, m, rcell, label):
    for relative in (True, False):
        name = f"{label}, {'relative' if relative else 'absolute'}"

        def at(x):
            return list(m.coords[x]) if relative else h.vecmat(m.coords[x], rcell)

        ticks = list(k.ticks(relative=relative))
        h.check(len(ticks) == len(k.labels), f"{name}: as many ticks as labels")
        if not m.path:
            continue
        points = k.points(relative=relative)
        flat = list(k.flat_points(relative=relative))
        sections = [(a, b) for s in m.path for a, b in zip(s, s[1:])]
        n = m.n
        size = len(sections) * (n + 2)
        h.check(tuple(points.shape) == (size, 3), f"{name}: number of points")
        h.check(len(flat) == size, f"{name}: number of distances")
        h.check(len(ticks) == len(sections) + 1, f"{name}: number of ticks")
        if tuple(points.shape) != (size, 3) or len(flat) != size or len(ticks) != len(sections) + 1:
            continue
        total = 0
        h.eq(ticks[0], 0, f"{name}: first tick")
        for t, (a, b) in enumerate(sections):
            A, B = at(a), at(b)
            d = [y - x for x, y in zip(A, B)]
            length = h.sqrt(h.dot(d, d))
            for j in range(n + 2):
                f = h.q(f"{j}/{n + 1}")
                row = list(points[t * (n + 2) + j])
                h.eqv(row, [x + f * y for x, y in zip(A, d)], f"{name}: points of a section")
                h.eq(flat[t * (n + 2) + j], total + f * length, f"{name}: distance along the path")
            total = total + length
            h.eq(ticks[t + 1], total, f"{name}: tick positions")
        if not relative:
            h.eqv(list(k.ticks()), ticks, f"{name}: ticks are absolute by default")
            h.eqv(h.rows(k.points()), h.rows(points), f"{name}: points are absolute by default")
            h.eqv(list(k.flat_points()), flat, f"{name}: distances are absolute by default")


def build(h, count, path, n, names=True, labels=True):
    ns = NAMES[:count] if names else [f"K{i + 1}" for i in range(count)]
    coords = [h.vec(f"c{i}_") for i in range(count)]
    ls = [f"$L_{i}$" for i in range(count)] if labels else (list(ns) if names else [f"K$_{i + 1}$" for i in range(count)])
    rcell = rcell_of(h)
    m = Model(ns, coords, ls, path if path is not None else ([ns] if count > 1 else []), n)
    return rcell, ns, coords, ls, m


def _section_paths(ns):
    a, b, c, d = ns
    return [
        [[a, b]],
        [[a, a]],
        [[a, b, c]],
        [[a, b, a]],
        [[a, b], [c, d]],
        [[a, b], [b, c]],
        [[a, b, c], [d, a], [b, d]],
        [[a, b, c, d, a, c], [b, d]],
    ]


def _sections(n):
    """points, distances, ticks and labels of paths"""

    def f(h):
        paths = _section_paths(NAMES)
        p = paths[h.choose("path", len(paths))]
        rcell, ns, coords, ls, m = build(h, 4, p, n)
        as_text = h.boolean_choice("text")
        k = h.w.Kpoints(rcell, coords, ns, ls, path=text(p) if as_text else p, n=n)
        shape(h, k, m, "new object")
        numbers(h, k, m, rcell, "new object")
        h.eqv(k.rcell, rcell, "reciprocal cell")

    return f


def construct(h):
    """defaults of names, labels and path; arguments are neither shared nor altered"""
    count = h.choose("count", 4)
    names = h.boolean_choice("names")
    labels = h.boolean_choice("labels")
    rcell, ns, coords, ls, m = build(h, count, None, 100, names, labels)
    given_names, given_labels = list(ns), list(ls)
    kw = {}
    if count or h.boolean_choice("empty_list"):
        kw["coordinates"] = coords
    if names and "coordinates" in kw:
        kw["names"] = given_names
    if labels and "coordinates" in kw:
        kw["labels"] = given_labels
    before = h.snapshot([rcell, coords])
    k, e = h.call(h.w.Kpoints, rcell, **kw)
    h.check(e is None, "an object can be built without names, labels and path")
    if e is not None:
        return
    if not labels and names:
        m.labels = {x: x for x in m.names}
    shape(h, k, m, "defaults")
    table, e = h.call(k.hs_table)
    h.check(e is None and len(table.split("\n")) == count + 1, "one line of the table for every point")
    # edits of the object do not reach the caller's data and the other way round
    k.add_hs_point("NEW", [1, 2, 3], label="new")
    for x in m.names:
        k.hs_coordinates[x][0] = 77
    if m.names:
        k.remove_hs_point(m.names[-1])
    k.rcell[0][0] = 77
    h.check(given_names == ns and given_labels == ls, "lists of names and labels are not altered")
    h.eqv(rcell, before[0], "reciprocal cell of the caller is not altered")
    for a, b in zip(coords, before[1]):
        h.eqv(a, b, "coordinates of the caller are not altered")
    k, e = h.call(h.w.Kpoints, rcell, **kw)
    if e is not None:
        h.fail("a second object can be built from the same data")
        return
    rcell[0][0] = 55
    for c in coords:
        c[1] = 55
    given_names.append("X")
    if given_labels:
        given_labels[0] = "altered"
    for a, b in zip(k.rcell, before[0]):
        h.eqv(list(a), b, "later changes of the caller's cell do not reach the object")
    m.coords = dict(zip(m.names, before[1]))
    shape(h, k, m, "after the caller changed its data")


def own_path(h):
    """nested list given as path is not shared"""
    rcell, ns, coords, ls, m = build(h, 3, [NAMES[:3]], 2)
    p = [list(NAMES[:3])]
    how = h.choose("how", 2)
    if how:
        k = h.w.Kpoints(rcell, coords, ns, ls, path=p, n=2)
    else:
        k = h.w.Kpoints(rcell, coords, ns, ls, n=2)
        k.path = p
    p[0].append("nowhere")
    p.append(["nowhere", "K1"])
    shape(h, k, m, "after the caller changed its path")
    # iterables of other kinds
    k.path = tuple(tuple(s) for s in m.path)
    shape(h, k, m, "path given as tuples")


def wrong_lengths(h):
    count = h.choose("count", 3)
    rcell, ns, coords, ls, m = build(h, count, None, 1)
    wrong = h.choose("wrong", 4)
    other = 0 if count == 2 and wrong >= 2 else count + 1
    values = [f"Q{i}" for i in range(other)]
    kw = {"names": ns, "labels": ls}
    kw["names" if wrong % 2 else "labels"] = values
    r, e = h.call(h.w.Kpoints, rcell, coords, **kw)
    h.check(e is not None and isinstance(e, ValueError), "wrong number of names or labels is a ValueError")


# ---- histories
OPS = ["add", "remove", "path", "badpath", "n", "copy"]


def _same_error(h, e, label):
    h.check(e is not None and isinstance(e, ValueError), label)


def step(h, k, m, rcell, t, op=None):
    op = h.choose(f"op{t}", 6) if op is None else op
    label = f"step {t + 1}"
    if op == 0:  # add a point
        name = ["M", "K1", "K100"][h.choose(f"new{t}", 3)]
        c = h.vec(f"add{t}_")
        relative = h.boolean_choice(f"relative{t}")
        lab = f"$new{t}$" if h.boolean_choice(f"label{t}") else None
        given = list(c)
        if not relative:
            given = h.array(given)
        r, e = h.call(k.add_hs_point, name, given, lab, relative)
        if name in m.names:
            _same_error(h, e, "a point that exists cannot be added")
        else:
            h.check(e is None, "a new point can be added")
            if e is not None:
                return False
            m.names.append(name)
            if relative:
                m.coords[name] = c
            else:
                got = list(k.hs_coordinates[name])
                h.eqv(h.vecmat(got, rcell), c, "absolute coordinates of the added point")
                m.coords[name] = got
            m.labels[name] = name if lab is None else lab
    elif op == 1:  # remove a point that is not on the path
        free = [x for x in m.names if x not in used(m.path)] + ["nowhere"]
        name = free[h.choose(f"gone{t}", len(free))]
        r, e = h.call(k.remove_hs_point, name)
        h.check(e is None, "removing a point")
        if name in m.names:
            m.names.remove(name)
            del m.coords[name], m.labels[name]
    elif op == 2:  # valid path
        x = m.names
        ps = [[[x[-1], x[0]]], [[x[0], x[-1], x[0]], [x[1], x[0]]], [list(x)]]
        p = ps[h.choose(f"path{t}", len(ps))]
        k.path = text(p) if h.boolean_choice(f"text{t}") else [list(s) for s in p]
        m.path = [list(s) for s in p]
    elif op == 3:  # path that is not possible
        x = m.names
        bad = [
            f"{x[0]}-nowhere",
            f"{x[0]}-{x[1]}|{x[0]}-nowhere",
            [[x[0], x[1]], ["nowhere", x[0]]],
            [[x[0], x[1]], [x[0]]],
            f"{x[0]}-{x[1]}|{x[0]}",
            [[x[0], x[1]], []],
            "K1-M-K" if "M" not in x else "K1-K1000",
        ]
        p = bad[h.choose(f"bad{t}", len(bad))]
        _same_error(h, h.call(setattr, k, "path", p)[1], "a path with an undefined point or a section without two points is a ValueError")
    elif op == 4:  # number of points
        v = [0, 3, "2", None][h.choose(f"n{t}", 4)]
        e = h.call(setattr, k, "n", v)[1]
        if isinstance(v, int):
            h.check(e is None, "number of points can be set")
            m.n = v
        else:
            _same_error(h, e, "number of points is an integer")
    else:  # copy: the edits of one do not reach the other
        c = k.copy()
        h.check(not (c is k), "a copy is another object")
        old = copy.copy(m)
        old.names, old.coords, old.labels, old.path = list(m.names), dict(m.coords), dict(m.labels), [list(s) for s in m.path]
        if h.boolean_choice(f"edit_copy{t}"):
            edited, kept = c, k
        else:
            edited, kept = k, c
        edited.add_hs_point("extra", [0, 0, 1])
        edited.path = [["extra", edited.hs_names[0]]]
        edited.n = 7
        edited.hs_coordinates[edited.hs_names[0]][0] = 99
        edited.hs_labels[edited.hs_names[0]] = "altered"
        edited.rcell[0][0] = 99
        shape(h, kept, old, label + ", untouched twin")
        h.eqv(kept.rcell, rcell, "cell of the untouched twin")
        return kept
    shape(h, k, m, label)
    return k


def _history(steps, first):
    def f(h):
        rcell, ns, coords, ls, m = build(h, 3, [NAMES[:2]], 1)
        k = h.w.Kpoints(rcell, coords, ns, ls, path=[NAMES[:2]], n=1)
        for t in range(steps):
            k = step(h, k, m, rcell, t, first if t == 0 else None)
            if k is False:
                return
        numbers(h, k, m, rcell, "after the edits")

    return f


def path_texts(h):
    """text and nested list denote the same path"""
    ps = _section_paths(NAMES)
    p = ps[h.choose("path", len(ps))]
    K = h.w.kpoints
    h.check(K.get_path_as_list(path_as_string=text(p)) == p, "list of a text")
    h.check(K.get_path_as_string(path_as_list=p) == text(p), "text of a list")
    h.check(K.get_path_as_string(tuple(tuple(s) for s in p)) == text(p), "text of tuples")
    for bad in ("", "A", "A-B|C", "A|A-B", "A-B|", 5, None, ["A", "B"]):
        r, e = h.call(K.get_path_as_list, bad)
        _same_error(h, e, "a text with a section of less than two points, or no text at all, is a ValueError")
    for bad in (5, None, [5], [["A", "B"], 3]):
        r, e = h.call(K.get_path_as_string, bad)
        _same_error(h, e, "something that is not a nested list is a ValueError")


def _path_chars(parts):
    """texts with symbolic names"""

    def f(h):
        p, i = [], 0
        for size in parts:
            s = []
            for _ in range(size):
                s.append(h.string(f"s{i}", 1 + (i % 2), 65, 90))
                i += 1
            p.append(s)
        t = h.w.kpoints.get_path_as_string(p)
        want = h.text("")
        for a, s in enumerate(p):
            for b, x in enumerate(s):
                want = want + (("-" if b else "|" if a else "") + x)
        h.check(t == want, "text of symbolic names")

    return f


def table(h):
    """relative and absolute coordinates in the table"""
    count = 1 + h.choose("count", 3)
    rcell, ns, coords, ls, m = build(h, count, None, 1)
    d = (8, 3)[h.choose("decimals", 2)]
    k = h.w.Kpoints(rcell, coords, ns, ls, n=1)
    lines = (k.hs_table() if d == 8 else k.hs_table(decimals=d)).split("\n")
    h.check(len(lines) == count + 1, "lines of the table")
    h.check(lines[0].split() == ["Name", "rel_b1", "rel_b2", "rel_b3", "k_x", "k_y", "k_z"], "header of the table")
    half = h.q("6/10") * h.q(f"1/{10**d}")
    for line, x in zip(lines[1:], ns):
        w = line.split()
        h.check(len(w) == 7 and w[0] == x, "words of a line of the table")
        if len(w) != 7:
            continue
        want = list(coords[ns.index(x)]) + h.vecmat(coords[ns.index(x)], rcell)
        for a, b in zip(w[1:], want):
            h.check(h.close(number(h, a), b, half), "numbers of the table")


def number(h, s):
    if h.symbolic:
        from symx import shims

        return shims.sx_float(s)
    return float(s)


def _crystal(t, number, conv, reversal):
    """from_crystal is the path and the points of the crystal in its own reciprocal cell"""

    def f(h):
        s = crystals.Std(h, t)
        if t in EXTRA:
            EXTRA[t](h, s.p)
        pos, types = crystals.lattice_only(h, t)
        cell, atoms, data, _ = crystals.dataset(h, t, number, s.rows, pos, types, rot=1)
        kw = dict(convention=conv, with_time_reversal=reversal, spglib_data=data)
        path, pts = h.w.kpoints.get_path_and_points(cell, atoms, relative=True, **kw)
        k = h.w.Kpoints.from_crystal(cell, atoms, n=3, **kw)
        h.check(k.path_string == path, "path of the crystal")
        h.check(sorted(k.hs_names) == sorted(pts), "points of the crystal")
        for x in pts:
            if x in k.hs_coordinates:
                h.eqv(list(k.hs_coordinates[x]), list(pts[x]), f"coordinates of {x}")
            if x in k.hs_labels:
                h.check(k.hs_labels[x] == plot_label(x), f"label of {x}")
        h.eqv(k.rcell, h.w.cell.get_reciprocal(cell), "reciprocal cell of the crystal")
        h.check(k.n == 3, "number of points")
        m = h.w.Kpoints.from_crystal(cell, atoms, spglib_data=data)
        h.check(m.n == 100, "default number of points")
        p2, _ = h.w.kpoints.get_path_and_points(cell, atoms, data)
        h.check(m.path_string == p2, "default convention")

    return f


GREEK = {"GAMMA": "\\Gamma", "DELTA": "\\Delta", "LAMBDA": "\\Lambda", "SIGMA": "\\Sigma"}


def plot_label(name):
    prime = name.endswith("_P")
    base = name[:-2] if prime else name
    letters = base.rstrip("0123456789")
    digits = base[len(letters):]
    up = "^{\\prime}" if prime else ""
    low = f"_{digits}" if digits else ""
    if letters in GREEK:
        return f"${GREEK[letters]}{low}{up}$"
    return letters + (f"${low}{up}$" if low or up else "")


def labels_table(h):
    """plot labels of all names"""
    t = h.w.constants.HS_PLOT_NAMES
    names = list(t)
    for x in names:
        h.check(t[x] == plot_label(x), f"plot label of {x}")
        if x != "GAMMA":
            other = x[:-2] if x.endswith("_P") else x + "_P"
            h.check(other in t, f"plot label of {other}")


def removed_from_path(h):
    rcell, ns, coords, ls, m = build(h, 3, [NAMES[:3]], 1)
    k = h.w.Kpoints(rcell, coords, ns, ls, n=1)
    name = NAMES[h.choose("gone", 3)]
    r, e = h.call(k.remove_hs_point, name)
    if e is not None:
        h.check(name in k.hs_names, "a point that cannot be removed stays")
    h.check(used(k.path) <= set(k.hs_names), "a point of the path was removed: every point of the path exists")


def jobs(tier):
    T = tier == "thorough"
    r = [Job(f"sections_n{n}", _sections(n), wall=300, bounds=f"8 paths of up to 7 sections over 4 points, {n} points in between, all coordinates and cells") for n in ((0, 1, 2, 3, 4, 6) if T else (0, 1, 3))]
    for n in (1, 2) + ((3,) if T else ()):
        for op in range(6):
            r.append(Job(f"history_{n}_{OPS[op]}", _history(n, op), wall=800 if T else 300, paths=400000, bounds=f"every history of {n} operations starting with '{OPS[op]}' on an object with 3 points, all coordinates and cells"))
    for f in (construct, own_path, wrong_lengths, path_texts, table, labels_table, removed_from_path):
        r.append(Job(f.__name__, f, wall=200, bounds="see the job"))
    for parts in ((2,), (3, 2), (2, 2, 2)):
        r.append(Job("path_chars_" + "".join(map(str, parts)), _path_chars(parts), wall=60, bounds="all names of 1 or 2 capital letters"))
    for t, number, conv, rev in (
        ("cP", 200, "HPKOT", True), ("cF", 216, "SC", False), ("tI", 79, "HPKOT", False), ("oP", 16, "SC", False), ("hP", 149, "HPKOT", False), ("hR", 155, "SC", True),
    ):
        r.append(Job(f"crystal_{t}_{conv}_{int(rev)}", _crystal(t, number, conv, rev), wall=200, bounds="all lattice parameters"))
    return r
