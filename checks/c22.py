"""PlotlyEngine: what is handed to plotly is the object that was asked for, in the right place, once, and in view."""

import re

from symx.job import Job

ASSUMPTIONS = [
    "plotly's figure is replaced by a recorder (PlotlyEngine accepts a user's figure): how plotly renders the traces it is given is trusted",
    "wulfric.cell.get_wigner_seitz_cell is replaced by a stub that returns arbitrary vertices and a list of edges (C06 decides the function itself)",
    "cells, shifts, points and positions are arbitrary reals; number of points, atoms, sections: 1..4; names are fixed strings",
]


MAX_POINTS = 2


class Figure:
    def __init__(self, h):
        self.h = h
        self.traces = []  # (trace, row, col)
        self.scenes = []  # (settings, row, col)
        self.layouts = []
        self.shown = 0
        self.files = []
        self.views = []

    def _one(self, t):
        if not isinstance(t, dict) and hasattr(t, "to_plotly_json"):
            t = t.to_plotly_json()
        return t

    def add_traces(self, data, rows=None, cols=None, **kw):
        many = isinstance(data, (list, tuple))
        data = list(data) if many else [data]
        for i, t in enumerate(data):
            r = rows[i] if isinstance(rows, (list, tuple)) else rows
            c = cols[i] if isinstance(cols, (list, tuple)) else cols
            self.traces.append((self._one(t), r if r is not None else 1, c if c is not None else 1))
        return self

    def add_trace(self, trace, row=None, col=None, **kw):
        return self.add_traces([trace], rows=row, cols=col)

    def update_layout(self, *a, **kw):
        for x in a:
            kw.update(x)
        self.layouts.append(kw)
        return self

    def update_scenes(self, patch=None, row=None, col=None, **kw):
        kw.update(patch or {})
        self.scenes.append((kw, row, col))
        return self

    def show(self, *a, **kw):
        self.shown += 1

    def write_html(self, file=None, *a, **kw):
        self.files.append((file, a, kw))

    # what is set for the subplot at the end
    def setting(self, row, col, *path):
        found = None
        for kw, r, c in self.scenes:
            if (r is None or r == row) and (c is None or c == col):
                v = _get(kw, path)
                if v is not None:
                    found = v
        return found


def _get(kw, path):
    flat = "_".join(path)
    if flat in kw:
        return kw[flat]
    head = kw.get(path[0])
    if len(path) == 1 or head is None:
        return head if len(path) == 1 else None
    return _get(head, path[1:])


def _engine(h, fig=None):
    fig = fig or Figure(h)
    return fig, h.w.PlotlyEngine(fig=fig)


def _coords(t):
    n = len(t["x"])
    return [[t[k][i] for k in "xyz"] for i in range(n)]


def _segments(fig, h=None):
    """every straight piece of every line"""
    out = []
    for t, r, c in fig.traces:
        if t.get("type") == "scatter3d" and "lines" in t.get("mode", ""):
            p = _coords(t)
            run = []
            for q in p + [None]:
                if q is None or any(v is None for v in q):
                    out += list(zip(run, run[1:]))
                    run = []
                else:
                    run.append(q)
    return out


def _add(*vs):
    return [sum(x) for x in zip(*vs)]


def _same_point(h, a, b):
    return h.And(*[h.eqb(x, y) for x, y in zip(a, b)])


def _same_segment(h, s, t):
    return h.Or(h.And(_same_point(h, s[0], t[0]), _same_point(h, s[1], t[1])),
                h.And(_same_point(h, s[0], t[1]), _same_point(h, s[1], t[0])))


def _drawn(h, got, want, label):
    """the drawn pieces are the wanted ones, each once"""
    h.check(len(got) == len(want), f"{label}: number of edges drawn")
    for g in got:
        h.check(h.Or(False, *[_same_segment(h, g, x) for x in want]), f"{label}: nothing else is drawn")
    for x in want:
        h.check(h.Or(False, *[_same_segment(h, g, x) for g in got]), f"{label}: every edge is drawn")


def _subplot(h, fig, row, col, label):
    h.check(all((r, c) == (row, col) for _, r, c in fig.traces), f"{label}: drawn in the requested subplot")


def _legend(h, fig, wanted, group, label):
    shown = [t for t, _, _ in fig.traces if t.get("showlegend", True) is not False]
    if wanted is None:
        h.check(len(shown) == 0, f"{label}: no entry in the legend without a label")
    else:
        h.check(len(shown) == 1 and shown[0].get("name") == wanted, f"{label}: the label is in the legend once")
    groups = {t.get("legendgroup") for t, _, _ in fig.traces}
    h.check(len(groups) == 1 and None not in groups, f"{label}: one legend group for the object")
    if group is not None:
        h.check(groups == {group}, f"{label}: the requested legend group")


def _options(h):
    """legend label, group, subplot"""
    k = h.choose("options", 3)
    return [
        (None, None, 1, 1),
        ("Label", None, 1, 2),
        ("Label", "grp", 3, 2),
    ][k]


def _in_view(h, fig, label, scale=False):
    """after show()/save(): everything that is drawn is inside the axes of its subplot, same scale along the axes"""
    done = set()
    for t, r, c in fig.traces:
        limits = {}
        for k in "xyz":
            lim = fig.setting(r, c, f"{k}axis", "range")
            if lim is None:
                continue  # plotly chooses the range itself: everything is in view
            limits[k] = list(lim)
            for v in t[k]:
                if v is None:
                    continue
                h.lec(limits[k][0], v, f"{label}: inside the displayed range")
                h.lec(v, limits[k][1], f"{label}: inside the displayed range")
        if (r, c) in done:
            continue
        done.add((r, c))
        if fig.setting(r, c, "aspectmode") == "manual" and len(limits) == 3:
            a = {k: fig.setting(r, c, "aspectratio", k) for k in "xyz"}
            for k in "xyz":
                if not h.symbolic:
                    import math

                    h.check(math.isfinite(a[k]), f"{label}: proportions are finite")
                h.check(h.lt(0, a[k]), f"{label}: proportions are positive")
            for p, q in ("xy", "yz") if scale else ():
                lp, lq = limits[p][1] - limits[p][0], limits[q][1] - limits[q][0]
                h.eq(a[p] * lq, a[q] * lp, f"{label}: same scale along the axes")


def _finish(h, fig, pe, label, deep=False):
    if deep:
        r, e = h.call(pe.show)
        h.check(e is None, f"{label}: show() raises nothing")
        if e is None:
            h.check(fig.shown == 1, f"{label}: shown")
            _in_view(h, fig, label)


def _unchanged(h, before, after, label):
    if isinstance(before, dict):
        h.check(isinstance(after, dict) and list(before) == list(after), label)
        for k in before:
            if k in after:
                _unchanged(h, before[k], after[k], label)
    elif isinstance(before, (list, tuple)) or len(getattr(before, "shape", ())):
        h.check(len(before) == len(after), label)
        for x, y in zip(list(before), list(after)):
            _unchanged(h, x, y, label)
    elif isinstance(before, str):
        h.check(before == after, label)
    else:
        h.eq(before, after, label)


def points(h):
    n = 1 + h.choose("n", MAX_POINTS)
    pts = [h.vec(f"p{i}_") for i in range(n)]
    label, group, row, col = _options(h)
    given = h.array(pts) if h.boolean_choice("as_array") else [list(p) for p in pts]
    before = h.snapshot(given)
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_points, given, legend_label=label, legend_group=group, row=row, col=col, colors="#123456")
    h.check(e is None, "points: no error")
    if e is not None:
        return
    got = []
    for t, _, _ in fig.traces:
        h.check(t["type"] == "scatter3d" and t["mode"] == "markers", "points: markers")
        h.check(t["marker"]["color"] == "#123456", "points: colour")
        got += _coords(t)
    h.check(len(got) == n, "points: number of markers")
    if len(got) == n:
        for g, p in zip(got, pts):
            h.eqv(g, p, "points: coordinates")
    _unchanged(h, before, given, "points: the argument is not changed")
    _subplot(h, fig, row, col, "points")
    _legend(h, fig, label, group, "points")
    _finish(h, fig, pe, "points", deep=True)


def line(h):
    a, b = h.vec("a"), h.vec("b")
    label, group, row, col = _options(h)
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_line, a, b, color="#123456", legend_label=label, legend_group=group, row=row, col=col)
    h.check(e is None, "line: no error")
    if e is not None:
        return
    _drawn(h, _segments(fig), [(list(a), list(b))], "line")
    h.check(all(t["line"]["color"] == "#123456" for t, _, _ in fig.traces), "line: colour")
    _subplot(h, fig, row, col, "line")
    _legend(h, fig, label, group, "line")
    _finish(h, fig, pe, "line", deep=True)


def _vectors(h, fig, want, texts, label):
    """arrow heads and texts: tip at the end of the vector, pointing along it, text beyond the tip"""
    cones = [t for t, _, _ in fig.traces if t["type"] == "cone"]
    written = [t for t, _, _ in fig.traces if t["type"] == "scatter3d" and t["mode"] == "text"]
    h.check(len(cones) == len(want), f"{label}: number of arrows")
    h.check(len(written) == (len(want) if texts else 0), f"{label}: number of labels")
    if len(cones) == len(want):
        for t, (a, b) in zip(cones, want):
            v = [y - x for x, y in zip(a, b)]
            h.check(t.get("anchor") == "tip", f"{label}: position of the arrow is its tip")
            h.eqv(_coords(t)[0], b, f"{label}: tip of the arrow")
            d = [t[k][0] for k in "uvw"]
            _along(h, d, v, f"{label}: direction of the arrow", 0)
    if texts and len(written) == len(want):
        for t, (a, b), s in zip(written, want, texts):
            v = [y - x for x, y in zip(a, b)]
            shown = t["text"]
            h.check((shown if isinstance(shown, str) else list(shown)[0]) == s, f"{label}: text at the vector")
            d = [x - y for x, y in zip(_coords(t)[0], a)]
            _along(h, d, v, f"{label}: text is beyond the tip", 1)


def _along(h, d, v, label, least):
    """d = t v with t > 0, t >= least"""
    n = h.dot(v, v)
    p = h.dot(d, v)
    for i in range(3):
        j = (i + 1) % 3
        h.eq(d[i] * v[j], d[j] * v[i], label)
    h.check(h.Or(h.eqb(n, 0), h.And(h.lt(0, p), h.le(least * n, p))), label)


def vector(h):
    a, b = h.vec("a"), h.vec("b")
    label, group, row, col = _options(h)
    text = "vec" if h.boolean_choice("text") else None
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_vector, a, b, color="#123456", vector_label=text, legend_label=label, legend_group=group, row=row, col=col)
    h.check(e is None, "vector: no error")
    if e is not None:
        return
    _drawn(h, _segments(fig), [(list(a), list(b))], "vector")
    _vectors(h, fig, [(list(a), list(b))], [text] if text else None, "vector")
    _subplot(h, fig, row, col, "vector")
    _legend(h, fig, label, group, "vector")
    _finish(h, fig, pe, "vector", deep=text is not None)


def _shift(h):
    """(0, 0, 0) by default, a list, a tuple or an array"""
    k = h.choose("shift", 4)
    if k == 0:
        return [0, 0, 0], {}
    s = h.vec("s")
    return list(s), {"shift": [list(s), tuple(s), h.array(s)][k - 1]}


def cell(h):
    m = h.mat("c")
    s, kw = _shift(h)
    label, group, row, col = _options(h)
    arrows = h.boolean_choice("arrows")
    given = h.array(m) if h.boolean_choice("as_array") else [list(r) for r in h.rows(m)]
    before = h.snapshot(given)
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_cell, given, plot_vectors=arrows, vector_label="q", legend_label=label, legend_group=group, row=row, col=col, **kw)
    h.check(e is None, "cell: no error")
    if e is not None:
        return
    v = [list(r) for r in h.rows(m)]
    edges = []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        for o in (s, _add(s, v[j]), _add(s, v[k]), _add(s, v[j], v[k])):
            edges.append((o, _add(o, v[i])))
    vectors = [(s, _add(s, x)) for x in v]
    got = _segments(fig)
    if arrows:
        _drawn(h, got, edges + vectors, "cell")
    else:
        _drawn(h, got, edges, "cell")
    _vectors(h, fig, vectors if arrows else [], ["q1", "q2", "q3"] if arrows else None, "cell")
    _unchanged(h, before, given, "cell: the argument is not changed")
    _subplot(h, fig, row, col, "cell")
    _legend(h, fig, label, group, "cell")


EDGES = [(0, 1), (1, 2), (3, 0)]


def _ws(reciprocal):
    name = "Brillouin zone" if reciprocal else "Wigner-Seitz cell"

    def fn(h):
        m = h.mat("c")
        h.assume(h.Not(h.eqb(h.det(m), 0)))
        s, kw = _shift(h)
        label, group, row, col = _options(h)
        arrows = h.boolean_choice("arrows")
        given = h.array(m) if h.boolean_choice("as_array") else [list(r) for r in h.rows(m)]
        before = h.snapshot(given)
        seen = []
        corner = [h.vec(f"w{i}_") for i in range(4)]

        def stub(cell):
            seen.append(cell)
            return h.array(corner), list(EDGES)

        h.stub_function("cell.get_wigner_seitz_cell", stub)
        fig, pe = _engine(h)
        plot = pe.plot_brillouin_zone if reciprocal else pe.plot_wigner_seitz_cell
        _, e = h.call(plot, given, plot_vectors=arrows, vector_label="q", legend_label=label, legend_group=group, row=row, col=col, **kw)
        h.check(e is None, f"{name}: no error")
        if e is not None:
            return
        h.check(len(seen) >= 1, f"{name}: computed from the cell")
        rows = [list(r) for r in h.rows(m)]
        if reciprocal:
            d = h.det(m)
            v = []
            for i in range(3):
                a, b = rows[(i + 1) % 3], rows[(i + 2) % 3]
                v.append([2 * h.PI * (a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3]) / d for k in range(3)])
        else:
            v = rows
        for c in seen:
            for r, x in zip(h.rows(c), v):
                h.eqv(list(r), x, f"{name}: of the right lattice")
        edges = [(_add(s, list(corner[i])), _add(s, list(corner[j]))) for i, j in EDGES]
        vectors = [(s, _add(s, x)) for x in v]
        got = _segments(fig)
        if reciprocal:
            # the vectors come first or last: their ends are known from the arrows
            _pairs(h, got, edges, vectors if arrows else [], name)
        else:
            _drawn(h, got, edges + (vectors if arrows else []), name)
        _vectors(h, fig, vectors if arrows else [], ["q1", "q2", "q3"] if arrows else None, name)
        _unchanged(h, before, given, f"{name}: the argument is not changed")
        _subplot(h, fig, row, col, name)
        _legend(h, fig, label, group, name)

    return fn


def _pairs(h, got, edges, vectors, label):
    """as _drawn, for edges that do not depend on the cell: these are told from the vectors by the legend"""
    h.check(len(got) == len(edges) + len(vectors), f"{label}: number of edges drawn")
    for want in edges:
        h.check(h.Or(False, *[_same_segment(h, g, want) for g in got]), f"{label}: every edge is drawn")
    for want in vectors:
        h.check(h.Or(False, *[_same_segment(h, g, want) for g in got]), f"{label}: every vector is drawn")


NAMES = ["GAMMA", "X", "M", "K1"]
PATHS = ["GAMMA-X-M", "GAMMA-X|M-K1", "X-M-X|K1-GAMMA", "GAMMA-X|X-M|K1-GAMMA"]


def _kpoints(h, path):
    coords = [h.vec(f"k{i}_") for i in range(4)]
    rcell = h.mat("r")
    kp = h.w.Kpoints(rcell, coordinates=coords, names=NAMES, labels=["$\\Gamma$", "X", "M", "K$_1$"], path=path)
    return kp, coords, rcell


def kpath(h):
    path = PATHS[h.choose("path", len(PATHS))]
    kp, coords, rcell = _kpoints(h, path)
    s, kw = _shift(h)
    label, group, row, col = _options(h)
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_kpath, kp, color="#123456", legend_label=label, legend_group=group, row=row, col=col, **kw)
    h.check(e is None, "kpath: no error")
    if e is not None:
        return
    at = {n: _add(s, h.vecmat(c, rcell)) for n, c in zip(NAMES, coords)}
    want = []
    for sub in path.split("|"):
        sub = sub.split("-")
        want += [(at[a], at[b]) for a, b in zip(sub, sub[1:])]
    got = _segments(fig)
    h.check(len(got) == len(want), "kpath: number of segments")
    if len(got) == len(want):
        for g, x in zip(got, want):
            h.eqv(g[0], x[0], "kpath: start of a segment")
            h.eqv(g[1], x[1], "kpath: end of a segment")
    _subplot(h, fig, row, col, "kpath")
    _legend(h, fig, label, group, "kpath")


def kpath_view(h):
    path = ["GAMMA-X|M-K1", "GAMMA-X"][h.choose("path", 2)]
    coords = [[h.real(f"k{i}"), 0, 0] for i in range(4)]
    kp = h.w.Kpoints(h.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), coordinates=coords, names=NAMES, labels=NAMES, path=path)
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_kpath, kp)
    h.check(e is None, "kpath: no error")
    if e is None:
        _finish(h, fig, pe, "kpath", deep=True)


def _numbers(h, text):
    if h.symbolic:
        from symx import sym

        found = re.findall(f"{sym.T0}\\d+{sym.T1}|-?\\d+\\.\\d+", text)
        return [sym.parse_token(x) if sym.is_token(x) else h.q(x) for x in found]
    return [float(x) for x in re.findall(r"-?\d+\.\d+", text)]


def _shows(h, text, values, label):
    nums = _numbers(h, text)
    h.check(len(nums) == len(values), f"{label}: numbers in the hover text")
    if len(nums) == len(values):
        for x, v in zip(nums, values):
            h.lec(x - v, h.q("0.001"), f"{label}: numbers in the hover text are the coordinates")
            h.lec(v - x, h.q("0.001"), f"{label}: numbers in the hover text are the coordinates")


def kpoints(h):
    path = PATHS[h.choose("path", 2)]
    kp, coords, rcell = _kpoints(h, path)
    s, kw = _shift(h)
    label, group, row, col = _options(h)
    only = h.boolean_choice("only")
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_kpoints, kp, color="#123456", legend_label=label, legend_group=group, row=row, col=col, only_from_kpath=only, **kw)
    h.check(e is None, "kpoints: no error")
    if e is not None:
        return
    used = set(re.split(r"[-|]", path))
    want = [(n, c) for n, c in zip(NAMES, coords) if n in used or not only]
    got, text, hover = [], [], []
    for t, _, _ in fig.traces:
        got += _coords(t)
        text += list(t["text"])
        hover += list(t["hovertext"])
    h.check(sorted(text) == sorted(n for n, _ in want), "kpoints: names of the points")
    h.check(len(got) == len(text) == len(hover), "kpoints: one text for a point")
    if len(got) == len(text) == len(hover):
        labels = dict(zip(NAMES, ["$\\Gamma$", "X", "M", "K$_1$"]))
        for g, n, x in zip(got, text, hover):
            c = dict(want).get(n)
            if c is None:
                continue
            p = _add(s, h.vecmat(c, rcell))
            h.eqv(g, p, "kpoints: position of the point")
            h.check(n in x and labels[n] in x, "kpoints: name and label in the hover text")
            _shows(h, x.replace(labels[n], ""), list(c) + list(p), "kpoints")
    _subplot(h, fig, row, col, "kpoints")
    _legend(h, fig, label, group, "kpoints")


def lattice(h):
    m = h.mat("c")
    s, kw = _shift(h)
    rng = [(0, 0, 0), (1, 0, 0), (0, 1, 2)][h.choose("range", 3)]
    label, group, row, col = _options(h)
    given = h.array(m) if h.boolean_choice("as_array") else [list(r) for r in h.rows(m)]
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_lattice, given, range=rng, legend_label=label, legend_group=group, row=row, col=col, **kw)
    h.check(e is None, "lattice: no error")
    if e is not None:
        return
    got = [p for t, _, _ in fig.traces for p in _coords(t)]
    want = [_add(s, h.vecmat([i, j, k], m)) for i in range(-rng[0], rng[0] + 1) for j in range(-rng[1], rng[1] + 1) for k in range(-rng[2], rng[2] + 1)]
    h.check(len(got) == len(want), "lattice: number of points")
    for p in want:
        h.check(h.Or(False, *[_same_point(h, p, g) for g in got]), "lattice: every point is drawn")
    _subplot(h, fig, row, col, "lattice")
    _legend(h, fig, label, group, "lattice")


ATOMS = [["Cr1", "Br2", "xx"], ["I", "Cr"], ["O3"]]
SPECIES = [["Cr", "Br", "X"], ["I", "Cr"], ["O"]]


def atoms(h):
    m = h.mat("c")
    s, kw = _shift(h)
    k = h.choose("atoms", len(ATOMS))
    n = len(ATOMS[k])
    pos = [h.vec(f"p{i}_") for i in range(n)]
    label, group, row, col = (None, None, 1, 1) if kw else _options(h)
    how = h.choose("given", 4)  # names, names + species, species, names + colours
    a = {"positions": [list(p) for p in pos]}
    colours = h.w.constants.ATOM_COLORS
    want = [colours[x] for x in SPECIES[k]]
    names = list(ATOMS[k])
    extra = {}
    if how in (0, 1, 3):
        a["names"] = list(names)
    else:
        names = [f"X{i + 1}" for i in range(n)]
    if how in (1, 2):
        a["species"] = ["Fe", "Cl", "La"][:n]
        want = [colours[x] for x in a["species"]]
    if how == 3:
        want = ["#102030", "#ffeedd", "#888888"][:n]
        extra["colors"] = list(want)
    form = h.choose("form", 2)  # both as lists or both as arrays
    if form:
        a["positions"] = h.array(pos)
    a["spin"] = [f"spin{i}" for i in range(n)]
    before = h.snapshot(a)
    hover_on = h.boolean_choice("hover")
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_atoms, h.array(m) if form else [list(r) for r in h.rows(m)], a, legend_label=label,
                  legend_group=group, row=row, col=col, add_hoverinfo=hover_on, **extra, **kw)
    h.check(e is None, "atoms: no error")
    if e is not None:
        return
    _unchanged(h, before, a, "atoms: the argument is not changed")
    got, text, colour, hover = [], [], [], []
    for t, _, _ in fig.traces:
        got += _coords(t)
        text += list(t["text"])
        colour += list(t["marker"]["color"])
        if hover_on:
            hover += list(t["hovertext"])
    h.check(len(got) == n, "atoms: number of atoms")
    h.check(text == names, "atoms: names")
    h.check(colour == want, "atoms: colours")
    if len(got) == n:
        for i, (g, p) in enumerate(zip(got, pos)):
            q = _add(s, h.vecmat(p, m))
            h.eqv(g, q, "atoms: position")
            if hover_on and len(hover) == n:
                h.check(f"spin{i}" in hover[i], "atoms: properties of the atom in its hover text")
                h.check(all(f"spin{j}" not in hover[i] for j in range(n) if j != i), "atoms: hover text is about the atom")
                if "names" in a:
                    h.check(names[i] in hover[i], "atoms: name in the hover text")
                _shows(h, hover[i], list(p) + list(q), "atoms")
    if hover_on:
        h.check(len(hover) == n, "atoms: one hover text for an atom")
    _subplot(h, fig, row, col, "atoms")
    _legend(h, fig, label, group, "atoms")


def atom_colours(h):
    """any colour that plotly understands, one for all atoms or one per atom"""
    pos = [h.vec("p"), h.vec("q")]
    options = ["#ff8800", ["#ff8800", "#001122"], "red", ["red", "rgb(1, 2, 3)"], ["#f80", "#ff8800"], ["black", "#ff8800"]]
    c = options[h.choose("colours", len(options))]
    fig, pe = _engine(h)
    _, e = h.call(pe.plot_atoms, h.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), {"names": ["Cr1", "Br"], "positions": h.array(pos)}, colors=c)
    h.check(e is None, "atoms: a colour that plotly supports is not an error")
    if e is not None:
        return
    for t, _, _ in fig.traces:
        got = t["marker"]["color"]
        if isinstance(got, str):
            h.check(got == c, "atoms: colours")
        else:
            h.check(list(got) == ([c, c] if isinstance(c, str) else c), "atoms: colours")


def view(h):
    """several objects in one or two subplots: all of them are in view"""
    k = h.choose("what", 8)
    two = h.boolean_choice("two")
    a, b = [h.real("a0"), h.q("0.5"), h.real("a2")], [h.real("b0"), h.real("b1"), 1]
    eye = h.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    fig, pe = _engine(h)

    def draw(i, p, **kw):
        p = list(p)
        if i == 0:
            return h.call(pe.plot_points, [p], **kw)
        if i == 1:
            return h.call(pe.plot_line, p, [1, 2, 3], **kw)
        if i == 2:
            return h.call(pe.plot_vector, [0, 0, 0], p, vector_label="v", **kw)
        if i == 3:
            return h.call(pe.plot_lattice, eye, range=(0, 0, 1), shift=p, **kw)
        if i == 4:
            return h.call(pe.plot_atoms, eye, {"names": ["Cr"], "positions": [p]}, **kw)
        if i == 5:
            kp = h.w.Kpoints(eye, coordinates=[p, [0, 0, 0]], names=["A", "B"], labels=["A", "B"], path="A-B")
            return h.call(pe.plot_kpoints, kp, **kw)
        if i == 7:
            return h.call(pe.plot_cell, eye, shift=[p[0], 0, 0], plot_vectors=False, **kw)
        if i == 6:
            kp = h.w.Kpoints(eye, coordinates=[p, [0, 0, 0]], names=["A", "B"], labels=["A", "B"], path="A-B")
            return h.call(pe.plot_kpath, kp, **kw)

    for i, p, kw in ((k, a, {"row": 1, "col": 1}), (0, b, {"row": 1, "col": 2} if two else {"row": 1, "col": 1})):
        _, e = draw(i, p, **kw)
        h.check(e is None, "view: no error")
        if e is not None:
            return
    if h.boolean_choice("save"):
        _, e = h.call(pe.save, "name.html")
        h.check(e is None, "view: save() raises nothing")
        h.check([f[0] for f in fig.files] == ["name.html"], "view: saved in the requested file")
    else:
        _, e = h.call(pe.show)
        h.check(e is None, "view: show() raises nothing")
        h.check(fig.shown == 1, "view: shown")
    if e is None:
        _in_view(h, fig, "view")


def view_both(h):
    """an object that may extend the view to both sides at once"""
    ax = h.choose("axis", 3)
    x = [h.real(f"x{i}") for i in range(4)]
    kind = h.choose("second", 2)
    fig, pe = _engine(h)

    def p(v, o):
        r = [h.q(o), h.q(o), h.q(o)]
        r[ax] = v
        return r

    h.call(pe.plot_points, [p(x[0], 0), p(x[1], 1)])
    if kind == 0:
        _, e = h.call(pe.plot_points, [p(x[2], 0), p(x[3], 1)])
    else:
        _, e = h.call(pe.plot_line, p(x[2], 0), p(x[3], 1))
    h.check(e is None, "view of two objects: no error")
    _, e = h.call(pe.show)
    h.check(e is None, "view of two objects: show() raises nothing")
    if e is None:
        _in_view(h, fig, "view of two objects")


def scale(h):
    """two points at the corners of any box, flat ones included: all axes have the same scale"""
    a = h.vec("a")
    d = [h.real(f"d{i}", nonneg=True) for i in range(3)]
    fig, pe = _engine(h)
    h.call(pe.plot_points, [list(a), _add(a, d)])
    _, e = h.call(pe.show)
    h.check(e is None, "scale: show() raises nothing")
    if e is None:
        _in_view(h, fig, "scale", scale=True)


def legend(h):
    """position of the legend: four words in any case, everything else is an error and nothing is shown"""
    n = 3 + h.choose("length", 4)
    s = h.string("position", n)
    low = s.lower()
    words = ["top", "bottom", "left", "right"]
    fig, pe = _engine(h)
    h.call(pe.plot_points, [[0, 0, 0], [1, 1, 1]])
    save = h.boolean_choice("save")
    axes = h.boolean_choice("axes")
    if save:
        _, e = h.call(pe.save, "name.html", legend_position=s, axes_visible=axes, kwargs_write_html={"full_html": False}, title="T")
    else:
        _, e = h.call(pe.show, legend_position=s, axes_visible=axes, title="T")
    ok = h.Or(*[low == h.text(w) for w in words if len(w) == n], False)
    if e is None:
        h.check(ok, "legend: only the four positions are accepted")
        h.check((fig.shown, len(fig.files)) == ((0, 1) if save else (1, 0)), "legend: shown or saved once")
        if save and fig.files:
            h.check(fig.files[0][0] == "name.html" and fig.files[0][2].get("full_html") is False, "legend: arguments for plotly are passed on")
        h.check(any(x.get("title") == "T" for x in fig.layouts), "legend: arguments for plotly are passed on")
        last = [x["legend"] for x in fig.layouts if "legend" in x][-1]
        side = [w for w in words if len(w) == n and h.truth(low == h.text(w))]
        if side:
            outside = {"top": ("y", 1, "yanchor", "bottom"), "bottom": ("y", 0, "yanchor", "top"), "left": ("x", 0, "xanchor", "right"), "right": ("x", 1, "xanchor", "left")}[side[0]]
            h.check(last[outside[0]] == outside[1] and last[outside[2]] == outside[3], "legend: on the requested side of the plot")
        for k in "xyz":
            h.check(fig.setting(1, 1, f"{k}axis", "visible") in ((None, True) if axes else (False,)), "legend: axes are hidden on request")
    else:
        h.check(h.exc_name(e) == "ValueError", "legend: ValueError for a wrong position")
        h.check(h.Not(ok), "legend: the four positions are accepted in any case")
        h.check(fig.shown == 0 and not fig.files, "legend: nothing is shown after an error")


def jobs(tier):
    global MAX_POINTS
    MAX_POINTS = 2 if tier == "quick" else 3
    t = 1 if tier == "quick" else 6
    out = []
    for f in (points, line, vector, cell, kpath, kpath_view, kpoints, lattice, atoms, atom_colours, view, view_both, scale, legend):
        out.append(Job(f.__name__, f, wall=100 * t, paths=3000, check_ms=10000, bounds=ASSUMPTIONS[2]))
    out.append(Job("wigner_seitz", _ws(False), wall=200 * t, paths=3000, check_ms=10000, bounds=ASSUMPTIONS[1]))
    out.append(Job("brillouin", _ws(True), wall=200 * t, paths=3000, check_ms=10000, bounds=ASSUMPTIONS[1]))
    return out
