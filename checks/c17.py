"""load_poscar, dump_poscar: round trip and the POSCAR format."""

import io
import os
import shutil
import tempfile

from symx.job import Job

ASSUMPTIONS = [
    "a printed number with d decimals is a multiple of 10^-d at most half a unit away from the value (any such value); its text has no blank inside",
    "the cell is not singular; Cartesian round trip: neither is the cell made of the printed numbers",
    "text files are read with universal newlines",
]


class File:
    """text file: what open(..., 'w') and open(..., 'r') do"""

    def __init__(self, text=None):
        self.text = "" if text is None else text
        self.written = []

    def write(self, s):
        self.written.append(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def content(self):
        return "".join(self.written)

    def readlines(self):
        return io.StringIO(self.text.replace("\r\n", "\n").replace("\r", "\n"), newline="\n").readlines()

    def read(self):
        return "".join(self.readlines())

    def __iter__(self):
        return iter(self.readlines())


def num(x):
    """text of a number with all its digits"""
    return repr(float(x)) if isinstance(x, (int, float)) else str(x)


def value(h, s):
    if h.symbolic:
        from symx import shims

        return shims.sx_float(s)
    return float(s)


def cell_of(h, name="a"):
    cell = h.mat(name)
    h.assume(h.Not(h.eqb(h.det(cell), 0)))
    return cell


# ---- writing
def parse(h, text, label):
    """independent reader of what was written: (comment, cell, species, counts, mode, coordinates)"""
    lines = text.split("\n")
    h.check(lines[-1] == "", f"{label}: the last line is finished")
    lines = lines[:-1]
    if len(lines) < 8:
        h.fail(f"{label}: a header of eight lines")
        return None
    rows = [x.split() for x in lines]
    ok = len(rows[1]) == 1 and all(len(rows[i]) == 3 for i in (2, 3, 4)) and len(rows[5]) == len(rows[6]) and all(len(r) >= 3 for r in rows[8:])
    h.check(ok, f"{label}: numbers on the lines")
    if not ok:
        return None
    scale = value(h, rows[1][0])
    h.eq(scale, 1, f"{label}: scale factor")
    cell = [[value(h, x) for x in r] for r in rows[2:5]]
    coords = [[value(h, x) for x in r[:3]] for r in rows[8:]]
    return lines[0], cell, rows[5], [int(x) for x in rows[6]], lines[7], coords


POOL = ["Fe", "O", "Cr"]
ATOM_NAMES = {"Fe": ["Fe1", "Fe2", "fe_3", "Fe", "Fe5"], "O": ["O1", "O", "o2", "O3", "O9"], "Cr": ["Cr", "CR1", "cr2", "Cr9", "Cr_5"]}


def _written(n, mode, wide=False):
    """what is written, and what comes back; wide: every number is longer than the field it is printed in"""

    def f(h):
        d = (8, 3, 12)[h.choose("decimals", 3)]
        kinds = [POOL[h.choose(f"kind{i}", min(3, i + 2) if i else 3)] for i in range(n)]
        cell = cell_of(h)
        pos = [h.vec(f"p{i}_") for i in range(n)]
        if wide:
            big = h.q("-12345.678")
            for x in [x for r in cell for x in r]:
                h.assume(h.lt(x, big))
            for x in [x for p in pos for x in p]:
                h.assume(h.lt(x, big) if mode == "Direct" else h.lt(1, x))
        atoms = {"positions": [list(p) for p in pos]}
        how = h.choose("how", 3)
        names = [ATOM_NAMES[k][i] for i, k in enumerate(kinds)]
        if how == 0:
            atoms["names"] = list(names)
        elif how == 1:
            atoms["species"] = list(kinds)
        else:
            # species win over names
            atoms["names"] = ["H1", "He2", "xyz", "U", "B"][:n]
            atoms["species"] = list(kinds)
            atoms["positions"] = h.array(atoms["positions"])
        before = h.snapshot([cell, atoms])
        out = File()
        kw = {} if d == 8 else {"decimals": d}
        if mode != "Direct" or h.choose("explicit", 2):
            kw["mode"] = mode
        r, e = h.call(h.w.io.dump_poscar, cell, atoms, out, comment="one line", **kw)
        h.check(e is None, "a crystal can be written")
        if e is not None:
            return
        for a, b in zip(cell, before[0]):
            h.eqv(a, b, "the cell is not altered")
        h.check({k for k in atoms} == {k for k in before[1]}, "the atoms are not altered")
        for a, b in zip(atoms["positions"], pos):
            h.eqv(list(a), b, "positions are not altered")
        for key in ("names", "species"):
            if key in before[1]:
                h.check(atoms[key] == before[1][key], f"{key} are not altered")
        text = out.content()
        p = parse(h, text, "written")
        if p is None:
            return
        comment, pcell, species, counts, pmode, coords = p
        half = h.q(f"1/{2 * 10**d}")
        h.check(comment == "one line", "comment of the written file")
        h.check(pmode[:1].lower() == mode[0].lower(), "mode of the written file")
        h.check(len(set(species)) == len(species) and set(species) == set(kinds), "species of the written file")
        h.check(sum(counts) == n and len(coords) == n, "number of written atoms")
        flat = [s for s, c in zip(species, counts) for _ in range(c)]
        h.check(sorted(flat) == sorted(kinds), "number of atoms of every species")
        if sorted(flat) != sorted(kinds) or len(coords) != n:
            return
        for i in range(3):
            for j in range(3):
                h.check(h.close(pcell[i][j], cell[i][j], half), "written cell")
        # atoms of one species keep their order
        slots = {k: [i for i in range(n) if kinds[i] == k] for k in set(kinds)}
        order = [slots[k].pop(0) for k in flat]
        for c, i in zip(coords, order):
            want = pos[i] if mode == "Direct" else h.vecmat(pos[i], cell)
            for x, y in zip(c, want):
                h.check(h.close(x, y, half), f"written {mode} coordinates")
        # and back
        r, e = h.call(h.w.io.load_poscar, File(text))
        if e is not None and h.is_lin_alg_error(e):
            return  # the printed cell is singular
        h.check(e is None, "what was written can be read")
        if e is not None:
            return
        rcell, ratoms, rcomment = r
        h.check(rcomment == "one line", "comment that was read")
        for i in range(3):
            h.eqv(list(rcell[i]), pcell[i], "cell that was read")
        h.check(list(ratoms["names"]) == flat, "species that were read")
        h.check(len(ratoms["positions"]) == n, "number of read atoms")
        for q, c in zip(ratoms["positions"], coords):
            back = list(q) if mode == "Direct" else h.vecmat(list(q), pcell)
            h.eqv(back, c, "positions that were read")

    return f


def comments(h):
    """the comment is one line"""
    c = ["", "a\nb", "a\r\nb\n", "\n", "x\ry", "  spaced  ", "1.0 2.0", "Cr Fe"][h.choose("comment", 8)]
    cell = cell_of(h)
    out = File()
    r, e = h.call(h.w.io.dump_poscar, cell, {"positions": [h.vec("p")], "names": ["Cr1"]}, out, comment=c)
    h.check(e is None, "any comment can be written")
    if e is not None:
        return
    r, e = h.call(h.w.io.load_poscar, File(out.content()))
    h.check(e is None, "a file with any comment can be read")
    if e is None:
        h.check(r[2].split() == c.split(), "comment that was read")
        h.check(list(r[1]["names"]) == ["Cr"] and len(r[1]["positions"]) == 1, "the rest is not affected by the comment")
        for a, b in zip(r[0], cell):
            for x, y in zip(list(a), b):
                h.check(h.close(x, y, h.q("1/200000000")), "cell is not affected by the comment")


def default_comment(h):
    cell = cell_of(h)
    out = File()
    r, e = h.call(h.w.io.dump_poscar, cell, {"positions": [h.vec("p")], "names": ["Cr1"]}, out)
    h.check(e is None and len(out.content().split("\n")) == 10, "without a comment one line is written")
    r, e = h.call(h.w.io.load_poscar, File(out.content()))
    h.check(e is None and "wulfric" in r[2], "default comment")


def refused(h):
    """wrong mode and unknown species"""
    cell = cell_of(h)
    atoms = {"positions": [h.vec("p"), h.vec("q")], "names": ["Cr1", "Fe1"]}
    k = h.choose("what", 5)
    out = File()
    kw = {}
    if k < 3:
        kw["mode"] = ["Relative", "", None][k]
    else:
        atoms["names"][k - 3] = "@#"
    r, e = h.call(h.w.io.dump_poscar, cell, atoms, out, **kw)
    h.check(e is not None and isinstance(e, ValueError), "an unknown mode or a name without species is a ValueError")
    h.check(out.content() == "", "nothing is written in that case")


# ---- reading
def _reading(scale_kind, cartesian):
    def f(h):
        cell = cell_of(h)
        counts, species = [([2, 1], ["Fe", "O"]), ([1, 2], None), ([1, 1, 2], ["O", "Fe", "O"]), ([3], None), ([1], ["Cr_pv"])][h.choose("atoms", 5)]
        n = sum(counts)
        selective = ["", "Selective dynamics", "s"][h.choose("selective", 3)]
        mode = [["Direct", "d", "Fractional"], ["Cartesian", "c", "K", "kartesisch"]][cartesian]
        mode = mode[h.choose("mode", len(mode))]
        layout = h.choose("layout", 3)
        sep = ["  ", "\t", " "][layout]
        pos = [h.vec(f"p{i}_") for i in range(n)]
        third = h.root
        if scale_kind == "one":
            s = h.real("s", pos=True)
            factors, scales = [s], [s, s, s]
        elif scale_kind == "volume":
            s = h.real("s", pos=True)
            v = h.abs(h.det(cell))
            c = third(h.div(s, v), 3)
            factors, scales = [-s], [c, c, c]
        else:
            factors = [h.real(f"s{i}", pos=True) for i in range(3)]
            scales = list(factors)
        lines = [" a comment " + sep, sep.join(num(x) for x in factors)]
        lines += [sep + sep.join(num(x) for x in r) for r in cell]
        if species:
            lines.append(sep.join(species))
        lines.append(sep + sep.join(str(x) for x in counts) + sep)
        if selective:
            lines.append(selective)
        lines.append(mode)
        for i, p in enumerate(pos):
            tail = sep + sep.join(["T", "F", "T"]) if selective else (sep + "Fe comment 1.5" if layout == 1 else "")
            lines.append(sep.join(num(x) for x in p) + tail)
        if layout == 2:
            lines += ["", "0.1 0.2 0.3", "junk"]
        r, e = h.call(h.w.io.load_poscar, File("\n".join(lines) + ("" if layout == 0 else "\n")))
        h.check(e is None, "the file can be read")
        if e is not None:
            return
        rcell, atoms, comment = r
        h.check(comment == "a comment", "comment without blanks around")
        want = [[x * c for x, c in zip(row, scales)] for row in cell]
        for a, b in zip(rcell, want):
            h.eqv(list(a), b, f"cell, scale factor: {scale_kind}")
        names = [(species[k] if species else f"X{k + 1}") for k in range(len(counts)) for _ in range(counts[k])]
        h.check(list(atoms["names"]) == names, "names of the atoms")
        h.check(len(atoms["positions"]) == n, "number of atoms")
        for q, p in zip(atoms["positions"], pos):
            if cartesian:
                h.eqv(h.vecmat(list(q), want), [x * c for x, c in zip(p, scales)], f"Cartesian coordinates, scale factor: {scale_kind}")
            else:
                h.eqv(list(q), p, "direct coordinates")

    return f


def volume(h):
    """the volume of the cell read with a negative scale factor"""
    lengths = [h.real(x, pos=True) for x in "abc"]
    s = h.real("s", pos=True)
    z = h.q(0)
    cell = [[lengths[0], z, z], [z, lengths[1], z], [z, z, lengths[2]]]
    lines = ["c", num(-s)] + [" ".join(num(x) for x in r) for r in cell] + ["Fe", "1", "Direct", "0 0 0"]
    r, e = h.call(h.w.io.load_poscar, File("\n".join(lines) + "\n"))
    h.check(e is None, "a negative scale factor can be read")
    if e is None:
        m = [list(x) for x in r[0]]
        h.eq(h.det(m), s, "volume of the cell with a negative scale factor")


def bad_scale(h):
    """other scale factors are refused"""
    k = h.choose("kind", 4)
    a, b, c = [h.real(x) for x in ("x", "y", "z")]
    if k == 0:
        fs = [a, b]
    elif k == 1:
        fs = [a, b, c, a]
    elif k == 2:
        fs = []
    else:
        fs = [a, b, c]
        h.assume(h.Or(h.le(a, h.q(0)) if h.symbolic else a <= 0, h.le(b, h.q(0)) if h.symbolic else b <= 0, h.le(c, h.q(0)) if h.symbolic else c <= 0))
    cell = cell_of(h)
    lines = ["c", " ".join(num(x) for x in fs)] + [" ".join(num(x) for x in r) for r in cell] + ["Fe", "1", "Direct", "0 0 0"]
    r, e = h.call(h.w.io.load_poscar, File("\n".join(lines) + "\n"))
    h.check(e is not None and isinstance(e, ValueError), "scale factors other than one number or three positive numbers are a ValueError")


def files(h):
    """file names, directories and the current directory"""
    d = tempfile.mkdtemp(prefix="c17_")
    here = os.getcwd()
    try:
        how = h.choose("how", 6)
        cell = cell_of(h)
        p = h.vec("p")
        atoms = {"positions": [p], "names": ["Cr1"]}
        path = os.path.join(d, "POSCAR") if how != 0 else os.path.join(d, "some.file")
        if how < 3:
            os.chdir(d)
            if how == 2:
                h.w.io.dump_poscar(cell, atoms, comment="c")
            else:
                h.w.io.dump_poscar(cell, atoms, path, comment="c")
            arg = [path, d, None][how]
            r, e = h.call(h.w.io.load_poscar, arg) if arg is not None else h.call(h.w.io.load_poscar)
            h.check(e is None, "a written file can be read by name")
            if e is None:
                h.check(list(r[1]["names"]) == ["Cr"] and r[2] == "c", "what is read from a file")
                for a, b in zip(r[0], cell):
                    for x, y in zip(list(a), b):
                        h.check(h.close(x, y, h.q("1/200000000")), "cell from a file")
                for x, y in zip(list(r[1]["positions"][0]), p):
                    h.check(h.close(x, y, h.q("1/200000000")), "position from a file")
        else:
            os.chdir(d)
            arg = [os.path.join(d, "nothing"), d, None][how - 3]
            r, e = h.call(h.w.io.load_poscar, arg) if arg is not None else h.call(h.w.io.load_poscar)
            h.check(e is not None and isinstance(e, FileNotFoundError), "a missing file is a FileNotFoundError")
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def jobs(tier):
    T = tier == "thorough"
    r = []
    for n in (1, 2, 3) + ((4, 5) if T else ()):
        for mode in ("Direct", "Cartesian"):
            r.append(Job(f"written_{mode}_{n}", _written(n, mode), wall=800 if T else 300, paths=200000, bounds=f"{n} atoms, every assignment of up to 3 species, all cells and positions, 3/8/12 decimals"))
    for n in (1, 2):
        for mode in ("Direct", "Cartesian"):
            r.append(Job(f"wide_{mode}_{n}", _written(n, mode, wide=True), wall=300, paths=200000, bounds=f"as written_{mode}_{n}, all numbers below -12345.678 (longer than the printed field)"))
    for kind in ("one", "volume", "three"):
        for c in (0, 1):
            r.append(Job(f"reading_{kind}_{'cartesian' if c else 'direct'}", _reading(kind, c), wall=300, paths=20000, bounds="5 headers, up to 4 atoms, selective dynamics, 3 layouts, all cells, positions and scale factors"))
    for f in (comments, default_comment, refused, volume, bad_scale, files):
        r.append(Job(f.__name__, f, wall=120, bounds="see the job"))
    return r
