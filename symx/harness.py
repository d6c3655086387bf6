"""Symbolic backend of the harness API.  (concrete.py is its twin for replays.)"""

import builtins
import math
from fractions import Fraction

import numpy as rnp
import z3

from . import engine, npshim, shims, sym, symstr
from .poly import VARS
from .sym import CUR, PI, PathAbort, SBool, SReal, Unsupported


class H:
    """what a harness sees"""

    symbolic = True

    def __init__(self, ctx, ex, w):
        self.ctx = ctx
        self.ex = ex
        self.w = w
        self.np = npshim.np
        self.PI = PI
        self.choices = []
        self.nchecks = 0

    # ---- inputs
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        x = sym.real(name, pos=pos, nonneg=nonneg)
        self._nice(x, pos or nonneg)
        if lo is not None:
            self.assume(x >= Fraction(lo) if not isinstance(lo, float) else x >= Fraction(repr(lo)))
        if hi is not None:
            self.assume(x <= Fraction(hi) if not isinstance(hi, float) else x <= Fraction(repr(hi)))
        return x

    def _nice(self, x, pos):
        key = x.key()
        if key in self.ex.nice_seen:
            return
        self.ex.nice_seen.add(key)
        if pos:
            self.ex._nice.append(x >= Fraction(1, 5))
            self.ex._nice.append(x <= 20)
        else:
            self.ex._nice.append(x >= -20)
            self.ex._nice.append(x <= 20)

    def integer(self, name, lo, hi):
        return sym.integer(name, lo, hi)

    def boolean(self, name):
        return sym.boolean(name)

    def angle(self, name):
        """angle in degrees, strictly between 0 and 180"""
        return sym.input_angle(name, PI / 180)

    def choose(self, name, n):
        k = self.ctx.choose(n)
        self.choices.append((name, k))
        return k

    def string(self, name, n, lo=33, hi=126):
        """string of n characters, each with a code from lo to hi (printable ASCII but the blank)"""
        return symstr.fresh(name, n, lo, hi)

    def text(self, s):
        """concrete string that may meet symbolic ones"""
        return symstr.mkstr(s)

    def has(self, s, sub):
        return symstr.mkstr(symstr.chars_of(s)).has(sub)

    def boolean_choice(self, name):
        return self.choose(name, 2) == 1

    def vec(self, name, n=3):
        return [self.real(f"{name}{i}") for i in range(n)]

    def mat(self, name, n=3, m=3):
        return [[self.real(f"{name}{i}{j}") for j in range(m)] for i in range(n)]

    def q(self, x):
        """exact constant from a decimal string / int / Fraction"""
        return Fraction(x)

    # ---- logic
    And = staticmethod(sym.s_and)
    Or = staticmethod(sym.s_or)
    Not = staticmethod(sym.s_not)
    Implies = staticmethod(sym.s_implies)
    Iff = staticmethod(sym.s_iff)
    Ite = staticmethod(sym.ite)

    def lt(self, a, b):
        return npshim._cmpf("<")(a, b)

    def le(self, a, b):
        return npshim._cmpf("<=")(a, b)

    def eqb(self, a, b, tol=None):
        return sym.to_sbool(npshim._eq(a, b))

    def close(self, a, b, tol):
        t = Fraction(tol) if not isinstance(tol, float) else Fraction(repr(tol))
        return sym.s_and(npshim._cmpf("<=")(a - b, t), npshim._cmpf("<=")(b - a, t))

    # ---- arithmetic helpers usable in both worlds
    sqrt = staticmethod(sym.s_sqrt)
    floor = staticmethod(sym.floor_)
    abs = staticmethod(sym.s_abs)
    cos = staticmethod(sym.s_cos)
    sin = staticmethod(sym.s_sin)
    acos = staticmethod(sym.s_acos)
    div = staticmethod(sym.div)

    def root(self, x, n):
        return sym.power(x, Fraction(1, n))

    def det(self, m):
        return npshim.det(m)

    def dot(self, a, b):
        r = 0
        for x, y in zip(list(a), list(b)):
            r = x * y + r
        return r

    def rows(self, m):
        return [list(rnp.asarray(r)) for r in m]

    def matvec(self, m, v):
        return [self.dot(r, v) for r in self.rows(m)]

    def vecmat(self, v, m):
        m = self.rows(m)
        v = list(v)
        return [sum((v[k] * m[k][j] for k in range(len(v))), 0) for j in range(len(m[0]))]

    def matmul(self, a, b):
        a = self.rows(a)
        b = self.rows(b)
        return [[sum((a[i][k] * b[k][j] for k in range(len(b))), 0) for j in range(len(b[0]))] for i in range(len(a))]

    def array(self, x):
        return npshim.array(x)

    # ---- control
    def assume(self, cond, base=False):
        cond = sym.to_sbool(cond)
        if base and isinstance(cond, SBool):
            if not any(z3.eq(cond.e, b.e) for b in self.ex.base_assumptions):
                self.ex.base_assumptions.append(cond)
                self.ex.sign_cache.clear()
        self.ctx.assume(cond)

    def feasible(self, cond):
        """could cond hold here? (False only if the solver refutes it)"""
        cond = sym.to_sbool(cond)
        if isinstance(cond, builtins.bool):
            return cond
        return self.ctx.feasible(cond) != "unsat"

    def check(self, cond, label, margin=None, timeout=None):
        self.nchecks += 1
        self.ex.cur_choices = list(self.choices)
        return self.ctx.check(cond, label, margin=margin, info={"choices": list(self.choices)}, timeout=timeout)

    def eq(self, a, b, label, tol=1e-6, timeout=None):
        """a == b"""
        cond = sym.to_sbool(npshim._eq(a, b)) if not (isinstance(a, float) or isinstance(b, float)) else a == b
        margin = None
        if isinstance(cond, SBool):
            d = a - b
            margin = []
            for m in (Fraction(1, 10), Fraction(1, 1000)):
                margin.append(sym.s_or(npshim._cmpf(">")(d, m), npshim._cmpf("<")(d, -m)))
        return self.check(cond, label, margin=margin, timeout=timeout)

    def eqv(self, a, b, label, tol=1e-6, timeout=None):
        for i, (x, y) in enumerate(zip(_flat(a), _flat(b))):
            if self.eq(x, y, label, tol, timeout) is False:
                return False
        return True

    def lec(self, a, b, label, tol=1e-6, timeout=None):
        """a <= b"""
        cond = npshim._cmpf("<=")(a, b)
        margin = None
        if isinstance(cond, SBool):
            d = a - b
            margin = [npshim._cmpf(">")(d, m) for m in (Fraction(1, 10), Fraction(1, 1000))]
        return self.check(cond, label, margin=margin, timeout=timeout)

    def fail(self, label):
        return self.check(False, label)

    def call(self, fn, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            return fn(*a, **k), None
        except Unsupported:
            raise
        except Exception as e:
            return None, e

    def truth(self, x):
        """fork on a result"""
        return builtins.bool(sym.to_sbool(x)) if not isinstance(x, builtins.bool) else x

    def exc_name(self, e):
        return type(e).__name__

    def module(self, name):
        import importlib

        return importlib.import_module(name)

    def is_lin_alg_error(self, e):
        return type(e).__name__ == "LinAlgError"

    def ident(self, v):
        """hashable identity of a vector: equal canonical expressions"""
        out = []
        for x in v:
            if isinstance(x, SReal):
                out.append(x.key())
            else:
                out.append(Fraction(x))
        return tuple(out)

    def snapshot(self, x):
        import copy

        return copy.deepcopy(x)

    def stub_spglib(self, **fns):
        from . import loader

        for k, v in fns.items():
            loader.spglib.__dict__[k] = v

    def stub_voronoi(self, cls):
        """Replace scipy.spatial.Voronoi wherever wulfric sees it"""
        from . import loader

        import sys

        loader.scipy_spatial.__dict__["Voronoi"] = cls
        for name, m in list(sys.modules.items()):
            if name.startswith("wulfric") and "Voronoi" in m.__dict__:
                m.__dict__["Voronoi"] = cls


    def known_nonneg(self, x):
        """declare a polynomial in the inputs that the base assumptions make non-negative (used to split square roots)"""
        from . import engine

        if isinstance(x, SReal) and not x.den and x.num not in engine.SOS:
            engine.SOS.append(x.num)

    def rounding(self, rel="1e-15"):
        """from here to the end of the path every length (norm) carries its own unknown relative error"""
        lim = Fraction(rel)
        count = [0]

        def cb(r):
            d = sym.real(f"rnd{count[0]}")
            count[0] += 1
            self.assume(d <= lim)
            self.assume(d >= -lim)
            return r * (1 + d)

        npshim.ROUND[:] = [cb]
        sym.CHECK_DOMAIN[:] = [1]

    def exact(self):
        npshim.ROUND[:] = []
        sym.CHECK_DOMAIN[:] = []

    def is_number(self, x):
        import math

        return not (isinstance(x, float) and math.isnan(x))

    def stub_function(self, path, fn):
        """Replace a public wulfric function wherever wulfric sees it (path: "cell.get_niggli")"""
        from .stubs import stub_function

        return stub_function(self.w, path, fn)


def _flat(x):
    return list(npshim.flat_iter(x))
