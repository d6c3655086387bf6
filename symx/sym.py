"""Symbolic reals, integers and booleans; the path context."""

import math
from fractions import Fraction

import mpmath
import z3

from . import poly as P
from .poly import Poly, VARS, new_var

PI = Fraction(math.pi)
mpmath.mp.dps = 60


class PathAbort(BaseException):
    """path steering (infeasible / cut)"""


class CannotSpeculate(BaseException):
    pass


class Unsupported(Exception):
    """The engine has no model for what the code asked for"""


# --------------------------------------------------------------------------
# current context (set by engine)
class _Cur:
    ctx = None


CUR = _Cur()


def ctx():
    return CUR.ctx


# --------------------------------------------------------------------------
# booleans
class SBool:
    __slots__ = ("e", "vars")
    __hash__ = None
    __array_ufunc__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __init__(self, e, vars):
        self.e = e
        self.vars = frozenset(vars)

    def __bool__(self):
        return CUR.ctx.decide(self)

    def __and__(self, o):
        return s_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return s_or(s_and(self, s_not(o)), s_and(s_not(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return s_not(self)

    def __eq__(self, o):
        if isinstance(o, (bool,)) or type(o).__name__ == "bool_":
            return self if o else s_not(self)
        if isinstance(o, SBool):
            return SBool(self.e == o.e, self.vars | o.vars)
        if isinstance(o, (int, Fraction, SReal)):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        return s_not(self == o)

    def as_int(self):
        return ite(self, 1, 0)

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __repr__(self):
        return f"SBool({self.e})"

    def __index__(self):
        return int(bool(self))

    def logical_not(self):
        return s_not(self)


def is_boolish(x):
    return isinstance(x, (bool, SBool)) or type(x).__name__ in ("bool_", "bool")


def to_sbool(x):
    """anything truth-testable -> bool or SBool"""
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, SReal):
        return x != 0
    if hasattr(x, "shape") and getattr(x, "dtype", None) is not None:
        if type(x).__name__ in ("bool_", "bool"):
            return bool(x)
        if getattr(x, "size", 0) == 1:
            return to_sbool(x.reshape(-1)[0])
        return bool(x)
    return bool(x)


def s_not(x):
    x = to_sbool(x)
    if isinstance(x, SBool):
        if z3.is_not(x.e):
            return SBool(x.e.arg(0), x.vars)
        return SBool(z3.Not(x.e), x.vars)
    return not x


def s_and(*xs):
    es = []
    vs = set()
    for x in xs:
        x = to_sbool(x)
        if isinstance(x, SBool):
            es.append(x.e)
            vs |= x.vars
        elif not x:
            return False
    if not es:
        return True
    if len(es) == 1:
        return SBool(es[0], vs)
    return SBool(z3.And(*es), vs)


def s_or(*xs):
    es = []
    vs = set()
    for x in xs:
        x = to_sbool(x)
        if isinstance(x, SBool):
            es.append(x.e)
            vs |= x.vars
        elif x:
            return True
    if not es:
        return False
    if len(es) == 1:
        return SBool(es[0], vs)
    return SBool(z3.Or(*es), vs)


def s_implies(a, b):
    return s_or(s_not(a), b)


def s_iff(a, b):
    a = to_sbool(a)
    b = to_sbool(b)
    if isinstance(a, bool):
        return b if a else s_not(b)
    if isinstance(b, bool):
        return a if b else s_not(a)
    return SBool(a.e == b.e, a.vars | b.vars)


# --------------------------------------------------------------------------
# reals
_cnt = {}


def fresh_name(prefix):
    n = _cnt.get(prefix, 0)
    _cnt[prefix] = n + 1
    return f"{prefix}!{n}"


def _norm_factor(p):
    """p (non-constant) -> (content constant, {primitive factors: exp})"""
    c = p.content()
    lm = p.lead()
    if p.t[lm] < 0:
        c = -c
    p = p.scale(1 / c)
    # split common monomial
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    fac = {}
    if common:
        mm = tuple(sorted(common.items()))
        for v, e in mm:
            fac[Poly.var(VARS[v])] = e
        p = Poly({P._mono_div(m, mm): k for m, k in p.t.items()})
    if p.is_const():
        c = c * p.const_value()
    else:
        fac[p] = fac.get(p, 0) + 1
    return c, fac


_FACTOR_CACHE = {}


def den_factors(p):
    r = _FACTOR_CACHE.get(p)
    if r is None:
        c, fac = _norm_factor(p)
        out = {}
        for f, e in fac.items():
            s = f.sqrt_exact() if len(f.t) <= 60 and len(f.t) > 1 else None
            if s is not None:
                out[s] = out.get(s, 0) + 2 * e
            else:
                out[f] = out.get(f, 0) + e
        r = (c, out)
        _FACTOR_CACHE[p] = r
    return r


def _den_poly(den):
    r = Poly.const(1)
    for f, e in den.items():
        r = r * (f**e)
    return r


def mk(num, den=None, isint=False):
    """normalised SReal or python number"""
    if den:
        den = dict(den)
        # rationalise single sqrt variables in the denominator
        again = True
        while again:
            again = False
            for f in list(den):
                if len(f.t) == 1:
                    ((m, c),) = f.t.items()
                    if len(m) == 1 and m[0][1] == 1 and VARS[m[0][0]].square is not None:
                        v = VARS[m[0][0]]
                        if v.kind not in ("sqrt", "sin"):
                            continue
                        e = den.pop(f)
                        k = (e + 1) // 2
                        if e % 2:
                            num = num * f
                        if v.square.is_const():
                            num = num.scale(1 / v.square.const_value() ** k)
                        else:
                            cc, fac = den_factors(v.square)
                            num = num.scale(1 / cc**k)
                            for g, ge in fac.items():
                                den[g] = den.get(g, 0) + ge * k
                        again = True
                        break
        if num.is_zero():
            return 0 if isint else Fraction(0)
        for f in list(den):
            while den.get(f, 0) > 0:
                q = _try_div(num, f)
                if q is None:
                    break
                num = q
                den[f] -= 1
            if den.get(f) == 0:
                del den[f]
        den = {f: e for f, e in den.items() if e}
    else:
        den = {}
    if not den and num.is_const():
        c = num.const_value()
        if isint and c.denominator == 1:
            return int(c)
        return c
    return SReal(num, den, isint)


_DIV_CACHE = {}


def _try_div(num, f):
    if len(num.t) > 3000 or len(num.t) * len(f.t) > 60000:
        return None
    if len(num.t) < len(f.t):
        # exact quotient may still exist but is unlikely in our use
        if len(f.t) > 3 * len(num.t):
            return None
    k = (num, f)
    if k in _DIV_CACHE:
        return _DIV_CACHE[k]
    r = num.divide_exact(f)
    _DIV_CACHE[k] = r
    return r


NUM = (int, Fraction)


def coerce(x):
    """-> SReal-like (num, den, isint) or None"""
    if isinstance(x, SReal):
        return x.num, x.den, x.isint
    if isinstance(x, bool):
        return Poly.const(int(x)), {}, True
    if isinstance(x, int):
        return Poly.const(x), {}, True
    if isinstance(x, Fraction):
        return Poly.const(x), {}, False
    if isinstance(x, SBool):
        return coerce(x.as_int())
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return None
        return Poly.const(Fraction(repr(float(x)))), {}, False
    t = type(x).__module__
    if t == "numpy":
        import numpy

        if isinstance(x, numpy.ndarray):
            if x.shape == ():
                return coerce(x.item())
            return None
        if isinstance(x, numpy.integer):
            return Poly.const(int(x)), {}, True
        if isinstance(x, numpy.floating):
            return coerce(float(x))
        if isinstance(x, numpy.bool_):
            return Poly.const(int(x)), {}, True
    return None


def _isarr(x):
    import numpy

    return isinstance(x, numpy.ndarray) and x.shape != ()


def _arr2(o, f):
    if not _isarr(o):
        return NotImplemented
    from .npshim import map1

    return map1(f, o)


class SReal:
    __slots__ = ("num", "den", "isint", "_h")
    __array_ufunc__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __init__(self, num, den, isint=False):
        self.num = num
        self.den = den
        self.isint = isint
        self._h = None

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return o
        c = coerce(o)
        if c is None:
            return _arr2(o, lambda y: self + y)
        return _add(self.num, self.den, c[0], c[1], self.isint and c[2])

    __radd__ = __add__

    def __neg__(self):
        return SReal(-self.num, self.den, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return -o
        c = coerce(o)
        if c is None:
            return _arr2(o, lambda y: self - y)
        return _add(self.num, self.den, -c[0], c[1], self.isint and c[2])

    def __rsub__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return o
        c = coerce(o)
        if c is None:
            return _arr2(o, lambda y: y - self)
        return _add(c[0], c[1], -self.num, self.den, self.isint and c[2])

    def __mul__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return math.nan
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        c = coerce(o)
        if c is None:
            return _arr2(o, lambda y: self * y)
        return _mul(self.num, self.den, c[0], c[1], self.isint and c[2])

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isarr(o):
            return _arr2(o, lambda y: div(self, y))
        return div(self, o)

    def __rtruediv__(self, o):
        if _isarr(o):
            return _arr2(o, lambda y: div(y, self))
        return div(o, self)

    def __floordiv__(self, o):
        q = div(self, o)
        f = floor_(q)
        return f if (self.isint and coerce(o)[2]) else f

    def __rfloordiv__(self, o):
        return floor_(div(o, self))

    def __mod__(self, o):
        if coerce(o) is None:
            return _arr2(o, lambda y: self % y)
        return self - o * floor_(div(self, o))

    def __rmod__(self, o):
        return o - self * floor_(div(o, self))

    def __divmod__(self, o):
        f = floor_(div(self, o))
        return f, self - o * f

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return s_abs(self)

    # ---- comparisons
    def __lt__(self, o):
        if _isarr(o):
            return _arr2(o, lambda y: _cmp(self, y, "<"))
        return _cmp(self, o, "<")

    def __le__(self, o):
        if _isarr(o):
            return _arr2(o, lambda y: _cmp(self, y, "<="))
        return _cmp(self, o, "<=")

    def __gt__(self, o):
        if _isarr(o):
            return _arr2(o, lambda y: _cmp(self, y, ">"))
        return _cmp(self, o, ">")

    def __ge__(self, o):
        if _isarr(o):
            return _arr2(o, lambda y: _cmp(self, y, ">="))
        return _cmp(self, o, ">=")

    def __eq__(self, o):
        if _isarr(o):
            return _arr2(o, lambda y: _cmp(self, y, "=="))
        return _cmp(self, o, "==")

    def __ne__(self, o):
        if _isarr(o):
            return _arr2(o, lambda y: s_not(_cmp(self, y, "==")))
        return s_not(_cmp(self, o, "=="))

    def __hash__(self):
        # one bucket: dictionaries and sets of symbolic keys compare with ==, which forks
        return 7

    def key(self):
        return (self.num, frozenset(self.den.items()))

    def __bool__(self):
        r = self != 0
        return bool(r)

    # ---- conversions
    def __int__(self):
        return self.__index__()

    def __index__(self):
        return concretize_int(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __round__(self, n=None):
        return s_round(self, n)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __trunc__(self):
        return trunc_(self)

    # numpy object-dtype hooks
    def sqrt(self):
        return s_sqrt(self)

    def rint(self):
        return s_round(self, 0)

    def floor(self):
        return floor_(self)

    def ceil(self):
        return -floor_(-self)

    def trunc(self):
        return trunc_(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return self == floor_(self)

    def item(self):
        return self

    def __format__(self, spec):
        return make_token(self, spec)

    def __str__(self):
        return make_token(self, "")

    def __repr__(self):
        d = "*".join(f"({f!r})^{e}" for f, e in self.den.items())
        return f"<{self.num!r}" + (f" / {d}" if d else "") + ">"


def _lcm(d1, d2):
    out = dict(d1)
    for f, e in d2.items():
        if out.get(f, 0) < e:
            out[f] = e
    return out


def _cofactor(l, d):
    r = Poly.const(1)
    for f, e in l.items():
        k = e - d.get(f, 0)
        if k:
            r = r * (f**k)
    return r


def _add(n1, d1, n2, d2, isint):
    if d1 == d2:
        return mk(n1 + n2, d1, isint)
    l = _lcm(d1, d2)
    return mk(n1 * _cofactor(l, d1) + n2 * _cofactor(l, d2), l, isint)


def _mul(n1, d1, n2, d2, isint):
    if not d1 and not d2:
        return mk(n1 * n2, None, isint)
    # cancel crosswise first
    d1 = dict(d1)
    d2 = dict(d2)
    for d, which in ((d2, 1), (d1, 2)):
        for f in list(d):
            while d.get(f, 0) > 0:
                q = _try_div(n1 if which == 1 else n2, f)
                if q is None:
                    break
                if which == 1:
                    n1 = q
                else:
                    n2 = q
                d[f] -= 1
                if d[f] == 0:
                    del d[f]
    for f, e in d2.items():
        d1[f] = d1.get(f, 0) + e
    return mk(n1 * n2, d1, isint)


def inverse(x):
    c = coerce(x)
    n, d, _ = c
    if n.is_const():
        v = n.const_value()
        return mk(_den_poly(d).scale(1 / v))
    cc, fac = den_factors(n)
    return mk(_den_poly(d).scale(1 / cc), fac)


def div(a, b, numpy_mode=False):
    """true division; scalar semantics"""
    if isinstance(a, float) and not math.isfinite(a):
        return a
    if isinstance(b, float) and not math.isfinite(b):
        return Fraction(0) if math.isinf(b) else b
    ca, cb = coerce(a), coerce(b)
    if ca is None or cb is None:
        return NotImplemented
    n, d, _ = cb
    if not d and n.is_const():
        v = n.const_value()
        if v == 0:
            if CUR.ctx is not None and CUR.ctx.numpy_div:
                CUR.ctx.note("division by zero in numpy arithmetic")
                return math.nan
            raise ZeroDivisionError("division by zero")
        return mk(ca[0].scale(1 / v), ca[1])
    # may the denominator be zero on this path?
    if CUR.ctx is not None and CUR.ctx.may_be_zero(n):
        if CUR.ctx.numpy_div:
            CUR.ctx.note("division by zero in numpy arithmetic")
            return math.nan
        raise ZeroDivisionError("division by zero")
    iv = inverse(b)
    ci = coerce(iv)
    return _mul(ca[0], ca[1], ci[0], ci[1], False)


def power(a, b):
    if isinstance(b, SReal):
        raise Unsupported("symbolic exponent")
    b = Fraction(b) if not isinstance(b, float) else Fraction(repr(b))
    if isinstance(a, float) and not math.isfinite(a):
        return a
    if b.denominator == 1:
        n = int(b)
        if n == 0:
            return 1
        base = a if n > 0 else div(1, a)
        r = base
        for _ in range(abs(n) - 1):
            r = r * base
        return r
    if b.denominator == 2:
        r = s_sqrt(a)
        n = int(b.numerator)
        return power(r, n)
    return s_root(a, b)


# --------------------------------------------------------------------------
# comparison
def _sign_known(p):
    """+1 / -1 if the polynomial has a known strict sign, else 0"""
    if p.is_const():
        v = p.const_value()
        return (v > 0) - (v < 0)
    s = 0
    for m, c in p.t.items():
        sm = 1 if c > 0 else -1
        for v, e in m:
            if e % 2:
                k = VARS[v].info.get("sign", 0)
                if k == 0:
                    return 0
                sm *= k
            elif VARS[v].info.get("sign", 0) == 0:
                return 0
        if s == 0:
            s = sm
        elif s != sm:
            return 0
    return s


def _nonneg_known(p):
    """syntactically >= 0"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for v, e in m:
            if e % 2 and not VARS[v].info.get("nonneg") and VARS[v].info.get("sign", 0) <= 0:
                return False
    return True


def prim(p):
    """divide by positive content"""
    return p.scale(1 / p.content())


def mkb(e, vs):
    return SBool(e, vs)


def _lin_split(p, vid):
    """p = k*v + rest with constant k and rest free of v; or None"""
    k = None
    rest = {}
    for m, c in p.t.items():
        has = any(v == vid for v, _ in m)
        if has:
            if len(m) == 1 and m[0][1] == 1:
                k = c
            else:
                return None
        else:
            rest[m] = c
    if k is None:
        return None
    return k, Poly(rest)


def poly_cmp(p, op):
    """p op 0, op in '<','<=','=='  -> bool or SBool"""
    if p.is_const():
        v = p.const_value()
        return {"<": v < 0, "<=": v <= 0, "==": v == 0}[op]
    s = _sign_known(p)
    if s:
        return {"<": s < 0, "<=": s < 0, "==": False}[op]
    if op == "<" and _nonneg_known(p):
        return False
    if op == "<=" and _nonneg_known(-p):
        return True
    # eliminate abs / max / min that occur linearly
    for vid in sorted(p.vars(), reverse=True):
        v = VARS[vid]
        alts = v.info.get("alts")
        if alts is not None:
            kind, exprs = alts  # v = max(exprs) or min(exprs)
            sp = _lin_split(p, vid)
            if sp is None:
                continue
            k, rest = sp
            parts_lt = []
            # k*v + rest
            for x in exprs:
                parts_lt.append(_add(x[0].scale(k), x[1], rest, {}, False))
            conj = (kind == "max") == (k > 0)
            if op in ("<", "<="):
                bs = [_cmp(x, 0, op) for x in parts_lt]
                return s_and(*bs) if conj else s_or(*bs)
            le = [_cmp(x, 0, "<=") for x in parts_lt]
            eq = [_cmp(x, 0, "==") for x in parts_lt]
            if conj:
                return s_and(s_and(*le), s_or(*eq))
            ge = [_cmp(x, 0, ">=") for x in parts_lt]
            return s_and(s_and(*ge), s_or(*eq))
    # angles
    r = _angle_cmp(p, op)
    if r is not None:
        return r
    r = _sqrt_cmp(p, op)
    if r is not None:
        return r
    p = prim(p)
    if op == "==":
        if p.t[p.lead()] < 0:
            p = -p
        # factor out common monomials
        c, fac = _norm_factor(p)
        if len(fac) > 1 or any(e > 1 for e in fac.values()):
            return s_or(*[_eq_atom(f) for f in fac])
        return _eq_atom(p)
    # drop squared / known-sign monomial factors
    c, fac = _norm_factor(p)
    if len(fac) > 1 or any(e > 1 for e in fac.values()):
        sgn = 1 if c > 0 else -1
        rest = Poly.const(1)
        zero_ok = []
        for f, e in fac.items():
            k = _sign_known(f)
            if k:
                if e % 2:
                    sgn *= k
                continue
            if e % 2 == 0:
                zero_ok.append(f)
                continue
            rest = rest * f
            if e > 1:
                pass
        rest = rest.scale(Fraction(sgn))
        if rest.is_const():
            base = rest.const_value() < 0
        else:
            base = SBool((rest.z3() < 0) if op == "<" else (rest.z3() <= 0), rest.vars())
        if zero_ok:
            eqs = [_eq_atom(f) for f in zero_ok]
            if op == "<":
                return s_and(base, *[s_not(q) for q in eqs])
            return s_or(base, *eqs)
        return base
    return SBool((p.z3() < 0) if op == "<" else (p.z3() <= 0), p.vars())


def _eq_atom(p):
    if p.is_const():
        return p.is_zero()
    if _sign_known(p):
        return False
    p = prim(p)
    return SBool(p.z3() == 0, p.vars())


def cmp_op(a, op, b):
    return _cmp(a, b, op)


def _cmp(a, b, op):
    if isinstance(b, float) and not math.isfinite(b):
        if math.isnan(b):
            return False
        big = b > 0
        return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False}[op]
    ca, cb = coerce(a), coerce(b)
    if ca is None or cb is None:
        if op == "==":
            return False
        return NotImplemented
    if not isinstance(a, SReal) and not isinstance(b, SReal):
        v = ca[0].const_value() - cb[0].const_value()
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0}[op]
    r = _add(ca[0], ca[1], -cb[0], cb[1], False)
    c = coerce(r)
    n, d = c[0], c[1]
    if op == ">":
        n, op = -n, "<"
    elif op == ">=":
        n, op = -n, "<="
    if op == "==" or not d:
        return poly_cmp(n, op)
    # sign of the denominator
    unk = []
    sgn = 1
    for f, e in d.items():
        if e % 2 == 0:
            continue
        k = _sign_known(f)
        if k == 0 and CUR.ctx is not None:
            k = CUR.ctx.sign_under_assumptions(f)
        if k == 0:
            unk.append(f)
        else:
            sgn *= k
    if sgn < 0:
        n = -n
    if not unk:
        return poly_cmp(n, op)
    f = unk[0]
    for g in unk[1:]:
        f = f * g
    return s_or(
        s_and(poly_cmp(-f, "<"), poly_cmp(n, op)),
        s_and(poly_cmp(f, "<"), poly_cmp(-n, op)),
    )


def _sqrt_cmp(p, op):
    """k1*r1 + k2*r2 or k1*r1 + const with sqrt variables"""
    if len(p.t) > 2:
        return None
    items = []
    for m, c in p.t.items():
        if m == ():
            items.append((c, None))
        elif len(m) == 1 and m[0][1] == 1 and VARS[m[0][0]].kind == "sqrt":
            items.append((c, VARS[m[0][0]]))
        else:
            return None
    if len(items) == 1:
        c, v = items[0]
        if op == "==":
            return poly_cmp(v.square, "==")
        if op == "<":
            return poly_cmp(v.square.scale(Fraction(1 if c > 0 else -1)), "<") if c < 0 else False
        return True if c < 0 else poly_cmp(v.square, "==")
    (c1, v1), (c2, v2) = items
    if v1 is None:
        (c1, v1), (c2, v2) = (c2, v2), (c1, v1)
    # c1*r1 + c2*(r2|1)
    if (c1 > 0) == (c2 > 0):
        if v2 is None:
            if c1 > 0:
                return False  # positive
            return op != "=="  # negative
        return None
    s1 = v1.square.scale(c1 * c1)
    s2 = v2.square.scale(c2 * c2) if v2 is not None else Poly.const(c2 * c2)
    # c1>0: c1 r1 op -c2 r2  <=> s1 op s2
    dd = (s1 - s2) if c1 > 0 else (s2 - s1)
    base = poly_cmp(dd, op)
    comps = v1.info.get("comps") if v2 is None else None
    if comps and abs(c2 / c1) <= Fraction(1, 1000) and isinstance(base, SBool) and op in ("<", "<="):
        # length of a vector against a tolerance: the implied bounds of its components help the solver
        t = abs(c2 / c1)
        if c1 > 0:
            return s_and(base, *[s_and(_cmp(u, t, op), _cmp(-u, t, op)) for u in comps])
        neg = "<" if op == "<=" else "<="
        return s_or(base, *[s_or(s_not(_cmp(u, t, neg)), s_not(_cmp(-u, t, neg))) for u in comps])
    return base


def _cos_const(t):
    """rational approximation of cos(t) to 1e-45, t Fraction (radians with PI as given)"""
    # angles in the code are multiples of the rational PI; treat PI as exact pi
    q = t / PI
    return Fraction(str(mpmath.nstr(mpmath.cospi(mpmath.mpf(q.numerator) / q.denominator), 45)))


def _angle_cmp(p, op):
    """a*theta + const, or a*(theta1 - theta2): use monotonicity of cos on [0, pi]"""
    ang = [v for v in p.vars() if "cos" in VARS[v].info]
    if ang and len(p.t) == 3:
        return _angle_sum_cmp(p, op)
    if not ang or len(p.t) > 2:
        return None
    items = []
    for m, c in p.t.items():
        if m == ():
            items.append((c, None))
        elif len(m) == 1 and m[0][1] == 1 and "cos" in VARS[m[0][0]].info:
            items.append((c, VARS[m[0][0]]))
        else:
            return None
    if len(items) == 1:
        items.append((Fraction(0), None))
    (c1, v1), (c2, v2) = items
    if v1 is None:
        (c1, v1), (c2, v2) = (c2, v2), (c1, v1)
    if v1.info.get("linear") and (v2 is None or v2.info.get("linear")):
        return None  # input angle: stay linear
    u1 = v1.info["unit"]  # radians per unit of v1
    if v2 is None:
        # c1*v1 + c2 op 0  -> v1*u1 op' t
        t = -c2 / c1 * u1
        opx = op
        flip = c1 < 0
        # v op t
        if t <= 0:
            if t == 0 and op in ("==",):
                return _cmp(v1.info["cos"], 1, "==")
            if t == 0 and op == "<=" and not flip:
                return _cmp(v1.info["cos"], 1, "==")
            if t == 0 and op == "<" and flip:
                return _cmp(v1.info["cos"], 1, "<")
            if op == "==":
                return False
            return flip  # v > t
        if t > PI:
            if op == "==":
                return False
            return not flip
        cc = Fraction(-1) if t == PI else _cos_const(t)
        if 2 * t == PI:
            cc = Fraction(0)
        if op == "==":
            return _cmp(v1.info["cos"], cc, "==")
        # theta < t <=> cos > cc
        if not flip:
            return _cmp(v1.info["cos"], cc, ">" if op == "<" else ">=")
        return _cmp(v1.info["cos"], cc, "<" if op == "<" else "<=")
    u2 = v2.info["unit"]
    if c1 / u1 + c2 / u2 != 0:
        return None
    if op == "==":
        return _cmp(v1.info["cos"], v2.info["cos"], "==")
    if c1 > 0:
        return _cmp(v1.info["cos"], v2.info["cos"], ">" if op == "<" else ">=")
    return _cmp(v1.info["cos"], v2.info["cos"], "<" if op == "<" else "<=")


def _angle_sum_cmp(p, op):
    """a*(theta1 + theta2 - pi)"""
    items = []
    cst = None
    for m, c in p.t.items():
        if m == ():
            cst = c
        elif len(m) == 1 and m[0][1] == 1 and "cos" in VARS[m[0][0]].info:
            items.append((c, VARS[m[0][0]]))
        else:
            return None
    if cst is None or len(items) != 2:
        return None
    (c1, v1), (c2, v2) = items
    r1 = c1 / v1.info["unit"]
    if r1 != c2 / v2.info["unit"] or cst != -r1 * PI:
        return None
    if v1.info.get("linear") and v2.info.get("linear"):
        return None
    u, w = v1.info["cos"], -v2.info["cos"]
    if op == "==":
        return _cmp(u, w, "==")
    if r1 > 0:  # theta1 < pi - theta2
        return _cmp(u, w, ">" if op == "<" else ">=")
    return _cmp(u, w, "<" if op == "<" else "<=")


# --------------------------------------------------------------------------
# derived functions
def ite(c, a, b):
    c = to_sbool(c)
    if not isinstance(c, SBool):
        return a if c else b
    if is_boolish(a) and is_boolish(b):
        return s_or(s_and(c, a), s_and(s_not(c), b))
    if isinstance(a, str) or isinstance(b, str):
        return a if bool(c) else b
    ca, cb = coerce(a), coerce(b)
    if ca is None or cb is None:
        return a if bool(c) else b
    d = _add(ca[0], ca[1], -cb[0], cb[1], False)
    if not isinstance(d, SReal) and d == 0:
        return a
    isint = ca[2] and cb[2]
    key = ("ite", c.e.get_id(), ca[0], frozenset(ca[1].items()), cb[0], frozenset(cb[1].items()))
    v = _KEYED.get(key)
    if v is None:
        v = new_var(fresh_name("ite"), "int" if isint else "real")
        _KEYED[key] = v
        _KEEP.append(c.e)
        x = mk(Poly.var(v))
        e1 = _cmp(x, a, "==")
        e2 = _cmp(x, b, "==")
        ax = s_and(s_implies(c, e1), s_or(c, e2))
        v.axioms.append(ax.e)
        v.deps |= ax.vars
        if coerce_nonneg(ca) and coerce_nonneg(cb):
            v.info["nonneg"] = True
        v.info["ite"] = (c, a, b)
    return SReal(Poly.var(v), {}, isint)


def coerce_nonneg(c):
    return _nonneg_known(c[0]) and all(_sign_known(f) > 0 or e % 2 == 0 for f, e in c[1].items())


_KEYED = {}
_KEEP = []
_RADICANDS = []


def s_abs(x):
    if not isinstance(x, SReal):
        return abs(x)
    c = (x.num, x.den)
    # known sign?
    sg = _sign_known(x.num)
    if sg == 0 and _nonneg_known(x.num):
        sg = 1
    if sg == 0 and _nonneg_known(-x.num):
        sg = -1
    if sg == 0 and CUR.ctx is not None and len(x.num.t) > 1:
        sg = CUR.ctx.sign_under_assumptions(x.num)
    if sg:
        ok = True
        for f, e in x.den.items():
            if e % 2 == 0:
                continue
            k = _sign_known(f)
            if k == 0 and CUR.ctx is not None:
                k = CUR.ctx.sign_under_assumptions(f)
            if k == 0:
                ok = False
                break
            sg *= k
        if ok:
            return x if sg > 0 else -x
    return _extreme("max", [x, -x], x.isint, nonneg=True)


def _extreme(kind, xs, isint, nonneg=False):
    cs = [coerce(x) for x in xs]
    key = (kind, frozenset((c[0], frozenset(c[1].items())) for c in cs))
    v = _KEYED.get(key)
    if v is None:
        v = new_var(fresh_name(kind), "int" if isint else "real")
        _KEYED[key] = v
        op = ">=" if kind == "max" else "<="
        raw = SReal(Poly.var(v), {}, isint)
        bounds = [_cmp(raw, x, op) for x in xs]
        eqs = [_cmp(raw, x, "==") for x in xs]
        ax = s_and(*bounds, s_or(*eqs))
        v.axioms.append(ax.e)
        v.deps |= ax.vars
        v.info["alts"] = (kind, [(c[0], c[1]) for c in cs])
        if nonneg:
            v.info["nonneg"] = True
            # |x|^2 = x^2
            if not cs[0][1]:
                v.square = cs[0][0] * cs[0][0]
                v.kind = "abs"
    return SReal(Poly.var(v), {}, isint)


def s_max(*xs):
    return _minmax("max", xs)


def s_min(*xs):
    return _minmax("min", xs)


def _minmax(kind, xs):
    xs = list(xs)
    if not any(isinstance(x, SReal) for x in xs):
        return max(xs) if kind == "max" else min(xs)
    acc = xs[0]
    for x in xs[1:]:
        c = _cmp(acc, x, "<" if kind == "min" else ">")
        if isinstance(c, bool):
            acc = acc if c else x
        else:
            isint = coerce(acc)[2] and coerce(x)[2]
            acc = _extreme(kind, [acc, x], isint)
    return acc


def floor_(x):
    if not isinstance(x, SReal):
        if isinstance(x, float):
            return math.floor(x)
        return math.floor(x)
    if x.isint:
        return x
    # split integer-valued part off
    ip, rest = {}, {}
    if not x.den:
        for m, c in x.num.t.items():
            if c.denominator == 1 and all(VARS[v].z3.decl().kind() == z3.Z3_OP_TO_REAL for v, _ in m):
                ip[m] = c
            else:
                rest[m] = c
        if ip:
            fr = mk(Poly(rest))
            return floor_(fr) + mk(Poly(ip), None, True)
    key = ("floor", x.key())
    v = _KEYED.get(key)
    if v is None:
        v = new_var(fresh_name("floor"), "int")
        _KEYED[key] = v
        raw = SReal(Poly.var(v), {}, True)
        ax = s_and(_cmp(raw, x, "<="), _cmp(x, raw + 1, "<"))
        v.axioms.append(ax.e)
        v.deps |= ax.vars
        v.info["floor"] = x
    return SReal(Poly.var(v), {}, True)


def trunc_(x):
    if not isinstance(x, SReal):
        return math.trunc(x)
    if x.isint:
        return x
    return ite(_cmp(x, 0, ">="), floor_(x), -floor_(-x))


def s_round(x, n=None):
    """round half to even is approximated: |r - x| <= half a unit, r a multiple of the unit"""
    if not isinstance(x, SReal):
        if isinstance(x, float) and not math.isfinite(x):
            return x
        r = round(x, n) if n is not None else round(x)
        return r
    if x.isint and (n is None or n >= 0):
        return x
    if n is None or n == 0:
        # round(x + 2 k) = round(x) + 2 k for integer-valued k
        ip, rest = {}, {}
        if not x.den:
            for m, c in x.num.t.items():
                if c.denominator == 1 and c % 2 == 0 and all(VARS[v].z3.decl().kind() == z3.Z3_OP_TO_REAL for v, _ in m):
                    ip[m] = c
                else:
                    rest[m] = c
            if ip:
                return s_round(mk(Poly(rest))) + mk(Poly(ip), None, True)
        key = ("round", x.key())
        v = _KEYED.get(key)
        if v is None:
            # round(-x) = -round(x)
            w = _KEYED.get(("round", (-x).key()))
            if w is not None:
                return -SReal(Poly.var(w), {}, True)
        if v is None:
            v = new_var(fresh_name("round"), "int")
            _KEYED[key] = v
            raw = SReal(Poly.var(v), {}, True)
            h = Fraction(1, 2)
            ax = s_and(_cmp(raw - h, x, "<="), _cmp(x, raw + h, "<="))
            v.axioms.append(ax.e)
            v.deps |= ax.vars
        return SReal(Poly.var(v), {}, True)
    u = Fraction(10) ** n
    return s_round(x * u) / u


def s_sqrt(x):
    if isinstance(x, float) and not math.isfinite(x):
        return x
    if not isinstance(x, SReal):
        x = Fraction(x) if not isinstance(x, float) else Fraction(repr(x))
        if x < 0:
            return math.nan
        a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if a * a == x.numerator and b * b == x.denominator:
            r = Fraction(a, b)
            return r
        return _sqrt_poly(Poly.const(x))
    if not x.den:
        return _sqrt_checked(x.num)
    # sqrt(n/d): split even powers
    n = x.num
    outside = {}
    inside = Poly.const(1)
    known = []
    for f, e in x.den.items():
        if e // 2:
            outside[f] = e // 2
        if e % 2:
            sf = 1 if _nn(f) else CUR.ctx.sign_under_assumptions(f) if CUR.ctx is not None else 0
            if sf > 0:
                known.append(f)
            else:
                inside = inside * f
            outside[f] = outside.get(f, 0) + 1
    r = _sqrt_checked(n * inside)
    if isinstance(r, float):
        return r
    for f in known:
        r = r * _sqrt_poly(f)
    # 1/|outside|
    o = mk(_den_poly(outside))
    return div(r, s_abs(o))


def _sqrt_checked(n):
    if n.is_const():
        return s_sqrt(n.const_value())
    ex = n.sqrt_exact() if len(n.t) <= 400 else None
    if ex is not None:
        return s_abs(mk(ex))
    if not _nonneg_known(n) and CUR.ctx is not None:
        if CUR.ctx.may_be_negative(n):
            CUR.ctx.note("sqrt of a negative number")
            return math.nan
    return _sqrt_poly(n)


def _nn(p):
    """known to be non-negative"""
    if p.is_const():
        return p.const_value() >= 0
    if _nonneg_known(p):
        return True
    from . import engine

    return engine.sym_sos(p)


def _sqrt_poly(n):
    # factor out known radicands: sqrt(A*B) = sqrt(A)*sqrt(B)
    if len(n.t) > 3 and not any(n == q for q in _RADICANDS):
        for q in _RADICANDS:
            if 1 < len(q.t) < len(n.t) and _nn(q):
                k = n.divide_exact(q)
                if k is not None and _nn(k):
                    return _sqrt_poly(q) * _sqrt_poly(k)
    # pull out square factors of the content and monomials
    c = n.content()
    a, b = c.numerator, c.denominator
    # sqrt(a/b) = sqrt(a*b)/b ; take square part of a*b
    ab = a * b
    sq, k = 1, 2
    while k * k <= ab and k < 1000:
        while ab % (k * k) == 0:
            ab //= k * k
            sq *= k
        k += 1
    outside = Fraction(sq, b)
    p = n.scale(Fraction(ab) / c)
    common = None
    for m in p.t:
        d = dict(m)
        common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    out = None
    if common:
        half = {v: e // 2 for v, e in common.items() if e // 2}
        if half:
            mm = tuple(sorted((v, 2 * e) for v, e in half.items()))
            p = Poly({P._mono_div(m, mm): k for m, k in p.t.items()})
            out = s_abs(mk(Poly({tuple(sorted(half.items())): Fraction(1)})))
    if p.is_const():
        r = s_sqrt_const(p.const_value())
    else:
        r = mk(Poly.var(sqrt_var(p)))
    r = r * outside
    if out is not None:
        r = r * out
    return r


def s_sqrt_const(x):
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return Fraction(a, b)
    return mk(Poly.var(sqrt_var(Poly.const(x))))


def sqrt_var(p):
    key = ("sqrt", p)
    v = _KEYED.get(key)
    if v is None:
        v = new_var(fresh_name("sqrt"), "real")
        v.kind = "sqrt"
        _KEYED[key] = v
        v.square = p
        if len(p.t) > 1:
            _RADICANDS.append(p)
        v.info["nonneg"] = True
        if _sign_known(p) > 0:
            v.info["sign"] = 1
        v.axioms.append(v.z3 >= 0)
        v.axioms.append(v.z3 * v.z3 == p.z3())
        v.deps |= p.vars()
    return v


def _enclosed(x, b):
    """x ** b of two rational constants: a variable within 1e-30 (relative) of the value"""
    key = ("enclosed", x, b)
    v = _KEYED.get(key)
    if v is None:
        import decimal

        with decimal.localcontext() as c:
            c.prec = 50
            d = (decimal.Decimal(x.numerator) / decimal.Decimal(x.denominator)) ** (decimal.Decimal(b.numerator) / decimal.Decimal(b.denominator))
        val = Fraction(d)
        v = new_var(fresh_name("pow"), "real")
        _KEYED[key] = v
        v.info["nonneg"] = True
        err = abs(val) / 10**30
        ax = s_and(_cmp(mk(Poly.var(v)), val - err, ">="), _cmp(mk(Poly.var(v)), val + err, "<="))
        v.axioms.append(ax.e)
    return mk(Poly.var(v))


def s_root(x, b):
    """x ** (p/q) for x >= 0"""
    if not isinstance(x, SReal):
        x = Fraction(x)
        q = b.denominator

        def iroot(n):
            r = round(n ** (1.0 / q)) if n < 2**1000 else 0
            for k in (r - 1, r, r + 1):
                if k >= 0 and k**q == n:
                    return k
            return None

        if x >= 0:
            n, d = iroot(x.numerator), iroot(x.denominator)
            if n is not None and d is not None:
                return power(Fraction(n, d), b.numerator)
            if q > 3:
                return _enclosed(x, b)
    key = ("root", b.denominator, x.key() if isinstance(x, SReal) else x)
    v = _KEYED.get(key)
    if v is None:
        if CUR.ctx is not None and isinstance(x, SReal):
            c = coerce(x)
            if bool(_cmp(x, 0, "<")):
                return math.nan
        v = new_var(fresh_name("root"), "real")
        _KEYED[key] = v
        v.info["nonneg"] = True
        v.axioms.append(v.z3 >= 0)
        c = coerce(x)
        raw = mk(Poly.var(v))
        ax = _cmp(power(raw, b.denominator), x, "==")
        v.axioms.append(ax.e)
        v.deps |= ax.vars
    return power(mk(Poly.var(v)), b.numerator)


# ---- trigonometry
def angle_var(cosv, nonlinear=True):
    """theta in [0, pi] with cos(theta) = cosv (radians)"""
    if not isinstance(cosv, SReal):
        cosv = Fraction(cosv)
        table = {
            Fraction(1): 0,
            Fraction(-1): PI,
            Fraction(0): PI / 2,
            Fraction(1, 2): PI / 3,
            Fraction(-1, 2): 2 * PI / 3,
        }
        if cosv in table:
            return table[cosv]
        if abs(cosv) > 1:
            return math.nan
    k = cosv.key() if isinstance(cosv, SReal) else cosv
    key = ("acos", k)
    v = _KEYED.get(key)
    if v is None and isinstance(cosv, SReal):
        # acos(-c) = pi - acos(c)
        minus = -cosv
        w = _KEYED.get(("acos", minus.key()))
        if w is not None:
            return PI - mk(Poly.var(w))
    if v is None:
        v = new_var(fresh_name("acos"), "real")
        _KEYED[key] = v
        v.info["cos"] = cosv
        v.info["unit"] = Fraction(1)
        v.info["nonneg"] = True
        v.axioms.append(v.z3 >= 0)
        v.axioms.append(v.z3 <= z3.RealVal(str(PI)))
        # where cos is 0 / sign
        raw = SReal(Poly.var(v), {}, False)
        halfpi = z3.RealVal(str(PI / 2))
        pos = _cmp(cosv, 0, ">")
        zero = _cmp(cosv, 0, "==")
        neg = _cmp(cosv, 0, "<")
        for cnd, ex in ((pos, v.z3 < halfpi), (zero, v.z3 == halfpi), (neg, v.z3 > halfpi)):
            if isinstance(cnd, SBool):
                v.axioms.append(z3.Implies(cnd.e, ex))
                v.deps |= cnd.vars
            elif cnd:
                v.axioms.append(ex)
    return mk(Poly.var(v))


def input_angle(name, unit, lo=None, hi=None):
    """An input angle with its own cosine/sine variables; compared linearly.
    unit: radians per unit (PI/180 for degrees)."""
    v = new_var(name, "real")
    if "cos" not in v.info:
        c = new_var("cos_" + name, "real")
        s = new_var("sin_" + name, "real")
        s.kind = "sin"
        s.square = Poly.const(1) - Poly.var(c) * Poly.var(c)
        s.info["sign"] = 1
        s.info["nonneg"] = True
        s.axioms.append(s.z3 > 0)
        s.axioms.append(s.z3 * s.z3 + c.z3 * c.z3 == 1)
        s.deps.add(c.id)
        v.info["cos"] = mk(Poly.var(c))
        v.info["cos_z3"] = c.z3
        v.info["sin"] = mk(Poly.var(s))
        v.info["unit"] = unit
        v.info["linear"] = True
        full = z3.RealVal(str(PI / unit))
        half = z3.RealVal(str(PI / unit / 2))
        v.axioms += [
            v.z3 > 0,
            v.z3 < full,
            (c.z3 > 0) == (v.z3 < half),
            (c.z3 < 0) == (v.z3 > half),
            c.z3 < 1,
            c.z3 > -1,
        ]
        v.info["sign"] = 1
        v.info["nonneg"] = True
        v.deps |= {c.id, s.id}
        c.axioms.append(z3.And(c.z3 < 1, c.z3 > -1))
    return mk(Poly.var(v))


def _trig_parts(x):
    """x = m * theta_base + const -> (var, m(in radians multiple), const) or None"""
    if not isinstance(x, SReal):
        return None, Fraction(0), Fraction(x)
    if x.den:
        return None
    base = None
    m = Fraction(0)
    cst = Fraction(0)
    for mono, c in x.num.t.items():
        if mono == ():
            cst = c
        elif len(mono) == 1 and mono[0][1] == 1 and "cos" in VARS[mono[0][0]].info:
            if base is not None:
                return None
            base = VARS[mono[0][0]]
            m = c / base.info["unit"]
        else:
            return None
    return base, m, cst


def cs(x):
    """(cos x, sin x)"""
    if isinstance(x, float) and not math.isfinite(x):
        return math.nan, math.nan
    pr = _trig_parts(x)
    if pr is None:
        parts = _angle_terms(x)
        if parts is None:
            return _any_cs(x)
        c, s = cs(parts[0])
        for t in parts[1:]:
            c1, s1 = cs(t)
            c, s = c * c1 - s * s1, s * c1 + c * s1
        return c, s
    base, m, cst = pr
    if base is None:
        c, s = Fraction(1), Fraction(0)
    else:
        c0 = base.info["cos"]
        s0 = base.info.get("sin")
        if s0 is None:
            s0 = s_sqrt(1 - c0 * c0)
            base.info["sin"] = s0
        neg = m < 0
        am = abs(m)
        if am == 1:
            c, s = c0, s0
        elif am == 2:
            c, s = 2 * c0 * c0 - 1, 2 * s0 * c0
        elif am == Fraction(1, 2):
            c, s = s_sqrt((1 + c0) / 2), s_sqrt((1 - c0) / 2)
        elif am == 3:
            c, s = 4 * c0 * c0 * c0 - 3 * c0, 3 * s0 - 4 * s0 * s0 * s0
        elif am == 0:
            c, s = Fraction(1), Fraction(0)
        else:
            c, s = _any_cs(mk(Poly.var(base)) * (am * base.info["unit"]))
        if neg:
            s = -s
    if cst:
        q = cst / (PI / 2)
        if q.denominator == 1:
            k = int(q) % 4
            c, s = [(c, s), (-s, c), (-c, -s), (s, -c)][k]
        else:
            kc, ks = const_cs(cst)
            c, s = c * kc - s * ks, s * kc + c * ks
    return c, s


def _angle_terms(x):
    """the summands of a linear combination of angles, or None"""
    if not isinstance(x, SReal) or x.den or len(x.num.t) < 2:
        return None
    for mono in x.num.t:
        if mono and not (len(mono) == 1 and mono[0][1] == 1 and "cos" in VARS[mono[0][0]].info):
            return None
    return [mk(Poly({mono: c})) for mono, c in x.num.t.items()]


def _any_cs(x):
    """an unknown point of the unit circle (the same one for the same argument)"""
    key = ("anycs", x.key())
    r = _KEYED.get(key)
    if r is None:
        c, s = new_var(fresh_name("anycos"), "real"), new_var(fresh_name("anysin"), "real")
        ax = c.z3 * c.z3 + s.z3 * s.z3 == 1
        c.axioms.append(ax)
        s.axioms.append(ax)
        c.deps.add(s.id)
        s.deps.add(c.id)
        r = (mk(Poly.var(c)), mk(Poly.var(s)))
        _KEYED[key] = r
    return r


def const_cs(t):
    q = t / PI
    exact = {
        Fraction(0): (1, 0), Fraction(1, 3): (Fraction(1, 2), "r3/2"), Fraction(1, 6): ("r3/2", Fraction(1, 2)),
        Fraction(2, 3): (Fraction(-1, 2), "r3/2"), Fraction(5, 6): ("-r3/2", Fraction(1, 2)),
        Fraction(1, 4): ("r2/2", "r2/2"), Fraction(3, 4): ("-r2/2", "r2/2"),
    }
    if q in exact:
        out = []
        for z in exact[q]:
            if z == "r3/2":
                z = s_sqrt(Fraction(3)) / 2
            elif z == "-r3/2":
                z = -(s_sqrt(Fraction(3)) / 2)
            elif z == "r2/2":
                z = s_sqrt(Fraction(2)) / 2
            elif z == "-r2/2":
                z = -(s_sqrt(Fraction(2)) / 2)
            out.append(z)
        return tuple(out)
    a = mpmath.mpf(q.numerator) / q.denominator
    return (
        Fraction(str(mpmath.nstr(mpmath.cospi(a), 45))),
        Fraction(str(mpmath.nstr(mpmath.sinpi(a), 45))),
    )


def s_cos(x):
    return cs(x)[0]


def s_sin(x):
    return cs(x)[1]


def s_tan(x):
    c, s = cs(x)
    return div(s, c)


CHECK_DOMAIN = []  # non-empty while a harness studies rounding of lengths


def s_acos(x):
    if isinstance(x, float) and not math.isfinite(x):
        return x
    if CHECK_DOMAIN and isinstance(x, SReal):
        if bool(s_or(x > 1, x < -1)):
            return math.nan
    return angle_var(x)


# --------------------------------------------------------------------------
# integers and concretisation
def concretize_int(x):
    if not isinstance(x, SReal):
        return int(x)
    c = CUR.ctx
    if c is None:
        raise Unsupported("concretisation outside a path")
    return c.concretize(x)


# --------------------------------------------------------------------------
# formatting tokens
TOKENS = []
_TOKKEY = {}
T0, T1 = "\ue000", "\ue001"


def make_token(x, spec):
    if x.isint and spec in ("", "d") and CUR.ctx is not None:
        v = CUR.ctx.few_values(x)
        if v is not None:
            return format(v, spec)
    key = (x.key(), spec)
    i = _TOKKEY.get(key)
    if i is None:
        i = len(TOKENS)
        TOKENS.append([x, spec, None])
        _TOKKEY[key] = i
    return f"{T0}{i}{T1}"


def _spec_prec(spec, isint):
    if spec.endswith("f") or spec.endswith("e"):
        body = spec[:-1]
        if "." in body:
            return int(body.split(".")[1])
        return 6
    return None


def parse_token(s):
    """value of a formatted number"""
    i = int(s.strip()[1:-1])
    x, spec, val = TOKENS[i]
    if val is None:
        n = _spec_prec(spec, x.isint)
        if spec.endswith("e") or spec.endswith("g"):
            raise Unsupported("format " + spec)
        if n is None or x.isint:
            val = x
        else:
            v = new_var(fresh_name("fmt"), "real")
            h = Fraction(1, 2 * 10**n)
            raw = SReal(Poly.var(v), {}, False)
            ax = s_and(_cmp(raw - h, x, "<="), _cmp(x, raw + h, "<="))
            v.axioms.append(ax.e)
            v.deps |= ax.vars
            v.info["fmt"] = x
            val = mk(Poly.var(v))
        TOKENS[i][2] = val
    return val


def is_token(s):
    if not isinstance(s, str):
        return False
    s = s.strip()
    return len(s) >= 3 and s[0] == T0 and s[-1] == T1 and s[1:-1].isdigit()


# --------------------------------------------------------------------------
# inputs
def real(name, pos=False, nonneg=False):
    v = new_var(name, "real")
    if pos and not v.info.get("sign"):
        v.info["sign"] = 1
        v.info["nonneg"] = True
        v.axioms.append(v.z3 > 0)
    if nonneg and not v.info.get("nonneg"):
        v.info["nonneg"] = True
        v.axioms.append(v.z3 >= 0)
    v.info["input"] = True
    return SReal(Poly.var(v), {}, False)


def integer(name, lo=None, hi=None):
    v = new_var(name, "int")
    if not v.info.get("input"):
        v.info["input"] = True
        if lo is not None:
            v.axioms.append(v.z3 >= lo)
            if lo > 0:
                v.info["sign"] = 1
            if lo >= 0:
                v.info["nonneg"] = True
        if hi is not None:
            v.axioms.append(v.z3 <= hi)
        v.info["range"] = (lo, hi)
    return SReal(Poly.var(v), {}, True)


def boolean(name):
    x = z3.Bool(name)
    v = new_var("bool:" + name, "bool")
    v.z3 = x
    v.info["input"] = True
    return SBool(x, {v.id})
