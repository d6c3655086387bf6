"""builtins / math stand-ins and the AST helper functions."""

import builtins
import math as rmath
import types
from fractions import Fraction

import numpy as rnp

from . import npshim, sym, symstr
from .symstr import SymStr
from .sym import CUR, CannotSpeculate, SBool, SReal, Unsupported, ite, s_and, s_not, s_or, to_sbool

ENTERED = {}


# ---- classes standing for float / int / bool --------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Fraction)) or (isinstance(x, SReal) and not x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, Fraction))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


def sx_float(x=0):
    if isinstance(x, SReal):
        return SReal(x.num, x.den, False) if x.isint else x
    if isinstance(x, SBool):
        return x.as_int()
    if isinstance(x, str):
        if sym.is_token(x):
            return sx_float(sym.parse_token(x))
        v = builtins.float(x)  # raises ValueError like the original
        if rmath.isfinite(v):
            return Fraction(x.strip().replace("_", "")) if "n" not in x.lower() else v
        return v
    if isinstance(x, (builtins.bool, builtins.int, Fraction)):
        return Fraction(x)
    if isinstance(x, builtins.float):
        return npshim._num(x)
    if isinstance(x, rnp.ndarray):
        if x.size == 1:
            return sx_float(x.reshape(-1)[0])
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
    if isinstance(x, (rnp.integer, rnp.floating, rnp.bool_)):
        return sx_float(npshim.wrap(x))
    return npshim._num(builtins.float(x))


class float_(metaclass=_FloatMeta):
    _sx_float = True

    def __new__(cls, x=0):
        return sx_float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, SReal) and x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class int_(metaclass=_IntMeta):
    _sx_int = True

    def __new__(cls, x=0, *base):
        if isinstance(x, SReal):
            return sym.trunc_(x)
        if isinstance(x, SBool):
            return x.as_int()
        if isinstance(x, str) and sym.is_token(x):
            v = sym.parse_token(x)
            if isinstance(v, SReal) and not v.isint:
                raise ValueError("invalid literal for int() with base 10")
            return v
        if isinstance(x, rnp.ndarray) and x.size == 1:
            return int_(x.reshape(-1)[0])
        return builtins.int(x, *base)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SBool))

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class bool_(metaclass=_BoolMeta):
    _sx_bool = True

    def __new__(cls, x=False):
        if isinstance(x, (SBool, SReal)):
            return to_sbool(x)
        return builtins.bool(x)


def _has_sym(xs):
    return any(isinstance(x, (SReal, SBool)) for x in xs)


def b_max(*a, key=None, **kw):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and _has_sym(xs):
        return sym.s_max(*xs)
    if key is not None:
        ks = [key(x) for x in xs]
        if _has_sym(ks):
            return xs[npshim.argmax(npshim._vec(ks))]
        return builtins.max(xs, key=key, **kw)
    return builtins.max(xs, **kw)


def b_min(*a, key=None, **kw):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and _has_sym(xs):
        return sym.s_min(*xs)
    if key is not None:
        ks = [key(x) for x in xs]
        if _has_sym(ks):
            return xs[npshim.argmin(npshim._vec(ks))]
        return builtins.min(xs, key=key, **kw)
    return builtins.min(xs, **kw)


def b_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + (x.as_int() if isinstance(x, SBool) else x)
    return r


def b_abs(x):
    if isinstance(x, SReal):
        return sym.s_abs(x)
    return builtins.abs(x)


def b_round(x, n=None):
    if isinstance(x, SReal):
        return sym.s_round(x, n)
    if isinstance(x, rnp.ndarray):
        return npshim.around(x, n or 0)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_all(xs):
    acc = []
    for x in xs:
        x = to_sbool(x)
        if x is False:
            return s_and(*acc, False) if not acc else False
        acc.append(x)
    return s_and(*acc)


def b_any(xs):
    acc = []
    for x in xs:
        x = to_sbool(x)
        if x is True:
            return True
        acc.append(x)
    return s_or(*acc)


def b_range(*a):
    a = [sym.concretize_int(x) if isinstance(x, SReal) else x for x in a]
    return builtins.range(*a)


def b_divmod(a, b):
    if isinstance(a, SReal) or isinstance(b, SReal):
        q = sym.floor_(sym.div(a, b))
        return q, a - q * b
    return builtins.divmod(a, b)


def b_pow(a, b, *m):
    return pow_(a, b)


# ---- operators ---------------------------------------------------------------
def div(a, b):
    if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
        return npshim.map2(npshim._div, a, b)
    if isinstance(a, (builtins.int, Fraction)) and isinstance(b, (builtins.int, Fraction)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Fraction(a) / b
    ca = sym.coerce(a)
    cb = sym.coerce(b)
    if ca is not None and cb is not None:
        return sym.div(a, b)
    return a / b


def pow_(a, b):
    if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
        return npshim.map2(sym.power, a, b)
    if sym.coerce(a) is not None and sym.coerce(b) is not None:
        if isinstance(a, builtins.int) and isinstance(b, builtins.int) and b >= 0:
            return a**b
        return sym.power(a, b)
    return a**b


def mod(a, b):
    if isinstance(a, str):
        return a % b
    if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
        return npshim.map2(npshim._fmod_py, a, b)
    return a % b


def idiv(a, b):
    if isinstance(a, rnp.ndarray):
        r = npshim.map2(npshim._div, a, b)
        if a.dtype != object:
            raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64')")
        rnp.asarray(a)[...] = rnp.asarray(r)
        return a
    return div(a, b)


def _speculate(f):
    """evaluate f without forking; (True, value) or (False, None)"""
    c = CUR.ctx
    if c is None:
        return False, None
    c.speculating += 1
    try:
        return True, f()
    except CannotSpeculate:
        return False, None
    except Exception:
        return False, None
    finally:
        c.speculating -= 1


def _is_sym(x):
    return isinstance(x, (SBool, SReal)) or (
        isinstance(x, npshim.SArr) and x.size == 1 and isinstance(x.reshape(-1)[0], (SBool, SReal))
    )


def and_(*fs):
    v = fs[0]()
    acc = None
    for f in fs[1:]:
        if isinstance(v, (SBool, SReal)):
            cond = to_sbool(v)
            known = CUR.ctx.pckeys.get(cond.e.get_id()) if isinstance(cond, SBool) else cond
            if known is None:
                ok, w = _speculate(f)
                if ok and (sym.is_boolish(w)):
                    v = s_and(cond, w)
                    continue
                known = builtins.bool(cond)
            if not known:
                return False
            v = f()
        else:
            if not v:
                return v
            v = f()
    return v


def or_(*fs):
    v = fs[0]()
    for f in fs[1:]:
        if isinstance(v, (SBool, SReal)):
            cond = to_sbool(v)
            known = CUR.ctx.pckeys.get(cond.e.get_id()) if isinstance(cond, SBool) else cond
            if known is None:
                ok, w = _speculate(f)
                if ok and (sym.is_boolish(w)):
                    v = s_or(cond, w)
                    continue
                known = builtins.bool(cond)
            if known:
                return v if isinstance(v, SReal) else True
            v = f()
        else:
            if v:
                return v
            v = f()
    return v


def not_(x):
    if isinstance(x, (SBool, SReal)):
        return s_not(x)
    return not x


def _any_symstr(x, items):
    return isinstance(x, str) and (isinstance(x, SymStr) or any(isinstance(k, SymStr) for k in items))


def contains(x, c):
    if isinstance(c, SymDictView):
        return c.__contains__(x)
    if isinstance(c, SymStr):
        return c.has(x)
    if isinstance(c, str) and isinstance(x, SymStr):
        return symstr.mkstr(c).has(x)
    if isinstance(x, str) and (
        isinstance(c, (dict, list, tuple, set, frozenset)) or type(c).__name__ in ("dict_keys", "dict_values")
    ):
        items = list(c)
        if _any_symstr(x, items):
            x = x if isinstance(x, SymStr) else symstr.mkstr(x)
            return s_or(False, *[x.seq(k) for k in items])
    if isinstance(c, (dict,)):
        if isinstance(x, SReal) or any(isinstance(k, SReal) for k in c):
            return s_or(*[_eqv(x, k) for k in c])
        return x in c
    if isinstance(c, (list, tuple, set, frozenset)) or type(c).__name__ in ("dict_keys", "dict_values", "range", "odict_keys"):
        items = list(c)
        if isinstance(c, range) and not isinstance(x, SReal):
            return x in c
        if isinstance(x, SReal) or any(isinstance(k, SReal) for k in items):
            return s_or(*[_eqv(x, k) for k in items])
        return x in c
    return x in c


def _eqv(a, b):
    if a is b:
        return True
    if isinstance(a, SReal) or isinstance(b, SReal):
        if sym.coerce(a) is None or sym.coerce(b) is None:
            return False
        return sym._cmp(a, b, "==")
    r = a == b
    return r


def not_contains(x, c):
    return s_not(contains(x, c))


class SymDictView:
    pass


def _fmt(v, conv, spec):
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    if isinstance(v, SymStr):
        if not spec:
            return v
        import re

        m = re.fullmatch(r"(.?[<>^])?(\d+)s?", spec)
        if not m:
            raise Unsupported("format of a symbolic string: " + spec)
        al, w = m.group(1) or "<", builtins.int(m.group(2))
        fill = al[0] if len(al) == 2 else " "
        pad = builtins.max(0, w - len(v))
        left = {"<": 0, ">": pad, "^": pad // 2}[al[-1]]
        return symstr.mkstr(fill * left) + v + fill * (pad - left)
    return format(v, spec)


def fstr(*parts):
    out = []
    for p in parts:
        out.append(p if isinstance(p, str) else _fmt(*p))
    if any(isinstance(x, SymStr) for x in out):
        return symstr.joinstr("", out)
    return "".join(out)


def join(sep, xs):
    if isinstance(sep, str):
        xs = list(xs)
        if isinstance(sep, SymStr) or any(isinstance(x, SymStr) for x in xs):
            return symstr.joinstr(sep, xs)
    return sep.join(xs)


def getitem(o, k):
    if isinstance(o, dict) and isinstance(k, str) and _any_symstr(k, o):
        k = k if isinstance(k, SymStr) else symstr.mkstr(k)
        for kk, v in o.items():
            if builtins.bool(k.seq(kk)):
                return v
        raise KeyError(k)
    if isinstance(k, SReal):
        if isinstance(o, dict):
            return _dict_get(o, k, None, True)
        if isinstance(o, (list, tuple, str, builtins.range)):
            return o[sym.concretize_int(k)]
    elif isinstance(k, slice):
        if any(isinstance(z, SReal) for z in (k.start, k.stop, k.step)):
            k = slice(*[sym.concretize_int(z) if isinstance(z, SReal) else z for z in (k.start, k.stop, k.step)])
        return o[k]
    elif isinstance(o, dict) and not isinstance(k, (str, builtins.int)) is False and any(
        isinstance(q, SReal) for q in o
    ):
        return _dict_get(o, k, None, True)
    return o[k]


def _dict_get(o, k, default, must):
    # group keys by value so the number of forks is the number of distinct values
    groups = []
    for kk, v in o.items():
        for g in groups:
            if g[0] is v or (type(g[0]) is type(v) and isinstance(v, (builtins.int, str, tuple, Fraction)) and g[0] == v):
                g[1].append(kk)
                break
        else:
            groups.append((v, [kk]))
    conds = [s_or(*[_eqv(k, kk) for kk in ks]) for _, ks in groups]
    vals = [g[0] for g in groups]
    if len(vals) and all(isinstance(v, (builtins.bool,)) for v in vals):
        if builtins.bool(s_or(*conds)):
            return s_or(*[s_and(c, v) for c, v in zip(conds, vals)])
    else:
        for c, v in zip(conds, vals):
            if builtins.bool(c):
                return v
    if must:
        raise KeyError(k)
    return default


def cmpchain(first, *rest):
    """rest: op1, thunk1, op2, thunk2 ..."""
    a = first
    thunks = []
    vals = [a]

    def pair(i):
        def f():
            while len(vals) <= i + 1:
                vals.append(rest[2 * (len(vals) - 1) + 1]())
            return compare(rest[2 * i], vals[i], vals[i + 1])

        return f

    n = len(rest) // 2
    return and_(*[pair(i) for i in range(n)])


def compare(op, a, b):
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "in":
        return contains(a, b)
    if op == "notin":
        return not_contains(a, b)
    if op == "is":
        return a is b
    return a is not b


def flt(s):
    return Fraction(s)


def enter(mod, qual):
    ENTERED[(mod, qual)] = ENTERED.get((mod, qual), 0) + 1


class HelperModule(types.ModuleType):
    pass


H = HelperModule("__sx__")
H.__dict__.update(
    div=div, pow=pow_, mod=mod, idiv=idiv, and_=and_, or_=or_, not_=not_, contains=contains,
    not_contains=not_contains, getitem=getitem, fstr=fstr, join=join, cmpchain=cmpchain, flt=flt, enter=enter,
)


# ---- math ---------------------------------------------------------------------
math = types.ModuleType("math")


def _m1(f, rf):
    def g(x):
        return f(npshim.wrap(x))

    return g


def _msqrt(x):
    x = npshim.wrap(x)
    r = sym.s_sqrt(x)
    if isinstance(r, builtins.float) and rmath.isnan(r) and not (isinstance(x, builtins.float)):
        raise ValueError("math domain error")
    return r


def _macos(x):
    x = npshim.wrap(x)
    if isinstance(x, SReal) and not npshim.bounded_by_one(x):
        if builtins.bool(s_or(x > 1, x < -1)):
            raise ValueError("math domain error")
    elif not isinstance(x, SReal) and abs(x) > 1:
        raise ValueError("math domain error")
    return sym.s_acos(x)


def _msum(xs):
    return b_sum(xs)


math.__dict__.update(
    {k: v for k, v in rmath.__dict__.items() if not k.startswith("__")}
)
math.__dict__.update(
    cos=sym.s_cos, sin=sym.s_sin, tan=sym.s_tan, acos=_macos, sqrt=_msqrt, pi=sym.PI, tau=2 * sym.PI,
    floor=lambda x: sym.floor_(x), ceil=lambda x: -sym.floor_(-x), trunc=sym.trunc_, fabs=sym.s_abs,
    fsum=_msum, hypot=lambda *xs: sym.s_sqrt(b_sum([x * x for x in xs])),
    radians=lambda x: x * sym.PI / 180, degrees=lambda x: x * 180 / sym.PI,
    isclose=lambda a, b, rel_tol=Fraction("1e-9"), abs_tol=Fraction(0): _misclose(a, b, rel_tol, abs_tol),
    isnan=lambda x: isinstance(x, builtins.float) and rmath.isnan(x),
    isfinite=lambda x: not isinstance(x, builtins.float) or rmath.isfinite(x),
    pow=lambda a, b: pow_(a, b), copysign=lambda a, b: sym.ite(b >= 0, sym.s_abs(a), -sym.s_abs(a)),
    prod=lambda xs: npshim._prod(list(xs)), dist=lambda a, b: npshim.norm(npshim.array(a) - npshim.array(b)),
)


def _misclose(a, b, rel, ab):
    m = sym.s_max(rel * sym.s_max(sym.s_abs(a), sym.s_abs(b)), ab)
    return sym.s_abs(a - b) <= m


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.set)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.set)

    def __eq__(cls, o):
        return o is cls or o is builtins.set

    def __hash__(cls):
        return hash(builtins.set)


class set_(metaclass=_SetMeta):
    def __new__(cls, xs=()):
        xs = list(xs)
        if any(isinstance(x, SymStr) for x in xs):
            xs = [symstr.mkstr(x) if isinstance(x, str) and not isinstance(x, SymStr) else x for x in xs]
        return builtins.set(xs)


def make_builtins(importer):
    d = dict(builtins.__dict__)
    d.update(
        set=set_, float=float_, int=int_, bool=bool_, max=b_max, min=b_min, sum=b_sum, abs=b_abs, round=b_round,
        all=b_all, any=b_any, range=b_range, divmod=b_divmod, pow=b_pow, __import__=importer,
    )
    return d
