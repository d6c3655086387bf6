"""numpy stand-in: real numpy containers (dtype=object) over exact/symbolic scalars."""

import builtins
import itertools
import math
import types
from fractions import Fraction

import numpy as rnp

from . import sym
from .poly import Poly
from .sym import CUR, SBool, SReal, Unsupported, coerce, ite, s_and, s_not, s_or


class SArr(rnp.ndarray):
    """object (or plain integer/bool/str) array; all arithmetic goes through exact scalars"""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        name = ufunc.__name__
        raw = [rnp.asarray(x) if isinstance(x, rnp.ndarray) else x for x in inputs]
        kwargs.pop("dtype", None)
        kwargs.pop("casting", None)
        if method == "reduce":
            axis = kwargs.get("axis", 0)
            keepdims = kwargs.get("keepdims", False)
            fn = REDUCERS.get(name)
            if fn is not None:
                return reduce_axis(fn, raw[0], axis, keepdims)
            raise Unsupported("reduce of " + name)
        if method == "outer":
            a, b = raw
            a = obj(a)
            b = obj(b)
            return map2(SCALAR2[name], a.reshape(a.shape + (1,) * b.ndim), b)
        if method != "__call__":
            raise Unsupported(f"ufunc method {method} of {name}")
        if name == "matmul":
            res = matmul(raw[0], raw[1])
        elif name in SCALAR1 and len(raw) == 1:
            res = map1(SCALAR1[name], raw[0])
        elif name in SCALAR2:
            res = map2(SCALAR2[name], raw[0], raw[1])
        elif all(_plain(x) for x in raw):
            res = getattr(ufunc, method)(*raw, **kwargs)
            res = wrap(res)
        else:
            raise Unsupported("ufunc " + name)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            _store(o, res)
            return o
        return res

    # comparisons etc. all arrive through ufuncs; reductions below
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_axis(REDUCERS["add"], self, axis, keepdims)

    def prod(self, axis=None, **kw):
        return reduce_axis(REDUCERS["multiply"], self, axis, False)

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return div_(self.sum(axis=axis), n)

    def max(self, axis=None, **kw):
        return reduce_axis(REDUCERS["maximum"], self, axis, False)

    def min(self, axis=None, **kw):
        return reduce_axis(REDUCERS["minimum"], self, axis, False)

    def all(self, axis=None, **kw):
        return reduce_axis(REDUCERS["logical_and"], self, axis, False)

    def any(self, axis=None, **kw):
        return reduce_axis(REDUCERS["logical_or"], self, axis, False)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def clip(self, lo=None, hi=None, **kw):
        return clip(self, lo, hi)

    def dot(self, o):
        return dot(self, o)

    def argmin(self, axis=None, **kw):
        return argmin(self, axis)

    def argmax(self, axis=None, **kw):
        return argmax(self, axis)

    def argsort(self, axis=-1, **kw):
        return argsort(self, axis)

    def sort(self, axis=-1, **kw):
        self[...] = sort(self, axis)

    def cumsum(self, axis=None, **kw):
        return cumsum(self, axis)

    def astype(self, dtype, **kw):
        return array(self, dtype=dtype)

    def conj(self):
        return self

    def tolist(self):
        return rnp.asarray(self).tolist()

    def copy(self, order="C"):
        return wrap(rnp.ndarray.copy(self, order))

    def __bool__(self):
        if self.size != 1:
            raise ValueError(
                "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
            )
        return bool(sym.to_sbool(self.reshape(-1)[0]))

    def __float__(self):
        raise Unsupported("float(array)")

    def __getitem__(self, idx):
        idx = _conv_index(idx)
        r = rnp.asarray(self)[idx]
        return wrap(r)

    def __setitem__(self, idx, val):
        if isinstance(idx, rnp.ndarray) and idx.dtype == object and _has_sbool(idx):
            base = rnp.asarray(self)
            v = rnp.broadcast_to(obj(val), base.shape) if rnp.ndim(val) == 0 else None
            if v is None or idx.shape != base.shape:
                idx = _force_mask(idx)
            else:
                for i in rnp.ndindex(base.shape):
                    base[i] = ite(idx[i], v[i], base[i])
                return
        idx = _conv_index(idx)
        base = rnp.asarray(self)
        if base.dtype == object:
            if isinstance(val, (list, tuple, rnp.ndarray)):
                val = rnp.asarray(obj(val))
            elif isinstance(val, builtins.float):
                val = _num(val)
            base[idx] = val
        else:
            if isinstance(val, Fraction):
                val = builtins.int(val) if base.dtype.kind in "iu" else builtins.float(val)
            base[idx] = rnp.asarray(val) if isinstance(val, rnp.ndarray) else val

    def _inplace(name):
        def f(self, o):
            if isinstance(o, (SReal, SBool)):
                _store(self, map2(SCALAR2[name], rnp.asarray(self), o))
                return self
            return getattr(rnp.ndarray, {"add": "__iadd__", "subtract": "__isub__", "multiply": "__imul__", "true_divide": "__itruediv__"}[name])(self, o)

        return f

    __iadd__ = _inplace("add")
    __isub__ = _inplace("subtract")
    __imul__ = _inplace("multiply")
    __itruediv__ = _inplace("true_divide")
    del _inplace

    def __contains__(self, x):
        r = self == x
        return bool(r.any()) if isinstance(r, rnp.ndarray) else bool(r)

    def __reduce__(self):
        raise Unsupported("pickling an array")

    def __deepcopy__(self, memo):
        return wrap(rnp.asarray(self).copy())

    def __str__(self):
        return "[" + " ".join(str(x) for x in rnp.asarray(self).tolist()) + "]"

    __repr__ = __str__

    def __format__(self, spec):
        if self.shape == ():
            return format(self.item(), spec)
        return str(self)


def _plain(x):
    return not isinstance(x, (SReal, SBool, Fraction)) and not (isinstance(x, rnp.ndarray) and x.dtype == object)


def _has_sbool(a):
    return any(isinstance(x, SBool) for x in rnp.asarray(a).reshape(-1))


def _force_mask(a):
    a = rnp.asarray(a)
    out = rnp.zeros(a.shape, dtype=bool)
    for i in rnp.ndindex(a.shape):
        out[i] = builtins.bool(a[i])
    return out


def _conv_index(idx):
    if isinstance(idx, tuple):
        return tuple(_conv_index(i) for i in idx)
    if isinstance(idx, SReal):
        return sym.concretize_int(idx)
    if isinstance(idx, Fraction):
        raise IndexError("only integers, slices and integer arrays are valid indices")
    if isinstance(idx, rnp.ndarray) and idx.dtype == object:
        flat = list(rnp.asarray(idx).reshape(-1))
        if all(isinstance(x, (bool, SBool, rnp.bool_)) for x in flat):
            return _force_mask(idx)
        r = rnp.empty(idx.shape, dtype=int)
        rf = r.reshape(-1)
        for k, x in enumerate(flat):
            if isinstance(x, Fraction):
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            rf[k] = sym.concretize_int(x)
        return r
    if isinstance(idx, rnp.ndarray):
        return rnp.asarray(idx)
    if isinstance(idx, list):
        return [_conv_index(i) for i in idx]
    return idx


def wrap(r):
    if isinstance(r, SArr):
        return r
    if isinstance(r, rnp.ndarray):
        if r.dtype.kind == "f":
            return obj(r)
        return r.view(SArr)
    if isinstance(r, rnp.integer):
        return builtins.int(r)
    if isinstance(r, rnp.bool_):
        return builtins.bool(r)
    if isinstance(r, rnp.floating):
        return _num(builtins.float(r))
    if isinstance(r, rnp.str_):
        return str(r)
    return r


def _num(x):
    """float -> exact"""
    if isinstance(x, builtins.float):
        if math.isnan(x) or math.isinf(x):
            return x
        return Fraction(repr(x)) if x != math.pi else sym.PI
    return x


def _store(o, res):
    if isinstance(o, rnp.ndarray):
        base = rnp.asarray(o)
        if base.dtype != object:
            res = rnp.asarray(res)
            if res.dtype == object:
                if base.dtype.kind in "iu" and any(
                    isinstance(x, (Fraction, SReal)) and not getattr(x, "isint", False) for x in res.reshape(-1)
                ):
                    raise rnp._core._exceptions._UFuncOutputCastingError(
                        rnp.add, "same_kind", rnp.dtype(float), rnp.dtype(int), 0
                    ) if False else TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        base[...] = res


def flat_iter(x):
    if isinstance(x, rnp.ndarray):
        for y in rnp.asarray(x).reshape(-1):
            yield y
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from flat_iter(y)
    else:
        yield x


def obj(x):
    """-> object ndarray (SArr) with exact scalars"""
    if isinstance(x, rnp.ndarray):
        if x.dtype == object:
            return x.view(SArr)
        out = rnp.empty(x.shape, dtype=object)
        of = out.reshape(-1) if out.size else out
        for k, v in enumerate(rnp.asarray(x).reshape(-1)):
            of[k] = wrap(v)
        return out.view(SArr)
    shape = _shape(x)
    out = rnp.empty(shape, dtype=object)
    if out.size == 0:
        return out.view(SArr)
    for k, v in enumerate(flat_iter(x)):
        out.reshape(-1)[k] = _num(wrap(v))
    return out.view(SArr)


def _shape(x):
    if isinstance(x, rnp.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        ss = [_shape(y) for y in x]
        if any(s != ss[0] for s in ss):
            raise ValueError(
                "setting an array element with a sequence. The requested array has an inhomogeneous shape"
            )
        return (len(x),) + ss[0]
    if hasattr(x, "__iter__") and not isinstance(x, (str, SReal)):
        return _shape(list(x))
    return ()


def _listify(x):
    if isinstance(x, (rnp.ndarray, str, SReal, SBool)):
        return x
    if isinstance(x, (list, tuple)):
        return [_listify(y) for y in x]
    if hasattr(x, "__iter__"):
        return [_listify(y) for y in x]
    return x


def _isfloat_dtype(d):
    return d is not None and (
        getattr(d, "_sx_float", False) or d in (builtins.float, rnp.float64, "float", "float64", rnp.double)
    )


def _isint_dtype(d):
    return d is not None and (
        getattr(d, "_sx_int", False) or d in (builtins.int, rnp.int64, "int", "int64", rnp.int32, rnp.intc)
    )


def _isbool_dtype(d):
    return d is not None and (getattr(d, "_sx_bool", False) or d in (builtins.bool, rnp.bool_, "bool"))


def _tofloat(v):
    if isinstance(v, SReal):
        return SReal(v.num, v.den, False) if v.isint else v
    if isinstance(v, (builtins.bool, builtins.int)):
        return Fraction(builtins.int(v))
    if isinstance(v, builtins.float):
        return _num(v)
    if isinstance(v, str):
        from .shims import sx_float

        return sx_float(v)
    if isinstance(v, SBool):
        return v.as_int()
    if v is None:
        return math.nan
    if isinstance(v, rnp.ndarray) and v.shape == ():
        return _tofloat(v.item())
    if isinstance(v, (rnp.integer, rnp.floating, rnp.bool_)):
        return _tofloat(wrap(v))
    if isinstance(v, Fraction):
        return v
    if hasattr(v, "__float__"):
        return _num(builtins.float(v))
    raise TypeError(f"float() argument must be a string or a real number, not {type(v).__name__!r}")


def _toint(v):
    if isinstance(v, SReal):
        return sym.trunc_(v)
    return builtins.int(v)


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False, **kw):
    x = _listify(x)
    if dtype is not None and dtype is not object and not isinstance(dtype, str):
        if isinstance(dtype, rnp.dtype):
            dtype = {"f": builtins.float, "i": builtins.int, "b": builtins.bool, "O": object}.get(dtype.kind, dtype)
    if _isfloat_dtype(dtype):
        o = obj(x)
        out = rnp.empty(o.shape, dtype=object)
        for i in rnp.ndindex(o.shape):
            out[i] = _tofloat(rnp.asarray(o)[i])
        r = out.view(SArr)
    elif _isint_dtype(dtype):
        o = obj(x)
        vals = [_toint(v) for v in flat_iter(o)]
        if any(isinstance(v, SReal) for v in vals):
            out = rnp.empty(o.shape, dtype=object)
            for i, v in zip(rnp.ndindex(o.shape), vals):
                out[i] = v
            r = out.view(SArr)
        else:
            r = rnp.array(vals, dtype=int).reshape(o.shape).view(SArr)
    elif _isbool_dtype(dtype):
        o = obj(x)
        vals = [sym.to_sbool(v) for v in flat_iter(o)]
        r = _boolarr(vals, o.shape)
    elif dtype is object or dtype == "O":
        r = rnp.array(x, dtype=object).view(SArr)
    else:
        if isinstance(x, rnp.ndarray):
            r = (obj(x) if x.dtype.kind == "f" else rnp.array(rnp.asarray(x))).view(SArr)
            r = rnp.array(rnp.asarray(r)).view(SArr) if r.dtype != object else rnp.asarray(r).copy().view(SArr)
        else:
            shape = _shape(x)
            vals = list(flat_iter(x))
            if vals and all(isinstance(v, (builtins.bool, builtins.int, rnp.integer, rnp.bool_, str)) for v in vals):
                r = rnp.array(x).view(SArr)
                if r.dtype.kind not in "ibuUS":
                    r = obj(x)
            else:
                if any(isinstance(v, (Fraction, builtins.float)) or (isinstance(v, SReal) and not v.isint) for v in vals):
                    out = rnp.empty(shape, dtype=object)
                    for i, v in zip(rnp.ndindex(shape), vals):
                        out[i] = _tofloat(v)
                    r = out.view(SArr)
                elif not vals:
                    out = rnp.empty(shape, dtype=object)
                    r = out.view(SArr)
                else:
                    r = obj(x)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def asarray(x, dtype=None, **kw):
    if isinstance(x, SArr) and dtype is None:
        return x
    if isinstance(x, SArr) and _isfloat_dtype(dtype) and x.dtype == object:
        if not any(isinstance(v, (builtins.int, builtins.bool)) or getattr(v, "isint", False) for v in flat_iter(x)):
            return x
    return array(x, dtype=dtype)


def _boolarr(vals, shape):
    if any(isinstance(v, SBool) for v in vals):
        out = rnp.empty(shape, dtype=object)
        for i, v in zip(rnp.ndindex(shape), vals):
            out[i] = v
        return out.view(SArr)
    return rnp.array([builtins.bool(v) for v in vals], dtype=bool).reshape(shape).view(SArr)


def _finish(out):
    """object result -> tighten dtype if fully concrete booleans / integers"""
    flat = list(out.reshape(-1))
    if flat and all(isinstance(v, builtins.bool) for v in flat):
        return rnp.array(flat, dtype=bool).reshape(out.shape).view(SArr)
    if flat and all(type(v) is builtins.int for v in flat):
        return rnp.array(flat, dtype=int).reshape(out.shape).view(SArr)
    return out.view(SArr)


def map1(f, a):
    if not isinstance(a, (rnp.ndarray, list, tuple)):
        return f(wrap(a))
    a = obj(a)
    if a.shape == ():
        return f(rnp.asarray(a).item())
    out = rnp.empty(a.shape, dtype=object)
    ra = rnp.asarray(a)
    c = CUR.ctx
    if c is not None:
        c.numpy_div += 1
    try:
        for i in rnp.ndindex(a.shape):
            out[i] = f(ra[i])
    finally:
        if c is not None:
            c.numpy_div -= 1
    return _finish(out)


def map2(f, a, b):
    sa = isinstance(a, (rnp.ndarray, list, tuple))
    sb = isinstance(b, (rnp.ndarray, list, tuple))
    if not sa and not sb:
        return f(wrap(a), wrap(b))
    a = obj(a) if sa else rnp.array(_box(a), dtype=object)
    b = obj(b) if sb else rnp.array(_box(b), dtype=object)
    a, b = rnp.broadcast_arrays(rnp.asarray(a), rnp.asarray(b))
    if a.shape == ():
        return f(_unbox(a.item()), _unbox(b.item()))
    out = rnp.empty(a.shape, dtype=object)
    c = CUR.ctx
    if c is not None:
        c.numpy_div += 1
    try:
        for i in rnp.ndindex(a.shape):
            out[i] = f(_unbox(a[i]), _unbox(b[i]))
    finally:
        if c is not None:
            c.numpy_div -= 1
    return _finish(out)


class _Box:
    def __init__(self, v):
        self.v = v


def _box(v):
    return _Box(v)


def _unbox(v):
    return v.v if isinstance(v, _Box) else v


def reduce_axis(fn, a, axis, keepdims=False):
    a = rnp.asarray(obj(a))
    if axis is None:
        r = fn(list(a.reshape(-1)))
        if keepdims:
            return wrap(rnp.array(_box(r), dtype=object))
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return fn(list(a.reshape(-1)))
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = rnp.asarray(obj(reduce_axis(fn, a, ax)))
        return wrap(a)
    axis = axis % a.ndim
    moved = rnp.moveaxis(a, axis, -1)
    if moved.ndim == 1:
        r = fn(list(moved))
        return r
    out = rnp.empty(moved.shape[:-1], dtype=object)
    for i in rnp.ndindex(out.shape):
        out[i] = fn(list(moved[i]))
    res = _finish(out)
    if keepdims:
        res = rnp.expand_dims(rnp.asarray(res), axis).view(SArr)
    return res


def _sum(xs):
    r = 0
    for x in xs:
        r = x + r if not isinstance(x, builtins.bool) else builtins.int(x) + r
    return r


def _prod(xs):
    r = 1
    for x in xs:
        r = x * r
    return r


def _amax(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    return sym.s_max(*xs)


def _amin(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    return sym.s_min(*xs)


REDUCERS = {
    "add": _sum,
    "multiply": _prod,
    "maximum": _amax,
    "minimum": _amin,
    "logical_and": lambda xs: s_and(*xs),
    "logical_or": lambda xs: s_or(*xs),
    "bitwise_and": lambda xs: s_and(*xs),
    "bitwise_or": lambda xs: s_or(*xs),
}


def sign(x):
    if isinstance(x, SReal):
        c = CUR.ctx
        if c is not None and not c.speculating:
            if bool(x > 0):
                return 1
            if bool(x < 0):
                return -1
            return 0
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    if isinstance(x, builtins.float) and math.isnan(x):
        return x
    return (x > 0) - (x < 0)


def _div(a, b):
    c = CUR.ctx
    if c is not None:
        c.numpy_div += 1
    try:
        return sym.div(a, b)
    finally:
        if c is not None:
            c.numpy_div -= 1


def div_(a, b):
    if isinstance(a, (rnp.ndarray,)) or isinstance(b, rnp.ndarray):
        return map2(_div, a, b)
    return sym.div(a, b)


def _fmod_py(a, b):
    if isinstance(a, SReal) or isinstance(b, SReal):
        return (a if isinstance(a, SReal) else a) % b
    if isinstance(b, (builtins.int, Fraction)) and b == 0:
        return math.nan
    return a % b


def _floordiv(a, b):
    if isinstance(a, SReal) or isinstance(b, SReal):
        return sym.floor_(sym.div(a, b))
    return a // b


def _isfinite(x):
    if isinstance(x, builtins.float):
        return math.isfinite(x)
    return True


SCALAR1 = {
    "absolute": sym.s_abs,
    "fabs": sym.s_abs,
    "negative": lambda x: -x,
    "positive": lambda x: x,
    "sqrt": sym.s_sqrt,
    "square": lambda x: x * x,
    "sign": sign,
    "floor": lambda x: _asfloat(sym.floor_(x)),
    "ceil": lambda x: _asfloat(-sym.floor_(-x)),
    "trunc": lambda x: _asfloat(sym.trunc_(x)),
    "rint": lambda x: _asfloat(sym.s_round(x, 0)),
    "logical_not": s_not,
    "invert": lambda x: s_not(x) if isinstance(x, (builtins.bool, SBool)) else ~x,
    "cos": sym.s_cos,
    "sin": sym.s_sin,
    "tan": sym.s_tan,
    "arccos": sym.s_acos,
    "isnan": lambda x: isinstance(x, builtins.float) and math.isnan(x),
    "isfinite": _isfinite,
    "isinf": lambda x: isinstance(x, builtins.float) and math.isinf(x),
    "deg2rad": lambda x: x * sym.PI / 180,
    "radians": lambda x: x * sym.PI / 180,
    "rad2deg": lambda x: sym.div(x * 180, sym.PI),
    "degrees": lambda x: sym.div(x * 180, sym.PI),
    "conjugate": lambda x: x,
    "reciprocal": lambda x: _div(1, x),
}


def _asfloat(x):
    return Fraction(x) if isinstance(x, builtins.int) else x


def _eq(a, b):
    if isinstance(a, SReal) or isinstance(b, SReal):
        r = sym._cmp(a, b, "==") if isinstance(a, SReal) else sym._cmp(b, a, "==")
        return False if r is NotImplemented else r
    return a == b


def _cmpf(op):
    def f(a, b):
        if isinstance(a, SReal) or isinstance(b, SReal):
            if not isinstance(a, SReal):
                flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
                return sym._cmp(b, a, flip)
            return sym._cmp(a, b, op)
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()

    return f


SCALAR2 = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": _div,
    "true_divide": _div,
    "floor_divide": _floordiv,
    "remainder": _fmod_py,
    "mod": _fmod_py,
    "power": lambda a, b: sym.power(a, b),
    "float_power": lambda a, b: sym.power(a, b),
    "maximum": lambda a, b: sym.s_max(a, b),
    "minimum": lambda a, b: sym.s_min(a, b),
    "less": _cmpf("<"),
    "less_equal": _cmpf("<="),
    "greater": _cmpf(">"),
    "greater_equal": _cmpf(">="),
    "equal": _eq,
    "not_equal": lambda a, b: s_not(_eq(a, b)),
    "logical_and": lambda a, b: s_and(a, b),
    "logical_or": lambda a, b: s_or(a, b),
    "bitwise_and": lambda a, b: s_and(a, b) if sym.is_boolish(a) else a & b,
    "bitwise_or": lambda a, b: s_or(a, b) if sym.is_boolish(a) else a | b,
    "logical_xor": lambda a, b: s_not(sym.s_iff(a, b)),
    "bitwise_xor": lambda a, b: s_not(sym.s_iff(a, b)) if sym.is_boolish(a) else a ^ b,
    "hypot": lambda a, b: sym.s_sqrt(a * a + b * b),
    "arctan2": lambda a, b: _atan2(a, b),
}


def _atan2(y, x):
    r = sym.s_sqrt(x * x + y * y)
    if bool(sym.to_sbool(_eq(r, 0))):
        return Fraction(0)
    th = sym.s_acos(sym.div(x, r))
    return th if bool(sym.to_sbool(_cmpf(">=")(y, 0))) else -th


# ---- Cauchy-Schwarz certificates -----------------------------------------
DOTS = []  # (dot, |u|^2, |v|^2) for pairs of vectors
_DOTKEYS = set()


def _register_dot(u, v, d):
    if not isinstance(d, SReal) or len(u) > 3:
        return
    k = d.key()
    if k in _DOTKEYS:
        return
    try:
        U = _sum([x * x for x in u])
        V = _sum([x * x for x in v])
    except Exception:
        return
    if (isinstance(U, SReal) and len(U.num.t) > 60) or (isinstance(V, SReal) and len(V.num.t) > 60):
        return
    _DOTKEYS.add(k)
    DOTS.append((d, U, V))
    if len(DOTS) > 400:
        DOTS.pop(0)


def bounded_by_one(x):
    """|x| <= 1 by Cauchy-Schwarz (x*x*U*V == d*d for a registered scalar product d = u.v)"""
    if not isinstance(x, SReal):
        return abs(x) <= 1
    if x.key() in _BOUNDED:
        return True
    x2 = x * x
    for d, U, V in reversed(DOTS):
        lhs = x2 * U * V
        rhs = d * d
        if _same(lhs, rhs):
            _BOUNDED.add(x.key())
            # 1 - x^2 is non-negative
            q = 1 - x2
            if isinstance(q, SReal):
                sgn = 1
                for f, e in q.den.items():
                    if e % 2:
                        s = sym._sign_known(f)
                        if s == 0 and sym._nonneg_known(f):
                            s = 1
                        if s == 0:
                            sgn = 0
                        else:
                            sgn *= s
                if sgn:
                    from . import engine

                    engine.SOS.append(q.num if sgn > 0 else -q.num)
            return True
    return False


_BOUNDED = set()


def _same(a, b):
    d = a - b
    return not isinstance(d, SReal) and d == 0


def dot(a, b, out=None):
    a = obj(a)
    b = obj(b)
    if a.shape == () or b.shape == ():
        return map2(SCALAR2["multiply"], a, b)
    return matmul(a, b) if b.ndim <= 2 else _dotn(a, b)


def _dotn(a, b):
    raise Unsupported("dot of higher-dimensional arrays")


def matmul(a, b, out=None):
    ai = isinstance(a, rnp.ndarray) and a.dtype.kind in "iub"
    bi = isinstance(b, rnp.ndarray) and b.dtype.kind in "iub"
    if ai and bi:
        return wrap(rnp.asarray(a) @ rnp.asarray(b))
    a = rnp.asarray(obj(a))
    b = rnp.asarray(obj(b))
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
        d = _sum([x * y for x, y in zip(a, b)])
        _register_dot(a, b, d)
        return d
    if a.ndim == 1:
        if a.shape[0] != b.shape[-2]:
            raise ValueError("matmul: mismatch in core dimension")
        if b.ndim > 2:
            raise Unsupported("matmul ndim")
        return _finish(_vec([_sum([a[k] * b[k, j] for k in range(len(a))]) for j in range(b.shape[1])]))
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("matmul: mismatch in core dimension")
        out = rnp.empty(a.shape[:-1], dtype=object)
        for i in rnp.ndindex(out.shape):
            out[i] = _sum([a[i][k] * b[k] for k in range(len(b))])
        return _finish(out)
    if b.ndim == 2:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("matmul: mismatch in core dimension")
        out = rnp.empty(a.shape[:-1] + (b.shape[1],), dtype=object)
        for i in rnp.ndindex(a.shape[:-1]):
            for j in range(b.shape[1]):
                out[i + (j,)] = _sum([a[i][k] * b[k, j] for k in range(b.shape[0])])
        return _finish(out)
    bs = rnp.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = rnp.broadcast_to(a, bs + a.shape[-2:])
    b = rnp.broadcast_to(b, bs + b.shape[-2:])
    out = rnp.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in rnp.ndindex(bs):
        out[i] = rnp.asarray(matmul(a[i], b[i]))
    return _finish(out)


def _vec(xs):
    out = rnp.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = x
    return out


def clip(x, lo=None, hi=None, out=None, **kw):
    lo = kw.get("a_min", lo)
    hi = kw.get("a_max", hi)

    def f(v):
        if isinstance(v, builtins.float):
            return v
        if isinstance(v, SReal) and lo is not None and hi is not None:
            if not isinstance(lo, SReal) and not isinstance(hi, SReal) and lo == -1 and hi == 1:
                if bounded_by_one(v):
                    return v
        if lo is not None:
            v = sym.s_max(v, _num(lo)) if not _decided(v, lo, ">=") else v
        if hi is not None:
            v = sym.s_min(v, _num(hi)) if not _decided(v, hi, "<=") else v
        return v

    return map1(f, x)


def _decided(v, b, op):
    if not isinstance(v, SReal):
        return False
    c = sym._cmp(v, _num(b), op)
    if isinstance(c, builtins.bool):
        return c
    ctx = CUR.ctx
    if ctx is None:
        return False
    return ctx.feasible(s_not(c)) == "unsat"


def isclose(a, b, rtol=Fraction("1e-5"), atol=Fraction("1e-8"), equal_nan=False):
    rtol, atol = _num(rtol), _num(atol)

    def f(x, y):
        x, y = _num(x), _num(y)
        if isinstance(x, builtins.float) or isinstance(y, builtins.float):
            return isinstance(x, builtins.float) and isinstance(y, builtins.float) and x == y
        bnd = atol + rtol * sym.s_abs(y)
        d = x - y
        return s_and(_cmpf("<=")(d, bnd), _cmpf("<=")(-d, bnd))

    return map2(f, a, b)


def allclose(a, b, rtol=Fraction("1e-5"), atol=Fraction("1e-8"), equal_nan=False):
    r = isclose(a, b, rtol, atol)
    if isinstance(r, rnp.ndarray):
        r = s_and(*list(rnp.asarray(r).reshape(-1)))
        if isinstance(r, SBool):
            x, y = obj(a), obj(b)
            if x.shape == (3,) and y.shape == (3,):
                # implied (hence redundant) Euclidean bound: helps the solver on unit vectors
                rt, at = _num(rtol), _num(atol)
                dd, bb = 0, 0
                for u, v in zip(x, y):
                    dd = (u - v) * (u - v) + dd
                    bb = v * v + bb
                return s_and(_cmpf("<=")(dd, 6 * at * at + 2 * rt * rt * bb), r)
    return r


def array_equal(a, b, **kw):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    r = map2(_eq, a, b)
    return s_and(*list(flat_iter(r)))


def around(x, decimals=0, out=None):
    return map1(lambda v: _asfloat(sym.s_round(v, decimals)) if not isinstance(v, builtins.int) else v, x)


def where(c, a=None, b=None):
    if a is None:
        m = _force_mask(obj(c))
        return tuple(wrap(i) for i in rnp.where(m))
    c = obj(c)
    a = obj(a)
    b = obj(b)
    c, a, b = rnp.broadcast_arrays(rnp.asarray(c), rnp.asarray(a), rnp.asarray(b))
    if c.shape == ():
        return ite(c.item(), a.item(), b.item())
    out = rnp.empty(c.shape, dtype=object)
    for i in rnp.ndindex(c.shape):
        out[i] = ite(c[i], a[i], b[i])
    return _finish(out)


def _filled(v):
    def f(shape, dtype=None, **kw):
        if hasattr(shape, "shape") and not isinstance(shape, (builtins.int,)):
            shape = tuple(builtins.int(s) for s in shape)
        if isinstance(shape, SReal):
            shape = sym.concretize_int(shape)
        if _isint_dtype(dtype):
            return rnp.full(shape, v, dtype=int).view(SArr)
        if _isbool_dtype(dtype):
            return rnp.full(shape, builtins.bool(v), dtype=bool).view(SArr)
        out = rnp.empty(shape, dtype=object)
        out.fill(Fraction(v))
        return out.view(SArr)

    return f


zeros = _filled(0)
ones = _filled(1)
empty = _filled(0)


def full(shape, v, dtype=None, **kw):
    out = rnp.empty(shape, dtype=object)
    out.fill(_num(v))
    return array(out.view(SArr), dtype=dtype) if dtype is not None else _finish(out)


def _like(v):
    def f(a, dtype=None, **kw):
        a = a if isinstance(a, rnp.ndarray) else array(a)
        if dtype is None and a.dtype.kind in "iu":
            dtype = builtins.int
        if dtype is None and a.dtype.kind in "b":
            dtype = builtins.bool
        return _filled(v)(a.shape, dtype)

    return f


def eye(n, m=None, k=0, dtype=None, **kw):
    e = rnp.eye(n, m, k, dtype=int)
    if _isint_dtype(dtype):
        return e.view(SArr)
    return array(e, dtype=builtins.float)


def diag(x, k=0):
    x = obj(x) if not isinstance(x, rnp.ndarray) else x
    if x.ndim == 1 and x.dtype == object:
        out = zeros((len(x), len(x)))
        for i, v in enumerate(rnp.asarray(x)):
            rnp.asarray(out)[i, i] = v
        return out
    return wrap(rnp.diag(rnp.asarray(x), k))


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **kw):
    if retstep or axis != 0:
        raise Unsupported("linspace options")
    if dtype is not None:
        r = linspace(a, b, num, endpoint)
        if _isint_dtype(dtype):
            r = map2(lambda x, y: sym.floor_(x), r, 0)
        return array(r, dtype=dtype)
    num = builtins.int(num)
    aa, bb = obj(a), obj(b)
    scalar = aa.shape == () and bb.shape == ()
    den = (num - 1) if endpoint else num
    rows = []
    for i in range(num):
        if den == 0:
            rows.append(map2(lambda x, y: _tofloat(x), a, b))
        else:
            t = Fraction(i, den)
            rows.append(map2(lambda x, y: _tofloat(x + (y - x) * t), a, b))
    if scalar:
        return _vec(rows).view(SArr)
    return stack(rows)


def arange(*a, dtype=None, **kw):
    a = [sym.concretize_int(x) if isinstance(x, SReal) and x.isint else x for x in a]
    if all(isinstance(x, builtins.int) for x in a) and not _isfloat_dtype(dtype):
        return rnp.arange(*a).view(SArr)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    out = []
    x = _num(start)
    while bool(sym.to_sbool(_cmpf("<")(x, _num(stop)))):
        out.append(_tofloat(x))
        x = x + _num(step)
        if len(out) > 10000:
            raise Unsupported("arange too long")
    return _vec(out).view(SArr)


def concatenate(xs, axis=0, **kw):
    xs = [x if isinstance(x, rnp.ndarray) else array(x) for x in xs]
    if any(x.dtype == object for x in xs):
        xs = [rnp.asarray(obj(x)) for x in xs]
        return rnp.concatenate(xs, axis=axis).view(SArr)
    return wrap(rnp.concatenate([rnp.asarray(x) for x in xs], axis=axis))


def stack(xs, axis=0, **kw):
    xs = [x if isinstance(x, rnp.ndarray) else array(x) for x in xs]
    if any(x.dtype == object for x in xs):
        xs = [rnp.asarray(obj(x)) for x in xs]
        return rnp.stack(xs, axis=axis).view(SArr)
    return wrap(rnp.stack([rnp.asarray(x) for x in xs], axis=axis))


def vstack(xs, **kw):
    return concatenate([x if rnp.ndim(x) > 1 else array(x).reshape((1, -1)) for x in map(array, xs)])


def cross(a, b, **kw):
    a = rnp.asarray(obj(a))
    b = rnp.asarray(obj(b))
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != 3 or len(b) != 3:
            raise Unsupported("cross")
        return _vec(
            [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        ).view(SArr)
    a, b = rnp.broadcast_arrays(a, b)
    out = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(a.shape[:-1]):
        out[i] = rnp.asarray(cross(a[i], b[i]))
    return out.view(SArr)


def sort(a, axis=-1, **kw):
    a = obj(a) if not (isinstance(a, rnp.ndarray) and a.dtype != object) else a
    if a.dtype != object:
        return wrap(rnp.sort(rnp.asarray(a), axis=axis))
    if a.ndim == 1 or axis is None:
        return _finish(_vec(_sorted_list(list(rnp.asarray(a).reshape(-1)))))
    m = rnp.moveaxis(rnp.asarray(a), axis, -1).copy()
    for i in rnp.ndindex(m.shape[:-1]):
        m[i] = _vec(_sorted_list(list(m[i])))
    return rnp.moveaxis(m, -1, axis).view(SArr)


def _sorted_list(xs):
    import functools

    return [xs[i] for i in _argsort_list(xs)]


def _argsort_list(xs):
    # insertion sort, stable
    order = []
    for i, x in enumerate(xs):
        k = len(order)
        while k > 0 and bool(sym.to_sbool(_cmpf("<")(x, xs[order[k - 1]]))):
            k -= 1
        order.insert(k, i)
    return order


def argsort(a, axis=-1, **kw):
    a = obj(a) if not (isinstance(a, rnp.ndarray) and a.dtype != object) else a
    if a.dtype != object:
        return wrap(rnp.argsort(rnp.asarray(a), axis=axis, kind="stable"))
    if a.ndim != 1:
        raise Unsupported("argsort ndim")
    return rnp.array(_argsort_list(list(rnp.asarray(a))), dtype=int).view(SArr)


def argmin(a, axis=None, **kw):
    if axis is not None and rnp.ndim(a) > 1:
        raise Unsupported("argmin axis")
    xs = list(flat_iter(obj(a)))
    best = 0
    for i in range(1, len(xs)):
        if bool(sym.to_sbool(_cmpf("<")(xs[i], xs[best]))):
            best = i
    return best


def argmax(a, axis=None, **kw):
    if axis is not None and rnp.ndim(a) > 1:
        raise Unsupported("argmax axis")
    xs = list(flat_iter(obj(a)))
    best = 0
    for i in range(1, len(xs)):
        if bool(sym.to_sbool(_cmpf(">")(xs[i], xs[best]))):
            best = i
    return best


def cumsum(a, axis=None, **kw):
    a = obj(a)
    if a.ndim != 1:
        raise Unsupported("cumsum")
    out = []
    s = 0
    for x in rnp.asarray(a):
        s = x + s
        out.append(s)
    return _finish(_vec(out))


def diff(a, **kw):
    a = obj(a)
    return a[1:] - a[:-1]


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if isinstance(a, rnp.ndarray) and a.dtype != object or not any(
        isinstance(v, (SReal, Fraction)) for v in flat_iter(a)
    ):
        r = rnp.unique(
            rnp.asarray(a if isinstance(a, rnp.ndarray) else list(a)),
            return_index=return_index,
            return_inverse=return_inverse,
            return_counts=return_counts,
            axis=axis,
        )
        return tuple(wrap(x) for x in r) if isinstance(r, tuple) else wrap(r)
    if axis is not None:
        raise Unsupported("unique axis")
    xs = list(flat_iter(obj(a)))
    order = _argsort_list(xs)
    vals, idx, cnt = [], [], []
    inv = [0] * len(xs)
    for i in order:
        if vals and bool(sym.to_sbool(_eq(vals[-1], xs[i]))):
            cnt[-1] += 1
        else:
            vals.append(xs[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    out = [_finish(_vec(vals))]
    if return_index:
        out.append(rnp.array(idx).view(SArr))
    if return_inverse:
        out.append(rnp.array(inv).view(SArr))
    if return_counts:
        out.append(rnp.array(cnt).view(SArr))
    return out[0] if len(out) == 1 else tuple(out)


# ---- linalg ----------------------------------------------------------------
class LinAlgError(ValueError):
    pass


def det(m):
    m = rnp.asarray(obj(m))
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        if m.ndim > 2:
            out = rnp.empty(m.shape[:-2], dtype=object)
            for i in rnp.ndindex(out.shape):
                out[i] = det(m[i])
            return _finish(out)
        raise LinAlgError("Last 2 dimensions of the array must be square")
    return _det([list(r) for r in m])


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    s = 0
    for j in range(n):
        if not isinstance(m[0][j], SReal) and m[0][j] == 0:
            continue
        sub = [[r[k] for k in range(n) if k != j] for r in m[1:]]
        t = m[0][j] * _det(sub)
        s = s + t if j % 2 == 0 else s - t
    return s


def inv(m):
    m = rnp.asarray(obj(m))
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    n = m.shape[0]
    rows = [list(r) for r in m]
    d = _det(rows)
    if isinstance(d, SReal):
        c = CUR.ctx
        if c is not None and c.may_be_zero(d.num):
            raise LinAlgError("Singular matrix")
    elif d == 0:
        raise LinAlgError("Singular matrix")
    out = rnp.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = [[rows[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            cof = _det(sub) if n > 1 else 1
            if (i + j) % 2:
                cof = -cof
            out[i, j] = _tofloat(sym.div(cof, d))
    return out.view(SArr)


def solve(a, b):
    return matmul(inv(a), b)


ROUND = []  # one callback while a harness studies rounding of lengths


def norm(x, ord=None, axis=None, keepdims=False):
    if ROUND and axis is None and not keepdims:
        cb = ROUND.pop()
        try:
            r = norm(x, ord)
        finally:
            ROUND.append(cb)
        return cb(r)
    if ord in (1, math.inf) and axis is None and rnp.ndim(obj(x)) == 1:
        xs = [sym.s_abs(v) for v in obj(x)]
        return _tofloat(_sum(xs) if ord == 1 else _amax(xs))
    if ord == "fro" and axis is None:
        ord = None
    if ord not in (None, 2) or (ord == 2 and axis is None and rnp.ndim(obj(x)) != 1):
        raise Unsupported("norm ord")

    def f(xs):
        xs = list(xs)
        if all(not isinstance(v, SReal) or True for v in xs):
            nz = [v for v in xs if isinstance(v, SReal) or v != 0]
            if len(nz) == 1:
                return _tofloat(sym.s_abs(nz[0]))
        s = _sum([v * v for v in xs])
        _register_dot(xs, xs, s)
        if not isinstance(s, SReal):
            return _tofloat(sym.s_sqrt(s))
        r = _sqrt_sos(s)
        if isinstance(r, SReal) and any(_definite(v) for v in xs) and len(r.num.t) == 1:
            # a vector with a non-zero component has a positive norm
            for m in r.num.t:
                for vid, _ in m:
                    v = sym.VARS[vid]
                    if v.kind == "sqrt":
                        v.info["sign"] = 1
        if isinstance(r, SReal) and not r.den and len(r.num.t) == 1:
            (m, k), = r.num.t.items()
            if len(m) == 1 and m[0][1] == 1 and sym.VARS[m[0][0]].kind == "sqrt":
                sym.VARS[m[0][0]].info.setdefault("comps", [v / k for v in xs if isinstance(v, SReal)])
        return r

    return reduce_axis(f, obj(x), axis, keepdims)


def _definite(x):
    """non-zero whatever the inputs"""
    if not isinstance(x, SReal):
        return x != 0
    return sym._sign_known(x.num) != 0


def _sqrt_sos(s):
    from . import engine

    sgn = 1
    for fct, e in s.den.items():
        if e % 2:
            k = sym._sign_known(fct)
            if k == 0 and sym._nonneg_known(fct):
                k = 1
            sgn *= k
    if sgn and not sym._nonneg_known(s.num):
        p = s.num if sgn > 0 else -s.num
        odd = sym.Poly.const(1)
        for fct, e in s.den.items():
            if e % 2:
                odd = odd * fct
        p = s.num * odd
        if p not in engine.SOS:
            engine.SOS.append(p)
            engine.SOS.append(s.num if sgn > 0 else -s.num)
    return sym.s_sqrt(s)


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(rnp.linalg, name):
            raise AttributeError(name)

        def call(*a, **kw):
            raise Unsupported("numpy.linalg." + name)

        return call


linalg = _Linalg("numpy.linalg")
linalg.det = det
linalg.inv = inv
linalg.norm = norm
linalg.solve = solve
linalg.LinAlgError = LinAlgError


def _matrix_rank(m, tol=None):
    raise Unsupported("matrix_rank")


linalg.matrix_rank = _matrix_rank


def _matrix_power(m, n):
    m = obj(m)
    if n < 0:
        m, n = inv(m), -n
    r = eye(m.shape[0])
    for _ in builtins.range(n):
        r = matmul(r, m)
    return r


def _multi_dot(ms):
    ms = list(ms)
    r = ms[0]
    for m in ms[1:]:
        r = dot(r, m)
    return r


def _cholesky(m):
    m = obj(m)
    n = m.shape[0]
    out = zeros((n, n))
    for i in builtins.range(n):
        for j in builtins.range(i + 1):
            t = m[i, j] - _sum([out[i, k] * out[j, k] for k in builtins.range(j)])
            if i == j:
                if bool(sym.to_sbool(_cmpf("<=")(t, 0))):
                    raise LinAlgError("Matrix is not positive definite")
                out[i, i] = sym.s_sqrt(t)
            else:
                out[i, j] = sym.div(t, out[j, j])
    return out


def _pinv(m, *a, **kw):
    m = obj(m)
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise Unsupported("pinv")
    d = det(m)
    if bool(sym.to_sbool(_eq(d, 0))):
        raise Unsupported("pinv of a singular matrix")
    return inv(m)


linalg.matrix_power = _matrix_power
linalg.multi_dot = _multi_dot
linalg.cholesky = _cholesky
linalg.pinv = _pinv
linalg.vector_norm = lambda x, axis=None, keepdims=False, ord=2: norm(
    obj(x).reshape(-1) if axis is None else x, ord, axis, keepdims
)


class _finfo:
    def __init__(self, *a):
        self.eps = Fraction(1, 2**52)
        self.tiny = Fraction(1, 2**1022)
        self.max = Fraction(2) ** 1024


def _method(name):
    def f(a, *args, **kw):
        a = a if isinstance(a, SArr) else array(a)
        return wrap(getattr(a, name)(*args, **kw))

    return f


def _u1(name):
    def f(x, out=None, **kw):
        r = map1(SCALAR1[name], x)
        if out is not None:
            _store(out, r)
            return out
        return r

    return f


def _u2(name):
    def f(a, b, out=None, **kw):
        r = map2(SCALAR2[name], a, b)
        if out is not None:
            _store(out, r)
            return out
        return r

    f.__name__ = name
    f.outer = lambda a, b: map2(SCALAR2[name], obj(a).reshape(rnp.shape(a) + (1,) * rnp.ndim(b)), b)
    if name in REDUCERS:
        f.reduce = lambda a, axis=0, **kw: reduce_axis(REDUCERS[name], a, axis)
    return f


class NPShim(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = getattr(rnp, name)
        if isinstance(r, (builtins.float,)):
            return _num(r)
        if isinstance(r, type) or isinstance(r, types.ModuleType) or not callable(r):
            return r

        def call(*a, **kw):
            if "dtype" in kw:
                d = kw["dtype"]
                kw["dtype"] = (
                    object
                    if _isfloat_dtype(d)
                    else builtins.int
                    if _isint_dtype(d)
                    else builtins.bool
                    if _isbool_dtype(d)
                    else d
                )

            def cv(x):
                if isinstance(x, SArr):
                    return rnp.asarray(x)
                if isinstance(x, (list, tuple)) and any(isinstance(v, (SReal, Fraction)) for v in flat_iter(x)):
                    return rnp.asarray(obj(x))
                if isinstance(x, (list, tuple)) and any(isinstance(v, SArr) for v in x):
                    return type(x)(cv(v) for v in x)
                return x

            a = [cv(x) for x in a]
            kw = {k: cv(v) for k, v in kw.items()}
            r2 = r(*a, **kw)
            if isinstance(r2, tuple):
                return tuple(wrap(x) for x in r2)
            if isinstance(r2, list):
                return [wrap(x) for x in r2]
            return wrap(r2)

        call.__name__ = name
        return call


np = NPShim("numpy")
np.__dict__.update(
    array=array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray,
    zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=eye, diag=diag,
    zeros_like=_like(0), ones_like=_like(1), empty_like=_like(0),
    linspace=linspace, arange=arange, concatenate=concatenate, stack=stack, vstack=vstack, hstack=lambda xs: concatenate(xs, axis=0 if rnp.ndim(xs[0]) == 1 else 1),
    append=lambda a, b, axis=None: concatenate([obj(a).reshape(-1), obj(b).reshape(-1)]) if axis is None else concatenate([a, b], axis),
    dot=dot, vdot=dot, inner=dot, matmul=matmul, cross=cross, clip=clip, isclose=isclose, allclose=allclose,
    array_equal=array_equal, around=around, round=around, round_=around, where=where, sort=sort, argsort=argsort,
    argmin=argmin, argmax=argmax, cumsum=cumsum, diff=diff, unique=unique, linalg=linalg, finfo=_finfo,
    sum=lambda a, axis=None, **kw: reduce_axis(_sum, obj(a), axis, kw.get("keepdims", False)),
    prod=lambda a, axis=None, **kw: reduce_axis(_prod, obj(a), axis),
    max=lambda a, axis=None, **kw: reduce_axis(_amax, obj(a), axis),
    min=lambda a, axis=None, **kw: reduce_axis(_amin, obj(a), axis),
    amax=lambda a, axis=None, **kw: reduce_axis(_amax, obj(a), axis),
    amin=lambda a, axis=None, **kw: reduce_axis(_amin, obj(a), axis),
    all=lambda a, axis=None, **kw: reduce_axis(REDUCERS["logical_and"], obj(a), axis),
    any=lambda a, axis=None, **kw: reduce_axis(REDUCERS["logical_or"], obj(a), axis),
    mean=lambda a, axis=None, **kw: obj(a).mean(axis=axis),
    trace=lambda a, **kw: _sum([rnp.asarray(obj(a))[i, i] for i in range(len(a))]),
    ndarray=rnp.ndarray, pi=sym.PI, inf=math.inf, nan=math.nan, newaxis=None,
    float64=None, isscalar=lambda x: not isinstance(x, (list, tuple, rnp.ndarray)),
    copy=lambda a, **kw: array(a), ndim=rnp.ndim, shape=lambda a: _shape(_listify(a)),
    transpose=lambda a, axes=None: rnp.transpose(array(a), axes).view(SArr),
    reshape=lambda a, *sh, **kw: array(a).reshape(*sh, **kw),
    abs=_u1("absolute"), outer=lambda a, b: map2(SCALAR2["multiply"], obj(a).reshape(-1, 1), obj(b).reshape(1, -1)),
    sign=_u1("sign"),
)
for _n in SCALAR1:
    np.__dict__.setdefault(_n, _u1(_n))
for _n in SCALAR2:
    np.__dict__.setdefault(_n, _u2(_n))


def _arctan(x):
    raise Unsupported("arctan")


np.arctan = _arctan


def _arccos(x):
    return map1(sym.s_acos, x)


np.arccos = _arccos


def _inner(a, b):
    a, b = obj(a), obj(b)
    if a.ndim < 2 and b.ndim < 2:
        return dot(a, b)
    return matmul(a, b.T) if b.ndim > 1 else dot(a, b)


def _vectorize(f=None, otypes=None, excluded=None, **kw):
    if f is None:
        return lambda g: _vectorize(g, otypes, excluded)
    if excluded or kw.get("signature"):
        raise Unsupported("vectorize options")

    def call(*xs):
        if len(xs) == 1:
            return map1(f, xs[0])
        if len(xs) == 2:
            return map2(f, *xs)
        raise Unsupported("vectorize of more than two arguments")

    return call


def _select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def _modf(x):
    t = map1(SCALAR1["trunc"], x)
    return map2(SCALAR2["subtract"], x, t), t


def _copysign(a, b):
    m = sym.s_abs(a)
    return ite(_cmpf(">=")(b, 0), m, -m)


def _std(a, axis=None, ddof=0, **kw):
    if axis is not None:
        raise Unsupported("std along an axis")
    return sym.s_sqrt(_var(a, None, ddof))


def _var(a, axis=None, ddof=0, **kw):
    if axis is not None:
        raise Unsupported("var along an axis")
    xs = list(flat_iter(obj(a)))
    m = sym.div(_sum(xs), len(xs))
    return sym.div(_sum([(x - m) * (x - m) for x in xs]), len(xs) - ddof)


np.inner = _inner
np.vdot = lambda a, b: dot(obj(a).reshape(-1), obj(b).reshape(-1))
np.vectorize = _vectorize
np.frompyfunc = lambda f, nin, nout: _vectorize(f)
np.select = _select
np.modf = _modf
np.divmod = lambda a, b: (map2(SCALAR2["floor_divide"], a, b), map2(SCALAR2["remainder"], a, b))
np.copysign = lambda a, b: map2(_copysign, a, b)
np.fmod = lambda a, b: map2(lambda x, y: x - y * sym.trunc_(_div(x, y)), a, b)
np.heaviside = lambda a, b: map2(lambda x, y: ite(_eq(x, 0), y, ite(_cmpf(">")(x, 0), 1, 0)), a, b)
np.std = _std
np.var = _var
linalg.outer = np.outer
linalg.cross = np.cross
linalg.trace = np.trace
linalg.diagonal = lambda a, **kw: obj(a).diagonal()
linalg.matmul = matmul
linalg.matrix_transpose = lambda a: obj(a).T
np.acos = _arccos
