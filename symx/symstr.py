"""Strings of fixed length with symbolic characters (code points as solver integers)."""

import builtins

from . import sym
from .sym import SBool, SReal, Unsupported, s_and, s_or, to_sbool

LO, HI = 33, 126  # printable ASCII without space


class LowChar:
    """lower-cased symbolic character"""

    def __init__(self, base):
        self.base = base
        self._code = None

    def code(self):
        if self._code is None:
            c = self.base
            self._code = sym.ite(s_and(c >= 65, c <= 90), c + 32, c)
        return self._code

    def __ge__(self, o):
        return self.code() >= o

    def __le__(self, o):
        return self.code() <= o


def _code(c):
    if isinstance(c, LowChar):
        return c.code()
    return c if isinstance(c, SReal) else ord(c)


def _range(c):
    vs = list(c.num.vars()) if hasattr(c.num, "vars") else []
    if len(vs) == 1:
        from .poly import VARS

        return VARS[vs[0]].info.get("range", (None, None))
    return (None, None)


def _eqc(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is b:
        return True
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        if isinstance(a, LowChar):
            if "a" <= b <= "z":
                return s_or(_eqc(a.base, b), _eqc(a.base, b.upper()))
            if "A" <= b <= "Z":
                return False
            return _eqc(a.base, b)
        lo, hi = _range(a)
        if lo is not None and not (lo <= ord(b) <= hi):
            return False
    return to_sbool(_code(a) == _code(b))


def _lower(c):
    if isinstance(c, str):
        return c.lower()
    if isinstance(c, LowChar):
        return c
    lo, hi = _range(c)
    if lo is not None and (hi < 65 or lo > 90):
        return c
    return LowChar(c)


def _upper(c):
    if isinstance(c, str):
        return c.upper()
    c = _code(c)
    return sym.ite(s_and(c >= 97, c <= 122), c - 32, c)


def _less(a, b, strict_eq):
    if not a:
        return True if b else strict_eq
    if not b:
        return False
    x, y = a[0], b[0]
    if isinstance(x, str) and isinstance(y, str):
        if x != y:
            return x < y
        return _less(a[1:], b[1:], strict_eq)
    return s_or(to_sbool(_code(x) < _code(y)), s_and(_eqc(x, y), _less(a[1:], b[1:], strict_eq)))


def chars_of(x):
    if isinstance(x, SymStr):
        return x.chars
    return tuple(x)


def mkstr(chars):
    chars = tuple(chars)
    return SymStr(chars)


class SymStr(str):
    def __new__(cls, chars):
        s = str.__new__(cls, "".join(c if isinstance(c, str) else "\ue000" for c in chars))
        s.chars = tuple(chars)
        return s

    def __hash__(self):
        return 7

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __len__(self):
        return builtins.len(self.chars)

    def seq(self, o):
        if not isinstance(o, str):
            return False
        oc = chars_of(o)
        if builtins.len(oc) != builtins.len(self.chars):
            return False
        acc = []
        for a, b in zip(self.chars, oc):
            e = _eqc(a, b)
            if e is False:
                return False
            acc.append(e)
        return s_and(*acc)

    def __eq__(self, o):
        return self.seq(o)

    def __ne__(self, o):
        return sym.s_not(self.seq(o))

    def __lt__(self, o):
        return _less(self.chars, chars_of(o), False)

    def __le__(self, o):
        return _less(self.chars, chars_of(o), True)

    def __gt__(self, o):
        return _less(chars_of(o), self.chars, False)

    def __ge__(self, o):
        return _less(chars_of(o), self.chars, True)

    def has(self, sub):
        sc = chars_of(sub)
        n, m = builtins.len(self.chars), builtins.len(sc)
        alts = []
        for k in range(n - m + 1):
            alts.append(s_and(*[_eqc(self.chars[k + j], sc[j]) for j in range(m)]) if m else True)
        return s_or(*alts)

    def __contains__(self, sub):
        return builtins.bool(self.has(sub))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.chars + tuple(chars_of(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(tuple(chars_of(o)) + self.chars)

    def __mul__(self, n):
        return mkstr(self.chars * n)

    __rmul__ = __mul__

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkstr(self.chars[k])
        return mkstr((self.chars[k],))

    def __iter__(self):
        return iter([mkstr((c,)) for c in self.chars])

    def __str__(self):
        return self

    def __format__(self, spec):
        raise Unsupported("formatting of a symbolic string outside an f-string")

    def __repr__(self):
        return "'" + "".join(c if isinstance(c, str) else "?" for c in self.chars) + "'"

    def lower(self):
        return mkstr(_lower(c) for c in self.chars)

    casefold = lower

    def upper(self):
        return mkstr(_upper(c) for c in self.chars)

    def capitalize(self):
        return mkstr((_upper(self.chars[0]),) + tuple(_lower(c) for c in self.chars[1:])) if self.chars else self

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with a range")
        if isinstance(p, tuple):
            return s_or(*[self.startswith(x) for x in p])
        pc = chars_of(p)
        if builtins.len(pc) > builtins.len(self.chars):
            return False
        return s_and(True, *[_eqc(a, b) for a, b in zip(self.chars, pc)])

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Unsupported("endswith with a range")
        pc = chars_of(p)
        k = builtins.len(self.chars) - builtins.len(pc)
        if k < 0:
            return False
        return s_and(True, *[_eqc(a, b) for a, b in zip(self.chars[k:], pc)])

    def find(self, sub, *a):
        if a:
            raise Unsupported("find with a range")
        sc = chars_of(sub)
        m = builtins.len(sc)
        for k in range(builtins.len(self.chars) - m + 1):
            if builtins.bool(s_and(True, *[_eqc(self.chars[k + j], sc[j]) for j in range(m)])):
                return k
        return -1

    def count(self, *a):
        raise Unsupported("count on a symbolic string")

    def isdigit(self):
        return builtins.len(self.chars) > 0 and s_and(
            True, *[c.isdigit() if isinstance(c, str) else s_and(c >= 48, c <= 57) for c in self.chars]
        )

    def isalpha(self):
        return builtins.len(self.chars) > 0 and s_and(
            True,
            *[
                c.isalpha() if isinstance(c, str) else s_or(s_and(c >= 65, c <= 90), s_and(c >= 97, c <= 122))
                for c in self.chars
            ],
        )

    def isspace(self):
        return builtins.len(self.chars) > 0 and all(isinstance(c, str) and c.isspace() for c in self.chars)

    def strip(self, ch=None):
        if ch is None:
            # symbolic characters are never white space
            cs = list(self.chars)
            while cs and isinstance(cs[0], str) and cs[0].isspace():
                cs.pop(0)
            while cs and isinstance(cs[-1], str) and cs[-1].isspace():
                cs.pop()
            return mkstr(cs)
        cs = list(self.chars)
        while cs and builtins.bool(s_or(False, *[_eqc(cs[0], x) for x in chars_of(ch)])):
            cs.pop(0)
        while cs and builtins.bool(s_or(False, *[_eqc(cs[-1], x) for x in chars_of(ch)])):
            cs.pop()
        return mkstr(cs)

    def rstrip(self, ch=None):
        cs = list(self.chars)
        if ch is None:
            while cs and isinstance(cs[-1], str) and cs[-1].isspace():
                cs.pop()
        else:
            while cs and builtins.bool(s_or(False, *[_eqc(cs[-1], x) for x in chars_of(ch)])):
                cs.pop()
        return mkstr(cs)

    def lstrip(self, ch=None):
        cs = list(self.chars)
        if ch is None:
            while cs and isinstance(cs[0], str) and cs[0].isspace():
                cs.pop(0)
        else:
            while cs and builtins.bool(s_or(False, *[_eqc(cs[0], x) for x in chars_of(ch)])):
                cs.pop(0)
        return mkstr(cs)

    def join(self, xs):
        return joinstr(self, xs)


def _unsupported(name):
    def f(self, *a, **k):
        raise Unsupported(f"str.{name} on a symbolic string")

    return f


for _n in (
    "split", "rsplit", "splitlines", "replace", "partition", "rpartition", "title", "swapcase", "encode", "index",
    "rfind", "rindex", "isalnum", "isnumeric", "isdecimal", "isidentifier", "islower", "isupper", "translate",
    "center", "ljust", "rjust", "zfill", "format", "format_map", "expandtabs", "istitle", "isascii", "isprintable",
    "removeprefix", "removesuffix", "__mod__", "__rmod__",
):
    setattr(SymStr, _n, _unsupported(_n))


def joinstr(sep, xs):
    out = []
    for k, x in enumerate(xs):
        if k:
            out.extend(chars_of(sep))
        if not isinstance(x, str):
            raise TypeError(f"sequence item {k}: expected str instance, {type(x).__name__} found")
        out.extend(chars_of(x))
    return mkstr(out)


def fresh(name, n, lo=LO, hi=HI):
    return mkstr(sym.integer(f"{name}_c{k}", lo, hi) for k in range(n))
