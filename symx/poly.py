"""Sparse multivariate polynomials over Q with algebraic reduction rules.

Variables live in one process-wide table.  A variable can carry
  * a z3 constant,
  * a square rule  v**2 -> polynomial      (square roots, sin**2 -> 1 - cos**2),
  * axioms: z3 formulas that constrain it, added to every query it occurs in.
"""

from fractions import Fraction

import z3

ZERO = Fraction(0)
ONE = Fraction(1)


class Var:
    __slots__ = ("id", "name", "kind", "z3", "square", "axioms", "deps", "info")

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind
        if kind == "int":
            self.z3 = z3.ToReal(z3.Int(name))
        else:
            self.z3 = z3.Real(name)
        self.square = None
        self.axioms = []  # list of z3 bools
        self.deps = set()  # var ids mentioned by the axioms
        self.info = {}


VARS = []
BYNAME = {}


def reset():
    VARS.clear()
    BYNAME.clear()


def new_var(name, kind="real"):
    if name in BYNAME:
        return BYNAME[name]
    v = Var(len(VARS), name, kind)
    VARS.append(v)
    BYNAME[name] = v
    return v


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class TooBig(Exception):
    pass


MAX_TERMS = 60000


class Poly:
    __slots__ = ("t", "_h", "_z")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(v):
        return Poly({((v.id, 1),): ONE})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), ZERO)

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, ZERO) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, ZERO) - c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return Poly(t)

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        if len(self.t) * len(o.t) > MAX_TERMS * 20:
            raise TooBig()
        t = {}
        red = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                s = t.get(m, ZERO) + c1 * c2
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
        p = Poly(t)
        return p.reduce()

    def reduce(self):
        p = self
        while True:
            hit = None
            for m in p.t:
                for v, e in m:
                    if e >= 2 and VARS[v].square is not None:
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                if len(p.t) > MAX_TERMS:
                    raise TooBig()
                return p
            sq = VARS[hit].square
            keep = {}
            acc = Poly({})
            for m, c in p.t.items():
                e = dict(m).get(hit, 0)
                if e < 2:
                    keep[m] = c
                    continue
                rest = tuple((v, k) for v, k in m if v != hit)
                if e % 2:
                    rest = _mono_mul(rest, ((hit, 1),))
                q = Poly({rest: c})
                base = sq
                for _ in range(e // 2):
                    q = q._mul_raw(base)
                acc = acc + q
            p = Poly(keep) + acc

    def _mul_raw(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                s = t.get(m, ZERO) + c1 * c2
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
        return Poly(t)

    def __pow__(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def key(self):
        return tuple(sorted(self.t.items()))

    def vars(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def content(self):
        """positive rational c with self = c * primitive integer polynomial"""
        from math import gcd

        n = 0
        d = 1
        for c in self.t.values():
            n = gcd(n, abs(c.numerator))
            d = d * c.denominator // gcd(d, c.denominator)
        return Fraction(n, d) if n else ONE

    def lead(self):
        """leading monomial in lex order over (var id desc?)"""
        return max(self.t, key=_lexkey)

    def divide_exact(self, d):
        """self / d if exact, else None (plain polynomial ring, no reduction rules)."""
        if d.is_const():
            c = d.const_value()
            return self.scale(1 / c)
        if not self.t:
            return self
        if not d.vars() <= self.vars():
            return None
        lm = d.lead()
        lc = d.t[lm]
        rem = dict(self.t)
        q = {}
        n = 0
        while rem:
            n += 1
            if n > 4000:
                return None
            m = max(rem, key=_lexkey)
            dm = _mono_div(m, lm)
            if dm is None:
                return None
            c = rem[m] / lc
            q[dm] = c
            for m2, c2 in d.t.items():
                mm = _mono_mul(dm, m2)
                s = rem.get(mm, ZERO) - c * c2
                if s:
                    rem[mm] = s
                else:
                    rem.pop(mm, None)
        return Poly(q)

    def sqrt_exact(self):
        """p with p*p == self, or None (no reduction rules)"""
        if not self.t:
            return self
        from math import isqrt

        def fsq(c):
            if c < 0:
                return None
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return Fraction(a, b)
            return None

        lm = self.lead()
        c = fsq(self.t[lm])
        if c is None or any(e % 2 for _, e in lm):
            return None
        root = Poly({tuple((v, e // 2) for v, e in lm): c})
        l2 = (root.lead(), c)
        rem = self - root._mul_raw(root)
        n = 0
        while rem.t:
            n += 1
            if n > 200:
                return None
            m = rem.lead()
            dm = _mono_div(m, l2[0])
            if dm is None:
                return None
            term = Poly({dm: rem.t[m] / (2 * l2[1])})
            if _lexkey(dm) >= _lexkey(l2[0]):
                return None
            rem = rem - root._mul_raw(term).scale(Fraction(2)) - term._mul_raw(term)
            root = root + term
        return root

    def subs(self, mapping):
        """substitute var id -> Poly"""
        out = Poly({})
        for m, c in self.t.items():
            q = Poly.const(c)
            for v, e in m:
                b = mapping.get(v)
                q = q * ((b if b is not None else Poly.var(VARS[v])) ** e)
            out = out + q
        return out

    def z3(self):
        if self._z is not None:
            return self._z
        terms = []
        for m, c in sorted(self.t.items()):
            fs = []
            for v, e in m:
                x = VARS[v].z3
                for _ in range(e):
                    fs.append(x)
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(str(c)))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            r = z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        self._z = r
        return r

    def evalf(self, env):
        """env: var id -> number"""
        s = 0
        for m, c in self.t.items():
            t = c
            for v, e in m:
                t = t * env[v] ** e
            s = s + t
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            f = "*".join(VARS[v].name + (f"^{e}" if e > 1 else "") for v, e in m)
            out.append(f"{c}" + ("*" + f if f else ""))
        s = " + ".join(out)
        return s if len(s) < 400 else s[:400] + "..."


def _lexkey(m):
    # lexicographic on exponent vectors with var ids ascending significance:
    # compare as sparse vectors -> tuple of (-id, exp)
    return tuple((-v, e) for v, e in m)


def _mono_div(a, b):
    da = dict(a)
    for v, e in b:
        k = da.get(v, 0) - e
        if k < 0:
            return None
        if k:
            da[v] = k
        else:
            da.pop(v, None)
    return tuple(sorted(da.items()))
