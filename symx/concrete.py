"""Concrete backend of the harness API: runs a harness on the real package with float inputs.

Used to replay solver models: /opt/venv/bin/python -m symx.concrete FILE
"""

import builtins
import json
import math
import os
import sys


class Skip(BaseException):
    """an assumption does not hold for these inputs"""


class H:
    symbolic = False
    PI = math.pi

    def __init__(self, inputs, choices, w, np, rtol=1.0):
        self.inputs = inputs
        self._choices = list(choices)
        self.choices = []
        self.w = w
        self.np = np
        self.failed = []
        self.nchecks = 0
        self.missing = []
        self.rtol = rtol

    def _get(self, name, default):
        if name not in self.inputs:
            self.missing.append(name)
            return default
        return self.inputs[name]

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        v = float(self._get(name, 1.0))
        if pos and not v > 0:
            raise Skip(name)
        return v

    def integer(self, name, lo, hi):
        return int(self._get(name, lo))

    def boolean(self, name):
        return bool(self._get(name, False))

    def angle(self, name):
        if "cos_" + name in self.inputs:
            return math.degrees(math.acos(max(-1.0, min(1.0, float(self.inputs["cos_" + name])))))
        v = float(self._get(name, 60.0))
        return v if v > 0 else 60.0

    def choose(self, name, n):
        k = self._choices.pop(0)[1] if self._choices else 0
        self.choices.append((name, k))
        return k

    def string(self, name, n, lo=33, hi=126):
        return "".join(chr(int(self._get(f"{name}_c{k}", lo))) for k in range(n))

    def text(self, s):
        return s

    def has(self, s, sub):
        return sub in s

    def boolean_choice(self, name):
        return self.choose(name, 2) == 1

    def vec(self, name, n=3):
        return [self.real(f"{name}{i}") for i in range(n)]

    def mat(self, name, n=3, m=3):
        return [[self.real(f"{name}{i}{j}") for j in range(m)] for i in range(n)]

    def q(self, x):
        from fractions import Fraction

        return float(Fraction(x))

    @staticmethod
    def And(*xs):
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):
        return not bool(x)

    @staticmethod
    def Implies(a, b):
        return (not bool(a)) or bool(b)

    @staticmethod
    def Iff(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def Ite(c, a, b):
        return a if c else b

    def _t(self, a, b, tol=1e-9):
        try:
            return tol * max(1.0, abs(a), abs(b))
        except Exception:
            return tol

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b + self._t(a, b)

    def eqb(self, a, b, tol=1e-7):
        return abs(a - b) <= self._t(a, b, tol)

    def close(self, a, b, tol):
        return abs(a - b) <= float(tol) * (1 + 1e-9) + 1e-12

    @staticmethod
    def sqrt(x):
        return math.sqrt(max(x, 0.0)) if x > -1e-9 else math.nan

    @staticmethod
    def floor(x):
        return math.floor(x)

    abs = staticmethod(builtins.abs)
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)
    acos = staticmethod(lambda x: math.acos(max(-1.0, min(1.0, x))))
    div = staticmethod(lambda a, b: a / b)

    def root(self, x, n):
        return float(x) ** (1.0 / n)

    def det(self, m):
        m = [[float(x) for x in r] for r in m]
        return (
            m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
        )

    def dot(self, a, b):
        return sum(x * y for x, y in zip(list(a), list(b)))

    def rows(self, m):
        return [list(r) for r in m]

    def matvec(self, m, v):
        return [self.dot(r, v) for r in self.rows(m)]

    def vecmat(self, v, m):
        m = self.rows(m)
        v = list(v)
        return [sum(v[k] * m[k][j] for k in range(len(v))) for j in range(len(m[0]))]

    def matmul(self, a, b):
        a = self.rows(a)
        b = self.rows(b)
        return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]

    def array(self, x):
        return self.np.array(x, dtype=float)

    def assume(self, cond, base=False):
        if not bool(cond):
            raise Skip("assumption")

    def feasible(self, cond):
        return True

    def check(self, cond, label, margin=None, timeout=None):
        self.nchecks += 1
        if not bool(cond):
            self.failed.append((label, "condition is false"))
            return False
        return True

    def eq(self, a, b, label, tol=1e-6, timeout=None):
        self.nchecks += 1
        try:
            a_, b_ = float(a), float(b)
            ok = abs(a_ - b_) <= tol * max(1.0, abs(a_), abs(b_)) or (a_ == b_)
        except (TypeError, ValueError):
            ok = a == b
        if not ok:
            self.failed.append((label, f"{a!r} != {b!r}"))
            return False
        return True

    def eqv(self, a, b, label, tol=1e-6, timeout=None):
        fa, fb = _flat(a), _flat(b)
        for x, y in zip(fa, fb):
            if not self.eq(x, y, label, tol):
                return False
        return True

    def lec(self, a, b, label, tol=1e-6, timeout=None):
        self.nchecks += 1
        ok = a <= b + tol * max(1.0, abs(a), abs(b))
        if not ok:
            self.failed.append((label, f"not {a!r} <= {b!r}"))
        return bool(ok)

    def fail(self, label):
        return self.check(False, label)

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def truth(self, x):
        return bool(x)

    def exc_name(self, e):
        return type(e).__name__

    def module(self, name):
        import importlib

        return importlib.import_module(name)

    def is_lin_alg_error(self, e):
        return type(e).__name__ == "LinAlgError"

    def ident(self, v):
        return tuple(round(float(x), 7) + 0.0 for x in v)

    def snapshot(self, x):
        import copy

        return copy.deepcopy(x)

    def stub_spglib(self, **fns):
        import spglib

        for k, v in fns.items():
            setattr(spglib, k, v)

    def known_nonneg(self, x):
        pass

    def rounding(self, rel="1e-15"):
        pass

    def exact(self):
        pass

    def is_number(self, x):
        return not math.isnan(float(x))

    def stub_function(self, path, fn):
        from .stubs import stub_function

        return stub_function(self.w, path, fn)

    def stub_voronoi(self, cls):
        import scipy.spatial

        scipy.spatial.Voronoi = cls
        for name, m in list(sys.modules.items()):
            if name.startswith("wulfric") and hasattr(m, "Voronoi"):
                m.Voronoi = cls


def _flat(x):
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(_flat(y))
        return out
    return [x]


def main(path):
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    repo = os.environ.get("WULFRIC_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    import importlib

    import numpy as np
    import wulfric

    assert os.path.realpath(wulfric.__file__).startswith(os.path.realpath(repo)), wulfric.__file__
    with open(path) as f:
        spec = json.load(f)
    cases = spec["cases"] if "cases" in spec else [spec]
    out = []
    for cs in cases:
        mod = importlib.import_module("checks." + cs["module"])
        job = {j.name: j for j in mod.jobs(cs.get("tier", "quick"))}[cs["job"]]
        h = H(cs["inputs"], cs["choices"], wulfric, np)
        h.tmpdir = None
        try:
            job.fn(h)
            st = "ok"
        except Skip as e:
            st = "skip"
        except Exception as e:
            import traceback

            st = "error"
            h.failed.append(("unexpected exception", traceback.format_exc()[-1200:])) if getattr(
                job, "exceptions_are_violations", False
            ) else None
            cs["trace"] = traceback.format_exc()[-1500:]
        out.append({"status": st, "failed": h.failed, "nchecks": h.nchecks, "trace": cs.get("trace")})
    if "cases" in spec:
        print("REPLAY-RESULT " + json.dumps(out))
        return 0
    r = out[0]
    print(f"replay of {spec['module']}:{spec['job']} with inputs {json.dumps(spec['inputs'])[:2000]} choices {spec['choices']}")
    for lab, msg in r["failed"]:
        print("FAILED", lab, ":", msg)
    if r.get("trace"):
        print(r["trace"])
    print("status:", r["status"], "violated" if r["failed"] else "no violation")
    return 1 if r["failed"] else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
