"""Path exploration by re-execution, and the solver interface."""

import time
from fractions import Fraction

import z3

from . import sym
from .poly import Poly, VARS
from .sym import CUR, CannotSpeculate, PathAbort, SBool, SReal, Unsupported, s_and, s_not


class Stats:
    def __init__(self):
        self.queries = 0
        self.feas = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.forks = 0


def closure_axioms(vs):
    seen = set()
    todo = list(vs)
    out = []
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        var = VARS[v]
        out.extend(var.axioms)
        todo.extend(var.deps)
    return out, seen


def _has_int(seen):
    return any(VARS[v].kind == "int" or (VARS[v].z3 is not None and VARS[v].kind != "bool" and VARS[v].z3.decl().kind() == z3.Z3_OP_TO_REAL) for v in seen)


_LIN = {}


def _linear(e):
    """no product of two non-constants (memoised on the ast id; asts are kept alive)"""
    i = e.get_id()
    r = _LIN.get(i)
    if r is not None:
        return r[0]
    k = e.decl().kind()
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        n = sum(0 if z3.is_rational_value(c) or z3.is_int_value(c) else 1 for c in e.children())
        ok = n <= 1 and k == z3.Z3_OP_MUL and all(_linear(c) for c in e.children())
    else:
        ok = all(_linear(c) for c in e.children())
    _LIN[i] = (ok, e)
    return ok


def _lin_split(es):
    lin, non = [], 0
    todo = list(es)
    while todo:
        e = todo.pop()
        if z3.is_and(e):
            todo.extend(e.children())
        elif _linear(e):
            lin.append(e)
        else:
            non += 1
    return lin, non


_ABS = {}
_MONO = {}
_MFACTS = {}


def _factors(e, out):
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL:
        for c in e.children():
            _factors(c, out)
    elif k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and e.arg(1).numerator_as_long() > 0:
        for _ in range(e.arg(1).numerator_as_long()):
            _factors(e.arg(0), out)
    else:
        out.append(e)


_Z3SIGN = {}


def _z3_sign(f):
    """(strict sign, non-negative) of a z3 variable"""
    i = f.get_id()
    if i not in _Z3SIGN:
        for v in VARS:
            if v.z3 is not None:
                _Z3SIGN[v.z3.get_id()] = v
        _Z3SIGN.setdefault(i, None)
    v = _Z3SIGN.get(i)
    if v is None:
        return 0, False
    return v.info.get("sign", 0), bool(v.info.get("nonneg"))


def _abstract(e, facts):
    """e with every nonlinear monomial replaced by a variable of its own"""
    i = e.get_id()
    r = _ABS.get(i)
    if r is not None:
        facts.update(r[2])
        return r[0]
    mine = set()
    k = e.decl().kind()
    if _linear(e):
        out = e
    elif k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
        fs = []
        _factors(e, fs)
        num = [f for f in fs if z3.is_rational_value(f) or z3.is_int_value(f)]
        fs = [f for f in fs if not (z3.is_rational_value(f) or z3.is_int_value(f))]
        fs = [_abstract(f, mine) if not _linear(f) else f for f in fs]
        fs.sort(key=lambda f: f.get_id())
        key = tuple(f.get_id() for f in fs)
        m = _MONO.get(key)
        if m is None:
            isint = all(z3.is_int(f) for f in fs)
            v = z3.Int("mono!%d" % len(_MONO)) if isint else z3.Real("mono!%d" % len(_MONO))
            m = _MONO[key] = (v, fs)
        v = m[0]
        mine.add(key)
        out = v
        for c in num:
            out = c * out
    elif e.num_args() == 0:
        out = e
    else:
        out = e.decl()(*[_abstract(c, mine) for c in e.children()])
    _ABS[i] = (out, e, frozenset(mine))
    facts.update(mine)
    return out


def _mono_fact(key):
    v, fs = _MONO[key]
    cnt = {}
    for f in fs:
        cnt[f.get_id()] = (f, cnt.get(f.get_id(), (f, 0))[1] + 1)
    s, nn = 1, True
    for f, n in cnt.values():
        k, q = _z3_sign(f)
        if n % 2:
            s *= k
            nn = nn and (q or k > 0)
        elif k == 0:
            s = 0
    if s > 0:
        return v > 0
    if s < 0:
        return v < 0
    return v >= 0 if nn else None


def solve(bools, timeout_ms, stats, want_model=False, purpose="q"):
    """bools: list of SBool.  -> 'unsat' | 'sat' | 'unknown', model"""
    vs = set()
    es = []
    for b in bools:
        if isinstance(b, bool):
            if not b:
                return "unsat", None
            continue
        vs |= b.vars
        es.append(b.e)
    ax, seen = closure_axioms(vs)
    t0 = time.time()
    stats.queries += 1
    hasint = _has_int(seen)
    r = z3.unknown
    m = None
    lin, non = _lin_split(es + list(ax))
    if non:
        # monomials as independent variables: already contradictory? (sound: a relaxation)
        try:
            s = z3.Solver()
            s.set("timeout", int(min(timeout_ms, 1500)))
            facts = set()
            s.add(*[_abstract(e, facts) for e in es + list(ax)])
            s.add(*[f for f in map(_mono_fact, facts) if f is not None])
            if s.check() == z3.unsat:
                stats.solver_s += time.time() - t0
                return "unsat", None
        except z3.Z3Exception:
            pass
    plans = []
    if hasint:
        plans = [("default", timeout_ms)]
    else:
        plans = [("default", min(timeout_ms, max(300, timeout_ms // 4))), ("nra", timeout_ms)]
    for kind, tmo in plans:
        try:
            s = z3.Solver() if kind == "default" else z3.SolverFor("QF_NRA")
            s.set("timeout", int(tmo))
            s.add(*es)
            s.add(*ax)
            r = s.check()
            if r == z3.sat:
                m = s.model()
        except z3.Z3Exception:
            r = z3.unknown
        if r != z3.unknown:
            break
    stats.solver_s += time.time() - t0
    if r == z3.unknown:
        stats.unknown += 1
    return ("sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"), m


def z3num(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(60)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def model_inputs(m):
    out = {}
    for v in VARS:
        if v.info.get("input") or "linear" in v.info:
            if v.kind == "bool":
                x = m.eval(v.z3, model_completion=True)
                out[v.name[5:]] = bool(z3.is_true(x))
                continue
            x = z3num(m.eval(v.z3, model_completion=True))
            if x is None:
                return None
            out[v.name] = int(x) if v.kind == "int" else x
            if "cos_z3" in v.info:
                y = z3num(m.eval(v.info["cos_z3"], model_completion=True))
                if y is not None and -1 < y < 1:
                    out["cos_" + v.name] = y
    return out


def angle_variants(x):
    """an angle and its cosine are separate solver variables: the concrete input follows either"""
    if any(k.startswith("cos_") for k in x):
        return [{k: v for k, v in x.items() if not k.startswith("cos_")}, x]
    return [x]


class Violation:
    def __init__(self, label, model, pc, info=None):
        self.label = label
        self.model = model
        self.info = info


class Ctx:
    """one path"""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.trace = []  # list of (choice, n_alternatives_remaining)
        self.pc = []
        self.pckeys = {}
        self.speculating = 0
        self.numpy_div = 0
        self.notes = set()
        self.cache = {}
        self.ndec = 0  # number of nondeterministic choices so far
        self.pos = 0  # recorded decisions replayed so far
        self.pending = []

    # -- bookkeeping
    def note(self, s):
        self.notes.add(s)

    def assume(self, b):
        b = sym.to_sbool(b)
        if isinstance(b, bool):
            if not b:
                raise PathAbort("assumption is false")
            return
        self._push(b)

    def _push(self, b):
        self.pc.append(b)
        self.pckeys[b.e.get_id()] = True
        e = b.e
        if z3.is_not(e):
            self.pckeys[e.arg(0).get_id()] = False
        else:
            ne = z3.Not(e)
            sym._KEEP.append(ne)
            self.pckeys[ne.get_id()] = False
        if z3.is_and(e):
            for k in range(e.num_args()):
                self.pckeys.setdefault(e.arg(k).get_id(), True)
        sym._KEEP.append(e)

    def feasible(self, extra):
        """quick: 'sat','unsat','unknown'"""
        self.ex.stats.feas += 1
        r, m = solve(self.relevant([extra]), self.ex.feas_ms, self.ex.stats)
        return r

    def relevant(self, extra):
        """path constraints connected to the extra constraints (all when cheap)"""
        return self.pc + list(extra)

    def decide(self, b):
        if isinstance(b, bool):
            return b
        known = self.pckeys.get(b.e.get_id())
        if known is not None:
            return known
        if self.speculating:
            raise CannotSpeculate()
        key = b.e.get_id()
        e = self._replay(("b", key))
        if e is not None:
            ch = e[0]
            self.trace.append(e)
            self._push(b if ch else s_not(b))
            return ch
        self.ex.check_budget()
        nb = s_not(b)
        sym._KEEP.append(b.e)
        t = self.feasible(b)
        if t == "unsat":
            self.trace.append((False, ("b", key), b))
            self._push(nb)
            return False
        f = self.feasible(nb)
        if f == "unsat":
            self.trace.append((True, ("b", key), b))
            self._push(b)
            return True
        self.ex.stats.forks += 1
        self.pending.append(self.trace + [(False, ("b", key), b)] + self.prefix[self.pos:])
        self.trace.append((True, ("b", key), b))
        self._push(b)
        return True

    def _replay(self, key):
        """the recorded decision about key, or None for a new one.

        Normal forms may improve between paths (facts about radicands accumulate), so a replay can meet decisions
        in a slightly different form: recorded decisions that are no longer asked keep constraining the path."""
        for k in range(self.pos, len(self.prefix)):
            if self.prefix[k][1][0] == "c" and key[0] != "c":
                return None
            if self.prefix[k][1] == key:
                for e in self.prefix[self.pos:k]:
                    self._impose(e)
                self.pos = k + 1
                return self.prefix[k]
        return None

    def _impose(self, e):
        self.trace.append(e)
        if e[1][0] == "b":
            self._push(e[2] if e[0] else s_not(e[2]))
        elif e[1][0] in "if":
            if e[0] is not None:
                self.assume(sym._cmp(e[2], e[0], "=="))
        else:
            raise Unsupported("replay of a choice out of order")

    def choose(self, n):
        """nondeterministic choice 0..n-1 (not constrained by data)"""
        if self.speculating:
            raise CannotSpeculate()
        self.ndec += 1
        key = ("c", self.ndec, n)
        e = self._replay(key)
        if e is not None:
            self.trace.append(e)
            return e[0]
        for k in range(1, n):
            self.pending.append(self.trace + [(k, key, None)] + self.prefix[self.pos:])
        self.trace.append((0, key, None))
        return 0

    def concretize(self, x):
        """fork over the integer values of x"""
        if self.speculating:
            raise CannotSpeculate()
        key = ("i", x.key() if isinstance(x, SReal) else x)
        e = self._replay(key)
        if e is not None:
            ch = e[0]
            self.trace.append(e)
            self.assume(sym._cmp(x, ch, "=="))
            return ch
        self.ex.check_budget()
        vals = []
        extra = []
        while True:
            v = sym.new_var("conc", "int")
            q = sym._cmp(x, SReal(Poly.var(v), {}, True), "==")
            r, m = solve(self.pc + extra + [q], self.ex.feas_ms * 5, self.ex.stats)
            if r == "unsat":
                break
            if r == "unknown":
                self.ex.truncated.add("concretisation unknown")
                break
            val = int(z3num(m.eval(v.z3, model_completion=True)))
            vals.append(val)
            extra.append(s_not(sym._cmp(x, val, "==")))
            if len(vals) > self.ex.max_conc:
                self.ex.truncated.add("more than %d integer values" % self.ex.max_conc)
                break
        if not vals:
            raise PathAbort("no value")
        vals.sort()
        for v in vals[1:]:
            self.pending.append(self.trace + [(v, key, x)] + self.prefix[self.pos:])
        self.trace.append((vals[0], key, x))
        self.assume(sym._cmp(x, vals[0], "=="))
        return vals[0]

    def few_values(self, x, limit=12):
        """fork over the integer values of x if there are at most `limit` of them, None otherwise"""
        if self.speculating:
            return None
        key = ("f", x.key())
        e = self._replay(key)
        if e is not None:
            self.trace.append(e)
            if e[0] is not None:
                self.assume(sym._cmp(x, e[0], "=="))
            return e[0]
        vals, extra = [], []
        while len(vals) <= limit:
            v = sym.new_var("conc", "int")
            r, m = solve(self.pc + extra + [sym._cmp(x, SReal(Poly.var(v), {}, True), "==")], self.ex.feas_ms, self.ex.stats)
            if r == "unsat":
                break
            if r == "unknown":
                vals = []
                break
            vals.append(int(z3num(m.eval(v.z3, model_completion=True))))
            extra.append(s_not(sym._cmp(x, vals[-1], "==")))
        if not vals or len(vals) > limit:
            self.trace.append((None, key, x))
            return None
        vals.sort()
        for v in vals[1:]:
            self.pending.append(self.trace + [(v, key, x)] + self.prefix[self.pos:])
        self.trace.append((vals[0], key, x))
        self.assume(sym._cmp(x, vals[0], "=="))
        return vals[0]

    # -- domain queries
    def may_be_zero(self, p):
        if sym._sign_known(p):
            return False
        b = sym._cmp(sym.mk(p), 0, "==")
        if isinstance(b, bool):
            return b
        k = self.pckeys.get(b.e.get_id())
        if k is not None:
            return k
        if self.speculating:
            r = self.feasible(b)
            if r == "unsat":
                return False
            raise CannotSpeculate()
        return self.decide(b)

    def may_be_negative(self, p):
        b = sym._cmp(sym.mk(p), 0, "<")
        if isinstance(b, bool):
            return b
        key = ("neg", p)
        if self.ex.sign_cache.get(key) == "no":
            return False
        if sym_sos(p):
            self.ex.sign_cache[key] = "no"
            return False
        r, _ = solve(closure_only([b]), 400, self.ex.stats)
        if r == "unsat":
            self.ex.sign_cache[key] = "no"
            return False
        r = self.feasible(b)
        if r == "unsat":
            return False
        if r == "unknown":
            self.note("sqrt domain undecided, assumed non-negative")
            nb = s_not(b)
            self._push(nb)
            return False
        return self.decide(b)

    def sign_under_assumptions(self, p):
        """sign of p implied by the axioms of its variables and the harness assumptions"""
        key = ("sign", p)
        c = self.ex.sign_cache.get(key)
        if c is not None:
            return c
        if sym_sos(p) and not self._zero_possible(p):
            self.ex.sign_cache[key] = 1
            return 1
        b = sym._cmp(sym.mk(p), 0, "<=")
        if isinstance(b, bool):
            return 0
        base = self.ex.base_assumptions
        r, _ = solve(base + [b], 500, self.ex.stats)
        if r == "unsat":
            self.ex.sign_cache[key] = 1
            return 1
        b = sym._cmp(sym.mk(p), 0, ">=")
        r, _ = solve(base + [b], 500, self.ex.stats)
        if r == "unsat":
            self.ex.sign_cache[key] = -1
            return -1
        self.ex.sign_cache[key] = 0
        return 0

    def _zero_possible(self, p):
        b = sym._cmp(sym.mk(p), 0, "==")
        if isinstance(b, bool):
            return b
        r, _ = solve(self.ex.base_assumptions + [b], 500, self.ex.stats)
        return r != "unsat"

    # -- properties
    def check(self, cond, label, margin=None, info=None, timeout=None):
        """obligation: cond holds on this path.  margin: list of stronger negations to try
        first for a robust counterexample."""
        ex = self.ex
        tmo = timeout or ex.check_ms
        rec = ex.obl.setdefault(label, {"discharged": 0, "unknown": 0, "cex": 0})
        cond = sym.to_sbool(cond)
        neg = s_not(cond)
        if isinstance(neg, bool):
            if not neg:
                rec["discharged"] += 1
                ex.trivial += 1
                return True
            r, m = solve(self.pc + [True], tmo, ex.stats, want_model=True)
        else:
            r, m = solve(self.pc + [neg], tmo, ex.stats, want_model=True)
        if r == "unsat":
            rec["discharged"] += 1
            return True
        if r == "unknown" and margin:
            # a violation beyond the margin may still be decidable
            for mg in margin:
                r2, m2 = solve(self.pc + [mg], tmo, ex.stats, want_model=True)
                if r2 == "sat":
                    r, m = r2, m2
                    break
        if r == "unknown":
            rec["unknown"] += 1
            ex.unknown_obl.append(label)
            return None
        rec["cex"] += 1
        models = []
        for mg in margin or []:
            mg = sym.to_sbool(mg)
            if mg is False:
                continue
            r2, m2 = solve(self.pc + [mg] + ex.nice(), tmo, ex.stats, want_model=True)
            if r2 == "sat":
                x = model_inputs(m2)
                if x is not None:
                    models.append(x)
            if len(models) >= 3:
                break
        if ex.nice():
            r2, m2 = solve(self.pc + [neg] + ex.nice(), tmo, ex.stats, want_model=True)
            if r2 == "sat":
                x = model_inputs(m2)
                if x is not None:
                    models.append(x)
        x = model_inputs(m)
        if x is not None:
            models.append(x)
        for x in models:
            for y in angle_variants(x):
                ex.violations.append(Violation(label, y, None, info))
        if ex.stop_on_cex:
            raise PathAbort("counterexample")
        return False


def closure_only(bs):
    return list(bs)


def sym_sos(p):
    """a few syntactic certificates of p >= 0"""
    if sym._nonneg_known(p):
        return True
    for q in SOS:
        if q == p:
            return True
    return False


SOS = []  # polynomials known to be sums of squares (registered by the linear algebra shim)


class Budget(BaseException):
    pass


STOP = None  # shared time (multiprocessing.Value) at which every job of the run ends


class Explorer:
    def __init__(self, max_paths=2000, wall_s=600, feas_ms=1500, check_ms=20000, max_conc=64):
        self.stats = Stats()
        self.max_paths = max_paths
        self._deadline = time.time() + wall_s
        self.feas_ms = feas_ms
        self.check_ms = check_ms
        self.max_conc = max_conc
        self.truncated = set()
        self.obl = {}
        self.trivial = 0
        self.unknown_obl = []
        self.violations = []
        self.sign_cache = {}
        self.base_assumptions = []
        self.unsupported = []
        self.notes = set()
        self.reached = 0
        self.stop_on_cex = False
        self.max_violations = 12
        self._nice = []
        self.exceptions = {}

    def nice(self):
        return self._nice

    @property
    def deadline(self):
        return self._deadline if STOP is None else min(self._deadline, STOP.value)

    def check_budget(self):
        if time.time() > self.deadline:
            raise Budget()

    def run(self, fn, on_exception=None):
        """fn(ctx): builds inputs, runs code, calls ctx.check."""
        stack = [[]]
        while stack:
            if self.stats.paths >= self.max_paths:
                self.truncated.add("path budget %d" % self.max_paths)
                break
            if time.time() > self.deadline:
                self.truncated.add("time budget")
                break
            if len(self.violations) >= self.max_violations:
                break
            prefix = stack.pop()
            c = Ctx(self, prefix)
            CUR.ctx = c
            self.stats.paths += 1
            try:
                fn(c)
                self.reached += 1
            except PathAbort:
                pass
            except Budget:
                self.truncated.add("time budget")
                break
            except Unsupported as e:
                self.unsupported.append(str(e))
            except Exception as e:  # noqa
                import traceback

                tb = traceback.format_exc()
                if on_exception is not None:
                    try:
                        on_exception(c, e)
                        self.reached += 1
                    except PathAbort:
                        pass
                else:
                    self.unsupported.append("exception in harness: " + tb[-1500:])
            finally:
                self.notes |= c.notes
                CUR.ctx = None
            stack.extend(reversed(c.pending))
        return self
