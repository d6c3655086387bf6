"""compare_with_tolerance against its documented table."""

from symx.job import Job

OPS = ["<", ">", "<=", ">=", "==", "!="]
ASSUMPTIONS = ["tolerances are non-negative"]


def spec(h, op, x, y, eps):
    lt = h.lt(x, y - eps)
    gt = h.lt(y, x - eps)
    return {
        "<": lt,
        ">": gt,
        "<=": h.Not(gt),
        ">=": h.Not(lt),
        "==": h.Not(h.Or(lt, gt)),
        "!=": h.Or(lt, gt),
    }[op]


def _run(h, **kw):
    f = h.w.compare_with_tolerance
    x, y = h.real("x"), h.real("y")
    if "eps" in kw:
        eps = kw["eps"]
    else:
        rt = kw.get("rtol", h.q("1e-5"))
        at = kw.get("atol", h.q("1e-8"))
        eps = at + rt * h.abs(y)
    res = {}
    for op in OPS:
        r = f(x, op, y, **kw)
        h.check(h.Iff(r, spec(h, op, x, y, eps)), f"x {op} y")
        res[op] = r
    # trichotomy
    h.check(h.Or(res["<"], res["=="], res[">"]), "one of <, ==, > holds")
    h.check(h.Not(h.And(res["<"], res["=="])), "< excludes ==")
    h.check(h.Not(h.And(res[">"], res["=="])), "> excludes ==")
    h.check(h.Not(h.And(res["<"], res[">"])), "< excludes >")
    h.check(h.Iff(res["!="], h.Not(res["=="])), "!= is the negation of ==")


def with_eps(h):
    eps = h.real("eps", nonneg=True)
    _run(h, eps=eps)


def with_zero_eps(h):
    _run(h, eps=h.q(0))


def defaults(h):
    _run(h)


def with_rtol_atol(h):
    _run(h, rtol=h.real("rtol", nonneg=True), atol=h.real("atol", nonneg=True))


def with_rtol(h):
    _run(h, rtol=h.real("rtol", nonneg=True))


def with_atol(h):
    _run(h, atol=h.real("atol", nonneg=True))


def eps_wins(h):
    """an explicit tolerance is used whatever rtol and atol are"""
    f = h.w.compare_with_tolerance
    x, y = h.real("x"), h.real("y")
    eps = h.real("eps", nonneg=True)
    rt, at = h.real("rtol", nonneg=True), h.real("atol", nonneg=True)
    for op in OPS:
        h.check(h.Iff(f(x, op, y, eps=eps, rtol=rt, atol=at), spec(h, op, x, y, eps)), f"x {op} y with all tolerances")


def bad_operator(h):
    x, y = h.real("x"), h.real("y")
    for op in ("", "=", "=>", "=<", "<>", "~", "< ", "eq", None, 1):
        for kw in ({}, {"eps": h.q("1e-3")}):
            r, e = h.call(h.w.compare_with_tolerance, x, op, y, **kw)
            h.check(e is not None and isinstance(e, ValueError), f"operator {op!r} is an error")


def jobs(tier):
    b = "all reals x, y; all non-negative tolerances"
    return [
        Job(f.__name__, f, wall=60, bounds=b)
        for f in (with_eps, with_zero_eps, defaults, with_rtol_atol, with_rtol, with_atol, eps_wins, bad_operator)
    ]
