"""SyntacticSugar, add_sugar, remove_sugar: attribute access is key access."""

from symx.job import Job

ASSUMPTIONS = ["reading by attribute: keys that are not names of dict methods (those are found by key only)"]

KEYS = ["names", "positions", "k3"]


def _same(h, a, model, label):
    """dict a has exactly the keys of model, in order, with the same objects"""
    h.check(list(a.keys()) == list(model.keys()), f"{label}: keys")
    h.check(len(a) == len(model), f"{label}: length")
    for k in model:
        h.check(k in a, f"{label}: membership")
        h.eq(a[k], model[k], f"{label}: value by key")


def _history(steps):
    def f(h):
        # any initial content over the keys
        start = {}
        for k in KEYS:
            if h.boolean_choice("has_" + k):
                start[k] = h.real("v_" + k)
        how = h.choose("origin", 3)
        if how == 0:
            s = h.w.add_sugar(start)
            h.check(not (s is start), "the argument itself is not returned")
        elif how == 1:
            s = h.w.SyntacticSugar(start)
        else:
            s = h.w.SyntacticSugar()
            for k, v in start.items():
                setattr(s, k, v)
        h.check(isinstance(s, dict), "sugar is a dictionary")
        model = dict(start)
        _same(h, s, model, "after adding sugar")
        for t in range(steps):
            op = h.choose(f"op{t}", 5)
            k = KEYS[h.choose(f"key{t}", len(KEYS))]
            if op == 0:  # write by attribute
                v = h.real(f"w{t}")
                setattr(s, k, v)
                model[k] = v
            elif op == 1:  # write by key
                v = h.real(f"w{t}")
                s[k] = v
                model[k] = v
            elif op == 2:  # delete by attribute
                r, e = h.call(delattr, s, k)
                h.check((e is None) == (k in model), "deleting is possible exactly when the key is there")
                if e is not None:
                    h.check(isinstance(e, (KeyError, AttributeError)), "kind of the error")
                model.pop(k, None)
            elif op == 3:  # delete by key
                r, e = h.call(s.__delitem__, k)
                h.check((e is None) == (k in model), "deleting by key is possible exactly when the key is there")
                model.pop(k, None)
            else:
                d = h.w.add_sugar(h.w.remove_sugar(s))
                h.check(isinstance(d, dict), "sugar added again")
                s = d
            _same(h, s, model, f"after step {t + 1}")
            for q in KEYS:
                r, e = h.call(getattr, s, q)
                if q in model:
                    h.check(e is None, "attribute of an existing key")
                    if e is None:
                        h.eq(r, model[q], "attribute is the value of the key")
                else:
                    h.check(e is not None and isinstance(e, AttributeError), "attribute of a missing key is an AttributeError")
                h.check(hasattr(s, q) == (q in model), "hasattr agrees with membership")
        plain = h.w.remove_sugar(s)
        h.check(type(plain) is dict, "removing sugar gives a plain dictionary")
        _same(h, plain, model, "after removing sugar")
        for q in KEYS:
            h.check(not hasattr(plain, q), "no attribute access after removing")
        # the objects are independent
        plain["new"] = 1
        h.check("new" not in s, "the plain dictionary is independent")
        h.check(list(start) == [k for k in KEYS if k in start], "original keeps its keys")
        for k in start:
            h.eq(start[k], h.real("v_" + k), "original dictionary unchanged")

    return f


def values_shared(h):
    """values are the same objects: a change of a stored list is seen both ways"""
    v = [h.real("a"), h.real("b")]
    d = {"names": v}
    s = h.w.add_sugar(d)
    h.check(s.names is v and s["names"] is v, "values are not copied")
    p = h.w.remove_sugar(s)
    h.check(p["names"] is v, "values are not copied back")


def any_value(h):
    """whatever the value is: None, zero, empty, false, an array"""
    vals = [None, 0, "", False, [], {}, (), h.array([h.real("a"), h.real("b")]), h.real("c"), float("nan"), NotImplemented, KeyError("k")]
    v = vals[h.choose("value", len(vals))]
    how = h.choose("how", 4)
    if how == 0:
        s = h.w.add_sugar({"first": 1, "k": v})
    else:
        s = h.w.SyntacticSugar({"first": 1})
        if how == 1:
            s.k = v
        elif how == 2:
            s["k"] = v
        else:
            s.k = 5
            s.k = v
    for _ in range(2):
        r, e = h.call(getattr, s, "k")
        h.check(e is None, "attribute of an existing key, any value")
        h.check(r is v and s["k"] is v and s.get("k") is v, "the value itself, any value")
        h.check(hasattr(s, "k") and "k" in s and list(s) == ["first", "k"], "membership, any value")
    p = h.w.remove_sugar(s)
    h.check(type(p) is dict and list(p) == ["first", "k"] and p["k"] is v, "removing sugar, any value")
    del s.k
    h.check("k" not in s and not hasattr(s, "k") and list(s) == ["first"], "deleting, any value")


def not_dicts(h):
    bad = [1, None, "abc", [("a", 1)], (1, 2), 1.5][h.choose("value", 6)]
    for f in (h.w.add_sugar, h.w.remove_sugar):
        r, e = h.call(f, bad)
        h.check(e is not None and isinstance(e, ValueError), "something that is not a dictionary is a ValueError")


METHODS = ["keys", "values", "items", "get", "pop", "copy", "update", "clear", "setdefault", "popitem", "fromkeys", "_private", "__len__"]


def odd_keys(h):
    """keys that are no identifiers survive"""
    d = {}
    ks = ["a b", "1x", "", 5, (1, 2), None]
    for i, k in enumerate(ks):
        d[k] = h.real(f"v{i}")
    s = h.w.add_sugar(d)
    _same(h, s, d, "odd keys")
    _same(h, h.w.remove_sugar(s), d, "odd keys back")
    # names of the methods of a dictionary are keys like any other
    for name in METHODS:
        d = {"first": h.real("x"), name: h.real("v"), "last": h.real("z")}
        s = h.w.add_sugar(d)
        _same(h, s, d, f"key {name}")
        _same(h, h.w.remove_sugar(s), d, f"key {name} back")
        h.check(type(h.w.remove_sugar(s)) is dict, "removing sugar gives a plain dictionary")
        s = h.w.SyntacticSugar()
        setattr(s, name, h.real("v"))
        _same(h, s, {name: h.real("v")}, f"key {name} written by attribute")
        _same(h, h.w.remove_sugar(s), {name: h.real("v")}, f"key {name} written by attribute, back")
    nested = {"inner": {"x": h.real("x")}}
    s = h.w.add_sugar(nested)
    h.eq(s.inner["x"], h.real("x"), "nested values are kept")
    h.check(s.inner is nested["inner"], "nested dictionaries are the same objects")


def jobs(tier):
    T = tier == "thorough"
    return [
        Job(f"history_{n}", _history(n), wall=600, paths=200000, bounds=f"every initial content of 3 keys, every history of {n} operations, all values")
        for n in ((0, 1, 2) + ((3,) if T else ()))
    ] + [Job(f.__name__, f, wall=60, bounds="see the job") for f in (values_shared, any_value, not_dicts, odd_keys)]
