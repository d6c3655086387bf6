"""Replacing a function of the package in every module that imported it."""

_STUBBED = {}


def stub_function(w, path, fn):
    import sys

    if path not in _STUBBED:
        o = w
        for k in path.split("."):
            o = getattr(o, k)
        _STUBBED[path] = [(m, k) for n, m in list(sys.modules.items()) if n == "wulfric" or n.startswith("wulfric.")
                          for k, v in list(vars(m).items()) if v is o]
    for m, k in _STUBBED[path]:
        setattr(m, k, fn)
