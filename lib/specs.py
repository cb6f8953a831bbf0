"""Catalogue of scattering-function specifications.

A specification is plain JSON: ``[class_name, {kwargs}]`` or
``["LinComb", [[weight, spec], ...]]``.  ``impl`` builds the real object, ``ref`` the
object of the reference model.  Parameter definitions are numbers or string expressions;
the reference evaluates strings with plain python/numpy (never sympy).
"""

import numpy as np

import refmodel as rm

_ENV = {
    "__builtins__": {},
    "sqrt": np.sqrt,
    "exp": np.exp,
    "sin": np.sin,
    "cos": np.cos,
    "log": np.log,
    "pi": np.pi,
}


class Missing(Exception):
    """A parameter required by an expression is not available."""


def expr(d):
    """number | string expression -> number | callable(params)"""
    if not isinstance(d, str):
        return d
    code = compile(d, "<expr>", "eval")

    def f(params, code=code):
        env = dict(_ENV)
        env.update(params)
        try:
            return eval(code, env)
        except NameError as ex:
            raise Missing(str(ex))

    f.names = frozenset(n for n in code.co_names if n not in _ENV)
    f.src = d
    return f


def symbolic(d):
    """string expression -> sympy expression

    "+ ..." uses symbols that are known to be positive, "++ ..." ordinary symbols for
    every name (also for those that sympify takes for functions or constants).
    """
    import sympy as sp

    if not d.startswith("+"):
        return sp.sympify(d)
    kw = {} if d.startswith("++") else {"positive": True}
    return sp.sympify(d, locals={n: sp.Symbol(n, **kw) for n in names(d)})


def names(d):
    return set(expr(d).names) if isinstance(d, str) else set()


KIND = {
    ("V", "Isotropic"): "v_iso",
    ("V", "Rayleigh"): "v_ray",
    ("V", "HenyeyGreenstein"): "v_hg",
    ("V", "HGRayleigh"): "v_hgray",
    ("S", "Isotropic"): "s_iso",
    ("S", "CosineLobe"): "s_cos",
    ("S", "HenyeyGreenstein"): "s_hg",
    ("S", "HG_nadirnorm"): "s_hgn",
}


def _arg(v):
    if isinstance(v, list):
        return [_arg(x) for x in v]
    return symbolic(v) if isinstance(v, str) and v.startswith("+") else v


def impl(side, spec):
    from rt1_model import surface, volume

    mod = volume if side == "V" else surface
    cls, arg = spec
    if cls == "LinComb":
        return mod.LinComb([(_arg(w), impl(side, s)) for w, s in arg])
    return getattr(mod, cls)(**{k: _arg(v) for k, v in arg.items()})


_REF = {}


def ref(side, spec):
    key = side + repr(spec)
    if key not in _REF:
        _REF[key] = _ref(side, spec)
    return _REF[key]


def _ref(side, spec):
    cls, arg = spec
    if cls == "LinComb":
        return rm.Lin([(expr(w), ref(side, s)) for w, s in arg])
    return rm.Fn(
        KIND[side, cls],
        arg.get("ncoefs"),
        t=expr(arg.get("t")),
        i=arg.get("i"),
        a=tuple(_a(x) for x in arg["a"]) if arg.get("a") else None,
    )


_A = {}


def _a(x):
    # identical definitions share one object so that equal "a" compare equal
    if isinstance(x, str):
        return _A.setdefault(x, expr(x))
    return x


def params_of(spec):
    """Names of all free parameters of a specification."""
    cls, arg = spec
    if cls == "LinComb":
        out = set()
        for w, s in arg:
            out |= names(w) | params_of(s)
        return out
    out = names(arg.get("t"))
    for x in arg.get("a") or ():
        out |= names(x)
    return out


def ncoefs(side, spec):
    return ref(side, spec).ncoefs
