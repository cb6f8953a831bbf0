"""C16: incomplete specifications are reported, never guessed.

All subsets of supplied parameters for every evaluation method, all orders in which the
parameters are supplied (evaluating in between), in both backends and from cold and
evaluated models; all subsets of supplied angles; all functions without coefficient count;
inadmissible constructor arguments.  The lock-step driver requires exactly the missing
names in the error and correct values as soon as the specification is complete.
"""
import itertools

import numpy as np

import hist
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C16"

MODELS = [  # V, S, definitions, names
    (["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}],
     ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 1}], {}),
    (["Rayleigh", {}], ["Isotropic", {}], dict(tau="a1 + b1 * c1", omega="b1 * d1", NormBRDF=0.3, bsf="a1 * d1")),
    (["LinComb", [["w", ["Isotropic", {}]], ["1 - w", ["HenyeyGreenstein", {"t": "g * 0.5", "ncoefs": 2}]]]],
     ["CosineLobe", {"i": 2, "ncoefs": 2, "a": ["q", 1.0, 0.5]}], dict(tau="tau * k", omega=0.3, bsf=0.2)),
    (["HGRayleigh", {"t": "x", "ncoefs": 2, "a": [-1.0, "y", 1.0]}], ["Isotropic", {}],
     dict(tau="x", omega="omega", NormBRDF="y", bsf="x * z")),
    (["Isotropic", {}], ["HG_nadirnorm", {"t": "t", "ncoefs": 2}],
     dict(tau="tau1", omega="tau2", NormBRDF="tau", bsf="omega")),
]
VAL = dict(
    tau=0.31, omega=0.35, NormBRDF=0.25, bsf=0.15, t_v=0.4, t_s=-0.3, a1=0.2, b1=0.5, c1=0.6,
    d1=0.45, w=0.3, g=0.5, q=0.7, k=0.8, x=0.35, y=0.6, z=0.7, t=0.25, tau1=0.4, tau2=0.3,
)
VAL2 = {k: 1.1 * v for k, v in VAL.items()}
METHODS = ["calc", "surface", "volume", "interaction"]
BOUND = {
    "quick": "5 models (4-6 parameters): all subsets of supplied parameters x 4 evaluation methods, 4 "
    "model parameters and the jacobian x 2 backends x 2 orders, all orders of supplying the "
    "parameters one by one with an evaluation after each (24..720 per model), from evaluated models after redefinitions; "
    "all subsets of angles; 13 functions and all combinations of <= 3 of 4 parts without some of the coefficient counts; 22 inadmissible constructor calls; both analyzers with every parameter set on the model, as slider or missing (3**n assignments)",
    "thorough": "all orders in both backends and with every method",
}


def names(mod):
    V, S, defs = MODELS[mod]
    out = set(sx.params_of(V)) | set(sx.params_of(S))
    for k in m.PARAMS:
        d = defs.get(k, k)
        out |= sx.names(d)
    return sorted(out)


def cases(tier):
    full = tier == "thorough"
    out = []
    for mod in range(len(MODELS)):
        n = names(mod)
        for b in ("symengine", "sympy"):
            for mask in range(2 ** len(n)):
                out.append(dict(kind="subset", mod=mod, b=b, mask=mask))
            if b == "symengine" or full or len(n) <= 5:
                for first in itertools.permutations(range(len(n)), 2):
                    out.append(dict(kind="order", mod=mod, b=b, first=list(first), methods=METHODS if full else ["calc"]))
    for b in ("symengine", "sympy"):
        for geo in ("mono", "monofix", "bi", "bifix", "bipart"):
            for mask in range(16):
                out.append(dict(kind="angles", geo=geo, b=b, mask=mask))
        for i in range(len(NOCOEF)):
            out.append(dict(kind="ncoefs", b=b, i=i))
        for i in range(len(REDEF)):
            out.append(dict(kind="redef", b=b, i=i))
    for mod in range(len(MODELS)):
        for first in itertools.product(range(3), repeat=2):
            for which in ("analyze", "analyze3d"):
                out.append(dict(kind="analyze", mod=mod, first=list(first), which=which))
    out.append(dict(kind="ctor"))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


_FN = {}


def functions(mod):
    V, S, _ = MODELS[mod]
    if mod not in _FN:
        _FN[mod] = (sx.impl("V", V), sx.impl("S", S))
    return _FN[mod]


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        globals()["run_" + case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def start(mod, b, **flags):
    V, S, defs = MODELS[mod]
    L = m.Live(V, S, dict(dB=False, **flags), b, objs=functions(mod))
    L.do(["geom", {"t_0": {"arr": [0.3, 0.8]}, "p_0": 0.3}])
    for k, d in defs.items():
        L.do(["def", k, d])
    return L


def all_methods(L, r, jac=True):
    for k in METHODS:
        r.obs.add(str(L.do([k])))
    for k in m.PARAMS:
        L.do(["value", k])
    if jac:
        keys = ["tau", "omega", *sorted(L.cfg.params)]
        if not L.cfg.missing("calc"):
            L.do(["jac", keys])
        else:
            L.do(["jac", ["omega" if "omega" not in L.cfg.missing("calc") else "NormBRDF"]])
    r.transitions += 9
    r.states += 1


def run_subset(case, r):
    n = names(case["mod"])
    have = {k: VAL[k] for i, k in enumerate(n) if case["mask"] >> i & 1}
    rest = {k: VAL[k] for k in n if k not in have}
    L = start(case["mod"], case["b"])
    # parameters that are not required must neither help nor hurt
    if case["mask"] % 3 == 0:
        L.do(["upd", {"unused": 0.3}])
    if have:
        L.do(["upd", dict(reversed(have.items()) if case["mask"] % 2 else have)])
    all_methods(L, r)
    if rest:
        L.do(["calc", rest])
        L.do(["upd", {k: VAL2[k] for k in have}])
    all_methods(L, r)


def geometry(R):
    out = [R.dB, R.int_Q, R.sig0, {k: np.array(v).tolist() for k, v in R.param_dict.items()}]
    for k in m.ANGS:
        try:
            out.append(np.array(getattr(R, k)).tolist())
        except AttributeError:
            out.append(None)
    return repr(out)


def run_analyze(case, r):
    """the analyzers: every parameter is set on the model, a slider or missing"""
    import re
    import warnings

    import matplotlib.pyplot as plt

    warnings.simplefilter("ignore")
    n = names(case["mod"])
    three = case["which"] == "analyze3d"
    for rest in itertools.product(range(3), repeat=len(n) - 2):
        state = dict(zip(n, [*case["first"], *rest]))
        L = start(case["mod"], "symengine", int_Q=False)
        have = {k: VAL[k] for k, s in state.items() if s == 0}
        if have:
            L.do(["upd", have])
        sl = {k: (0.5 * abs(VAL[k]), 0.5 * abs(VAL[k]) + 0.2) for k, s in state.items() if s == 1}
        missing = L.cfg.missing("calc") - set(sl)
        if not missing and (len(sl) > 2 or (three and len(sl) != 1)):
            continue
        exc, before = None, geometry(L.R)
        try:
            getattr(L.R, case["which"])(**sl, **(dict(samples=3) if three else {}))
        except Exception as ex:
            exc = ex
        finally:
            plt.close("all")
        r.states += 1
        r.transitions += 1
        if missing:
            if exc is None:
                raise m.Violation(f"{case['which']} with {state}: not rejected (missing: {sorted(missing)})")
            found = set(re.findall(r"[A-Za-z_]\w*", str(exc))) & set(n)
            if found != missing:
                raise m.Violation(f"{case['which']} with {state}: expected an error naming {sorted(missing)}, got {exc!r}")
            if geometry(L.R) != before:
                raise m.Violation(f"{case['which']} with {state}: the rejected call changed the model")
        elif exc is not None:
            raise m.Violation(f"{case['which']} with {state}: unexpected {exc!r}")
        r.obs.add(str((sorted(missing), len(sl))))


def run_order(case, r):
    n = names(case["mod"])
    others = [i for i in range(len(n)) if i not in case["first"]]
    for rest in itertools.permutations(others):
        order = [n[i] for i in [*case["first"], *rest]]
        for method in case["methods"]:
            L = start(case["mod"], case["b"])
            L.do([method])
            for j, k in enumerate(order):
                if j % 2:
                    L.do(["upd", {k: VAL[k]}])
                    r.obs.add(str(L.do([method])))
                else:
                    r.obs.add(str(L.do([method, {k: VAL[k]}])))
                r.transitions += 1
            r.states += 1


GEO = {
    "mono": [["mono"]],
    "monofix": [["mono", 0.4]],
    "bi": [["bi"]],
    "bifix": [["bi", dict(t_0=0.3, t_ex=0.7, p_0=0.2, p_ex=1.1)]],
    "bipart": [["bi", dict(t_ex=0.7, p_0=0.2)]],
}
ANG = dict(t_0={"arr": [0.3, 0.8]}, t_ex=0.5, p_0=0.2, p_ex={"arr": [0.9, 1.4]})


def run_angles(case, r):
    V, S, defs = MODELS[0]
    order = list(m.ANGS)
    for rev in (False, True):
        L = m.Live(V, S, dict(dB=False), case["b"], objs=functions(0))
        for op in GEO[case["geo"]]:
            L.do(op)
        L.do(["upd", {k: VAL[k] for k in names(0)}])
        fixed = set(L.cfg.fixed) | ({"t_ex", "p_ex"} if L.cfg.mono else set())
        have = [k for i, k in enumerate(order) if case["mask"] >> i & 1 and k not in fixed]
        for k in reversed(have) if rev else have:
            all_methods(L, r, jac=False)
            L.do(["geom", {k: ANG[k]}])
        all_methods(L, r, jac=False)
        for k in order:
            got = exc = None
            try:
                got = getattr(L.R, k)
            except AttributeError as ex:
                exc = ex
            unset = not L.cfg.mono and k not in L.cfg.ang or L.cfg.mono and {"t_ex": "t_0", "p_ex": "p_0"}.get(k, k) not in L.cfg.ang
            if unset != (exc is not None):
                raise m.Violation(f"R.{k} is {got} ({exc})")
        rest = {k: ANG[k] for k in order if k not in have and k not in fixed}
        if rest:
            L.do(["geom", rest])
        all_methods(L, r)


VN = [
    ["HenyeyGreenstein", {"t": "t_v"}],
    ["HGRayleigh", {"t": 0.3}],
    ["LinComb", [[0.3, ["HenyeyGreenstein", {"t": "t_v"}]], [0.5, ["Rayleigh", {}]]]],
]
SN = [
    ["HenyeyGreenstein", {"t": "t_s"}],
    ["CosineLobe", {"i": 2}],
    ["HG_nadirnorm", {"t": 0.3}],
    ["LinComb", [[0.3, ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2}]], [0.5, ["CosineLobe", {"i": 3}]]]],
]
VOK = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
SOK = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 1}]
NOCOEF = [(v, SOK) for v in VN] + [(VOK, s) for s in SN] + [(VN[0], SN[0]), (VN[1], SN[1])]
for _z in (0, -1):
    NOCOEF += [(["HenyeyGreenstein", {"t": 0.2, "ncoefs": _z}], SOK), (VOK, ["CosineLobe", {"i": 2, "ncoefs": _z}])]
# all combinations of up to 3 parts with and without coefficient counts, one of them missing
_HG = "HenyeyGreenstein"
PARTS = [["Isotropic", {}], [_HG, {"t": 0.3}], [_HG, {"t": 0.2, "ncoefs": 2}], [_HG, {"t": 0.3, "a": [0.5, 1.0, 1.0]}]]
for _n in (1, 2, 3):
    for _c in itertools.product(range(4), repeat=_n):
        if {1, 3} & set(_c):
            _l = ["LinComb", [[0.3, PARTS[i]] for i in _c]]
            NOCOEF.append((_l, SOK) if sum(_c) % 2 else (VOK, _l))


def complete(spec):
    """False: a coefficient count is missing, None: inadmissible"""
    cls, arg = spec
    if cls == "LinComb":
        return all(complete(p) for _, p in arg)
    if cls in ("Isotropic", "Rayleigh"):
        return True
    n = arg.get("ncoefs")
    return False if n is None else None if n < 1 else True


def run_ncoefs(case, r):
    """coefficient counts are only required for the interaction contribution"""
    V, S = NOCOEF[case["i"]]
    for side, spec in (("V", V), ("S", S)):
        if complete(spec) is not False:
            continue
        f = sx.impl(side, spec)
        for what, get in (("ncoefs", lambda: f.ncoefs), ("legendre_expansion", lambda: f.legendre_expansion(0.1, 0.2, 0.3, 0.4))):
            try:
                got = get()
            except AttributeError:
                r.transitions += 1
            else:
                raise m.Violation(f"{what} of {spec} without coefficient count is {got}")
    par = dict(tau=0.3, omega=0.2, NormBRDF=0.3, t_v=0.4, t_s=-0.2)
    for first in (True, False):
        L = m.Live(V, S, dict(dB=False, int_Q=first), case["b"])
        L.do(["geom", {"t_0": {"arr": [0.3, 0.8]}, "p_0": 0.3}])
        L.do(["upd", par])
        for q in (True, False, True):
            L.do(["flag", "int_Q", q])
            for what in METHODS:
                if what == "interaction" and not q:
                    continue
                if what in ("surface", "volume") or not q:
                    r.obs.add(str(L.do([what])))
                else:
                    try:
                        got = getattr(L.R, what)()
                    except Exception:
                        pass
                    else:
                        raise m.Violation(f"{what} of {V}, {S} without coefficient count returned {got}")
                r.transitions += 1
            L.do(["flag", "int_Q", False])
            L.do(["jac", ["tau", "omega", "t_v", "t_s"]])
            r.states += 1
        # supplying complete functions
        L.do(["flag", "int_Q", True])
        L.do(["setV", VOK])
        L.do(["setS", SOK])
        r.obs.add(str(L.do(["calc"])))


REDEF = [
    ["def", "tau", "new"],
    ["def", "tau", "new1 * new2 + tau"],
    ["def", "omega", "exp(-new)"],
    ["def", "NormBRDF", {"sym": "new * NormBRDF"}],
    ["def", "bsf", "new"],
    ["setV", ["HenyeyGreenstein", {"t": "new", "ncoefs": 2}]],
    ["setV", ["LinComb", [["new1", ["Isotropic", {}]], ["new2", ["Rayleigh", {}]]]]],
    ["setS", ["HenyeyGreenstein", {"t": "new", "ncoefs": 2}]],
    ["setS", ["CosineLobe", {"i": 2, "ncoefs": 1, "a": ["new", 1.0, 1.0]}]],
]


def run_redef(case, r):
    """a complete, evaluated model becomes incomplete"""
    for mod in range(len(MODELS)):
        L = start(mod, case["b"])
        L.do(["upd", {k: VAL[k] for k in names(mod)}])
        all_methods(L, r)
        L.do(REDEF[case["i"]])
        all_methods(L, r)
        for k in sorted(L.cfg.missing("calc")):
            L.do(["calc", {k: 0.22}])
            r.transitions += 1
        all_methods(L, r)


def run_ctor(case, r):
    import sympy as sp

    import rt1_model
    from rt1_model import surface, volume

    bad = []
    for mod, cls in (
        (volume, "HenyeyGreenstein"), (volume, "HGRayleigh"),
        (surface, "HenyeyGreenstein"), (surface, "HG_nadirnorm"),
    ):
        C = getattr(mod, cls)
        bad += [
            (f"{mod.__name__}.{cls}", C, {}),
            (f"{mod.__name__}.{cls}", C, dict(ncoefs=2)),
            (f"{mod.__name__}.{cls}", C, dict(t=None, ncoefs=2)),
            (f"{mod.__name__}.{cls}", C, dict(t=0.3, ncoefs=2, a=[1.0, 1.0])),
            (f"{mod.__name__}.{cls}", C, dict(t=0.3, ncoefs=2, a=[1.0, 1.0, 1.0, 1.0])),
            (f"{mod.__name__}.{cls}", C, dict(t=0.3, ncoefs=2, foo=1)),
        ]
    for i in (None, 2.5, -1, "2", [2], sp.Symbol("i")):
        bad.append(("CosineLobe", surface.CosineLobe, dict(i=i, ncoefs=2)))
    bad.append(("CosineLobe", surface.CosineLobe, dict(ncoefs=2)))
    bad.append(("CosineLobe", surface.CosineLobe, dict(i=2, ncoefs=2, a=[1.0])))
    for mod in (volume, surface):
        bad.append(("Isotropic", mod.Isotropic, dict(a=[1.0])))
        bad.append(("Isotropic", mod.Isotropic, dict(foo=1.0)))
        bad.append(("LinComb", mod.LinComb, {}))
        bad.append(("LinComb", mod.LinComb, dict(choices=None)))
        bad.append(("LinComb", mod.LinComb, dict(choices=[0.3])))
    bad.append(("VolumeScatter", volume.VolumeScatter, {}))
    bad.append(("SurfaceScatter", surface.SurfaceScatter, {}))
    v, s = volume.Isotropic(), surface.Isotropic()
    bad += [
        ("RT1", rt1_model.RT1, {}),
        ("RT1", rt1_model.RT1, dict(V=v)),
        ("RT1", rt1_model.RT1, dict(SRF=s)),
        ("RT1", rt1_model.RT1, dict(V=None, SRF=s)),
        ("RT1", rt1_model.RT1, dict(V=v, SRF=None)),
        ("RT1", rt1_model.RT1, dict(V=v, SRF=s, foo=1)),
    ]
    for name, C, kw in bad:
        try:
            C(**kw)
        except Exception:
            pass
        else:
            raise m.Violation(f"{name}({kw}) was not rejected")
        r.transitions += 1
    # admissible calls next to them
    for C, kw in (
        (surface.CosineLobe, dict(i=0, ncoefs=2)), (surface.CosineLobe, dict(i=5)),
        (volume.HenyeyGreenstein, dict(t=0)), (volume.HGRayleigh, dict(t="x")),
        (surface.HG_nadirnorm, dict(t=sp.Symbol("u"), ncoefs=2)), (surface.HenyeyGreenstein, dict(t=0.0, a=(1, 1, 1))),
        (volume.LinComb, dict(choices=[(1, v)])), (surface.LinComb, dict(choices=(("w", s), (0.3, s)))),
    ):
        C(**kw)
        r.transitions += 1
    r.states += 1
    r.obs.add("ctor")
