"""C06: the jacobian is the exact derivative of surface + volume in output units.

The derivative is obtained from the reference model by the complex-step method (exact to
machine precision).  Enumerated: (a) all combinations of definitions of the four model
parameters, (b) all functions x geometries, (c) all output units / incident intensities,
(d) all orders and repetitions of requested parameters.
"""
import itertools

import grid
import machine as m
from engine import Result

PROPERTY = "C06"

# definitions of the model parameters; the symbol of the scattering functions occurs too
DEFS = {
    "tau": ["tau", "k", "2 * k + 0.1", "0.5 * t_s + 0.4", "tau**2 * k", 0.4, {"sym": "+sqrt(k**2) + 0.1 * beta"}],
    "omega": ["omega", "k", "k * j", "t_v * 0.5", "omega * tau", 0.3, {"sym": "++k * S + tau"}],
    "NormBRDF": ["NormBRDF", "k", "exp(-k)", "t_s + t_v", "NormBRDF * j", 0.2],
    "bsf": ["bsf", "k * 0.5", "t_s**2", "bsf * 0.5 + 0.1 * j", 0.0, 0.6, {"sym": "+0.3 * k * t_v"}],
}
UNITS = [  # sig0, dB, I0
    [True, True, 1.0],
    [True, False, 2.5],
    [False, True, 2.5],
    [False, False, 2.5],
    [True, True, 0.3],
]
V0 = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
S0 = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 1.0, 0.6]}]
PAR = dict(tau=0.3, omega=0.35, NormBRDF=0.25, bsf=0.15, k=0.45, j=0.8, beta=0.7, S=0.4, t_v=0.35, t_s=0.3)
GEO = ["mono", "bi", "bipart", "bifix"]

BOUND = {
    "quick": "all 7 * 7 * 6 * 7 combinations of parameter definitions x 2 units x all parameters as "
    "keys; 14 x 14 function pairs x 5 units (monostatic), diagonal pairs and 6 pairs with shared symbols x 4 geometries x "
    "2 backends; all ordered selections (with repetition) of <= 3 of 6 keys",
    "thorough": "as quick with 5 units for all definitions, both backends, all pairs in all geometries",
}


def cases(tier):
    out = []
    full = tier == "thorough"
    for b in ("symengine", "sympy") if full else ("symengine",):
        for d in itertools.product(*(range(len(DEFS[k])) for k in ("tau", "omega", "NormBRDF"))):
            out.append(dict(kind="defs", d=list(d), b=b, units=list(range(5 if full else 2))))
    Vs, Ss = grid.V_specs(), grid.S_specs()
    for i, V in enumerate(Vs):
        for j, S in enumerate(Ss):
            geos = GEO if full or i == j else ["mono"]
            for g in geos:
                for b in ("symengine", "sympy") if (i == j or full) else ("symengine",):
                    out.append(dict(kind="fn", V=V, S=S, geo=g, b=b))
    for (V, S), g, b in itertools.product(grid.SHARED, GEO, ("symengine", "sympy")):
        out.append(dict(kind="fn", V=V, S=S, geo=g, b=b))
    for first in range(6):
        for b in ("symengine", "sympy"):
            out.append(dict(kind="order", first=first, b=b))
    return out


def run_case(case):
    r = Result()
    r.traces = 1
    L = None
    try:
        L = {"defs": defs, "fn": fn, "order": order}[case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(str(case)[:250], f"{case}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def unit(L, u, r):
    for k, v in zip(("sig0", "dB", "I0"), UNITS[u]):
        L.do(["flag", k, v])
        r.transitions += 1


def defs(case, r):
    L = m.Live(V0, S0, dict(int_Q=False), case["b"])
    L.do(["geom", {"t_0": {"arr": [0.2, 0.9]}, "p_0": 0.3}])
    L.do(["upd", PAR])
    names = ("tau", "omega", "NormBRDF")
    for k, i in zip(names, case["d"]):
        L.do(["def", k, DEFS[k][i]])
    keys = ["tau", "omega", "NormBRDF", "bsf", "k", "j", "t_v", "t_s", "beta", "S"]
    for b in DEFS["bsf"]:
        L.do(["def", "bsf", b])
        for u in case["units"]:
            unit(L, u, r)
            r.obs.add(L.do(["jac", keys]))
            r.states += 1
            r.transitions += 1


def geometry(L, geo):
    if geo == "mono":
        L.do(["geom", {"t_0": {"arr": [0.0, 0.4, 1.3]}, "p_0": {"arr": [0.3, -2.0, 1.0]}}])
    elif geo == "bi":
        L.do(["bi"])
        L.do(["geom", {"t_0": {"arr": [0.0, 0.4, 1.3]}, "t_ex": {"arr": [0.3, 1.2, 0.7]}, "p_0": 0.4, "p_ex": {"arr": [1.0, -2.0, 5.0]}}])
    elif geo == "bipart":
        L.do(["bi", {"t_ex": 0.8, "p_0": 0.4}])
        L.do(["geom", {"t_0": {"col": [0.1, 1.1]}, "p_ex": {"arr": [1.0, -2.0, 5.0]}}])
    else:
        L.do(["bi", {"t_0": 0.5, "t_ex": 1.1, "p_0": 0.2, "p_ex": -0.7}])


def fn(case, r):
    L = m.Live(case["V"], case["S"], dict(int_Q=False), case["b"])
    geometry(L, case["geo"])
    names = sorted((m.sx.params_of(case["V"]) | m.sx.params_of(case["S"])) - set(m.PARAMS))
    keys = ["tau", "omega", "NormBRDF", "bsf", *names]
    for sym in (grid.SYM, grid.SYM2):
        for tau, bsf in ((0.3, 0.2), (2.0, 0.0), (0.05, 1.0)):
            L.do(["upd", dict(tau=tau, omega=0.35, NormBRDF=0.25, bsf=bsf, **{k: sym[k] for k in names})])
            for u in range(len(UNITS)):
                if UNITS[u][1] and (sym is grid.SYM2):
                    continue  # logarithms of (unphysical) negative weights
                unit(L, u, r)
                r.obs.add(L.do(["jac", keys]))
                r.states += 1
                r.transitions += 1


KEYS = ["tau", "omega", "NormBRDF", "bsf", "t_s", "k"]


def order(case, r):
    L = m.Live(V0, S0, dict(int_Q=True), case["b"])
    L.do(["geom", {"t_0": {"arr": [0.2, 0.9]}, "p_0": 0.3}])
    L.do(["upd", PAR])
    L.do(["def", "tau", "tau * k"])
    sels = [[]]
    for n in (0, 1, 2):
        sels += [[KEYS[case["first"]], *x] for x in itertools.product(KEYS, repeat=n)]
    for sel in sels:
        if sel:
            r.obs.add(L.do(["jac", sel]))
        r.states += 1
        r.transitions += 1
        for fmt in ("list",):
            got = L.R.jacobian(tuple(sel), format=fmt) if sel else []
            if len(got) != len(sel):
                raise m.Violation(f"{len(got)} entries for {sel}")
