"""C17: parameter definitions behave like the values they denote.

(a) all combinations of kinds of definitions of the four model parameters, redefined one
    after the other on one model (all ordered pairs of kinds per parameter)
(b) all insertion orders of the free symbols, ways to supply them and backends
(c) all names of the catalogue in every role (model parameter, asymmetry, weight,
    generalisation parameter)
(d) all kinds of definitions of the function parameters
"""
import itertools

import numpy as np

import hist
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C17"

V = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
S = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 1}]

# kinds of definitions
KINDS = [
    lambda p: p,
    lambda p: "k",
    lambda p: "k * j + 0.05",
    lambda p: "exp(-k) * sqrt(j) / 2",
    lambda p: f"{p}**2 * 0.9 + t_v * 0.1",
    lambda p: "0.37",
    lambda p: {"sym": "0.5 * k"},
    lambda p: {"sym": "k**2 * 0.3 + j * 0.2"},
    lambda p: 0.4,
    lambda p: {"pyint": 1},
    lambda p: {"f64": 0.3},
    lambda p: {"arr": [0.1, 0.6]},
    lambda p: {"arr": [0.0]},
    lambda p: {"pyint": 0},
    lambda p: "N * 0.3 + K / 5",
    lambda p: {"sym": "+0.4 * sqrt(k**2) + 0.1 * beta"},
    lambda p: {"sym": "++S * 0.3 * k"},
]
ORDER = ["tau", "omega", "NormBRDF", "bsf"]
PAR = dict(tau=0.31, omega=0.35, NormBRDF=0.25, bsf=0.15, t_v=0.4, t_s=-0.3, k=0.6, j={"arr": [0.5, 0.8]}, N=0.5, K=0.7, beta=0.4, S=0.8)
NAMES = [
    "n", "N", "K", "k", "x", "X", "t", "T", "a", "A", "B", "C", "D", "F", "G", "H", "J", "L", "M", "P", "R", "U",
    "V", "W", "Y", "Z", "m", "i", "j", "l", "s", "p", "r", "e", "d", "o", "q", "v", "w", "y", "z",
    "tau_1", "t_v", "SRF", "I0", "sig0", "dB", "int_Q", "t_0", "p_0", "t_ex", "p_ex", "theta", "phi", "mu", "mu_0",
    "sigma", "rho", "alpha", "delta", "eps", "epsilon", "kappa", "nu", "xi", "eta", "psi", "chi", "x1", "x10", "x_1",
    "_x", "x_", "Tau", "tau2", "omega_2", "NormBRDF2", "bsf_", "value", "func", "param", "params", "kwargs", "args",
    "key", "val", "vals", "numpy", "np", "array", "out", "real", "LAI", "SM", "VOD", "ndvi", "Sigma", "f", "g", "h",
    "theta_i", "phi_i", "theta_1", "lat", "nmax", "c0", "fn", "name", "order", "u", "b", "c",
]
ROLES = ["tau", "expr", "v_t", "s_t", "s_a", "w"]
BOUND = {
    "quick": "all 17**2 ordered pairs of kinds of definitions per parameter x 3 pairs of kinds of "
    "the others, all 17**2 pairs of kinds for every pair of parameters (values, contributions, jacobian); all 120 insertion orders of 5 "
    "symbols x 3 ways of supplying x 2 backends; %d names x 6 roles x 2 backends; 13 kinds of "
    "function-parameter definitions x 5 function parameters x 2 backends" % len(NAMES),
    "thorough": "as quick with all 17**3 triples of kinds x 3 for the fourth parameter, 720 orders of 6 symbols",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    for b in ("symengine", "sympy"):
        for p in range(4):
            for first in range(len(KINDS)):
                out.append(dict(kind="redef", b=b, p=p, first=first))
        for p, q in itertools.combinations(range(4), 2):
            for first in range(len(KINDS)):
                out.append(dict(kind="pairs", b=b, p=p, q=q, first=first, full=full))
        for how in ("upd", "single", "calc"):
            n = 6 if full else 5
            for first in itertools.permutations(range(n), 2):
                out.append(dict(kind="order", b=b, how=how, n=n, first=list(first)))
        for name in NAMES:
            out.append(dict(kind="name", b=b, name=name))
        for role in ("v_t", "s_t", "s_a", "w", "v_a"):
            for k in range(len(FKINDS)):
                out.append(dict(kind="function", b=b, role=role, k=k))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


_FN = {}


def fns(V, S):
    k = repr((V, S))
    if k not in _FN:
        _FN[k] = (sx.impl("V", V), sx.impl("S", S))
    return _FN[k]


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        globals()["run_" + case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def start(b, par=PAR, geo=True):
    L = m.Live(V, S, dict(dB=False), b, objs=fns(V, S))
    if geo:
        L.do(["geom", {"t_0": {"arr": [0.3, 0.8]}, "p_0": 0.3}])
    if par:
        L.do(["upd", par])
    return L


def look(L, r, jac=False):
    for k in m.PARAMS:
        L.do(["value", k])
    r.obs.add(L.do(["calc"]))
    if jac:
        L.do(["jac", ["tau", "k", "t_v", "bsf"]])
    r.states += 1
    r.transitions += 5


def run_redef(case, r):
    p = ORDER[case["p"]]
    others = [k for k in ORDER if k != p]
    L = start(case["b"])
    for o in ((0, 0, 0), (2, 7, 11), (5, 4, 13)):
        for k, i in zip(others, o):
            L.do(["def", k, KINDS[i](k)])
        for second in range(len(KINDS)):
            L.do(["def", p, KINDS[case["first"]](p)])
            look(L, r)
            L.do(["def", p, KINDS[second](p)])
            look(L, r, jac=second % 3 == 0)


def run_pairs(case, r):
    p, q = ORDER[case["p"]], ORDER[case["q"]]
    others = [k for k in ORDER if k not in (p, q)]
    L = start(case["b"])
    L.do(["def", p, KINDS[case["first"]](p)])
    for i in range(len(KINDS)):
        L.do(["def", q, KINDS[i](q)])
        look(L, r, jac=True)
        if case["full"]:
            for j in range(len(KINDS)):
                L.do(["def", others[0], KINDS[j](others[0])])
                for l in (0, 2, 8):
                    L.do(["def", others[1], KINDS[l](others[1])])
                    look(L, r)
            L.do(["def", others[0], others[0]])
            L.do(["def", others[1], others[1]])


def run_order(case, r):
    names = ["k", "j", "t_v", "tau", "N", "t_s"][: case["n"]]
    vals = dict(k=0.6, j=0.5, t_v=0.4, tau=0.31, N=0.25, t_s=-0.3)
    rest = [i for i in range(len(names)) if i not in case["first"]]
    for perm in itertools.permutations(rest):
        order = [names[i] for i in [*case["first"], *perm]]
        L = start(case["b"], par={k: v for k, v in vals.items() if k not in names} or None)
        L.do(["def", "omega", "k * j + 0.1 * tau"])
        L.do(["def", "NormBRDF", "N / (1 + t_v)"])
        L.do(["def", "bsf", "0.3 * j**2"])
        if case["how"] == "upd":
            L.do(["upd", {k: vals[k] for k in order}])
        elif case["how"] == "single":
            for k in order:
                L.do(["upd", {k: vals[k]}])
        else:
            L.do(["calc", {k: vals[k] for k in order}])
        look(L, r, jac=True)
        # (the values of the scattering functions do not depend on the order either)
        params = {k: L.R.param_dict[k] for k in order}
        ref = sx.ref("V", V).value(0.3, 0.9, 0.2, 1.0, {"t_v": 0.4})
        if not m.same(L.R.V.calc(0.3, 0.9, 0.2, 1.0, params), ref, rtol=1e-9):
            raise m.Violation(f"V.calc with the order {order}")
        # evaluating with all parameters supplied in the opposite order
        L.do(["calc", {k: vals[k] * 0.9 for k in reversed(order)}])


def run_name(case, r):
    n = case["name"]
    problems = []
    for role in ROLES:
        v, s, defs, val = list(V), list(S), {}, 0.35
        v, s = ["HenyeyGreenstein", {"t": 0.4, "ncoefs": 2}], ["HenyeyGreenstein", {"t": -0.3, "ncoefs": 2}]
        if role == "tau":
            defs = dict(tau=n)
        elif role == "expr":
            defs = dict(omega=f"{n} * 0.5 + 0.1", bsf=f"0.3 * {n}**2")
        elif role == "v_t":
            v = ["HenyeyGreenstein", {"t": n, "ncoefs": 2}]
        elif role == "s_t":
            s = ["HenyeyGreenstein", {"t": f"0.5 * {n}", "ncoefs": 2}]
        elif role == "s_a":
            s = ["HenyeyGreenstein", {"t": 0.3, "ncoefs": 2, "a": [n, 1.0, 1.0]}]
        else:
            v = ["LinComb", [[n, ["Rayleigh", {}]], [f"1 - {n}", ["Isotropic", {}]]]]
        try:
            L = m.Live(v, s, dict(dB=False), case["b"])
            L.do(["geom", {"t_0": {"arr": [0.3, 0.8]}, "p_0": 0.3}])
            for k, d in defs.items():
                L.do(["def", k, d])
            L.do(["calc"])
            par = dict(tau=0.31, omega=0.35, NormBRDF=0.25, bsf=0.15)
            L.do(["upd", {k: x for k, x in par.items() if k not in defs}])
            L.do(["calc"])
            L.do(["upd", {n: val}])
            look(L, r, jac=False)
            L.do(["jac", [n, "omega"]])
            L.do(["calc", {n: {"arr": [0.2, 0.4]}}])
        except m.Violation as ex:
            # only the role as parameter of a scattering function is a known finding
            fn = n == "n" and role in ("v_t", "s_t", "s_a", "w")
            r.fail("name=n" if fn else f"name={n}|{role}|{case['b']}", f"{n} as {role} ({case['b']}): {ex}")


# kinds of definitions of function parameters: (definition, reference)
def FKINDS_():
    import sympy as sp

    t, u = sp.symbols("t u")
    return [
        (lambda: 0.3, 0.3),
        (lambda: np.float64(0.3), 0.3),
        (lambda: "0.3", 0.3),
        (lambda: sp.Float(0.3), 0.3),
        (lambda: sp.Rational(3, 10), 0.3),
        (lambda: "t", "t"),
        (lambda: t, "t"),
        (lambda: "t * u", "t * u"),
        (lambda: t * u, "t * u"),
        (lambda: "t**2 + 0.1 * u", "t**2 + 0.1 * u"),
        (lambda: "sqrt(u) / 2 - t", "sqrt(u) / 2 - t"),
        (lambda: sx.symbolic("+sqrt(u**2) - t"), "u - t"),
        (lambda: sx.symbolic("++t * beta * S"), "t * beta * S"),
    ]


FKINDS = range(13)


def run_function(case, r):
    import rt1_model
    from rt1_model import surface, volume

    rt1_model.set_lambda_backend(case["b"])
    mk, ref = FKINDS_()[case["k"]]
    v = ["HenyeyGreenstein", {"t": 0.4, "ncoefs": 2}]
    s = ["HenyeyGreenstein", {"t": -0.3, "ncoefs": 2}]
    role = case["role"]
    if role == "v_t":
        for cls in ("HenyeyGreenstein", "HGRayleigh"):
            one(case, r, getattr(volume, cls)(t=mk(), ncoefs=2), sx.impl("S", s), [cls, {"t": ref, "ncoefs": 2}], s)
    elif role == "s_t":
        for cls in ("HenyeyGreenstein", "HG_nadirnorm"):
            one(case, r, sx.impl("V", v), getattr(surface, cls)(t=mk(), ncoefs=2), v, [cls, {"t": ref, "ncoefs": 2}])
    elif role == "s_a":
        for pos in range(3):
            a, ra = [1.0, 1.0, 0.6], [1.0, 1.0, 0.6]
            a[pos], ra[pos] = mk(), ref
            one(case, r, sx.impl("V", v), surface.CosineLobe(i=2, ncoefs=2, a=a), v, ["CosineLobe", {"i": 2, "ncoefs": 2, "a": ra}])
    elif role == "v_a":
        for pos in range(3):
            a, ra = [-1.0, 1.0, 0.6], [-1.0, 1.0, 0.6]
            a[pos], ra[pos] = mk(), ref
            one(case, r, volume.Rayleigh(a=tuple(a)), sx.impl("S", s), ["Rayleigh", {"a": ra}], s)
    else:
        one(
            case, r, volume.LinComb([(mk(), volume.Rayleigh()), (0.2, sx.impl("V", v))]), sx.impl("S", s),
            ["LinComb", [[ref, ["Rayleigh", {}]], [0.2, v]]], s,
        )
        one(
            case, r, sx.impl("V", v), surface.LinComb([(0.1, surface.Isotropic()), (mk(), sx.impl("S", s))]),
            v, ["LinComb", [[0.1, ["Isotropic", {}]], [ref, s]]],
        )


def one(case, r, Vo, So, vspec, sspec):
    L = m.Live(vspec, sspec, dict(dB=False), case["b"], objs=(Vo, So))
    L.do(["geom", {"t_0": {"arr": [0.3, 0.8]}, "p_0": 0.3}])
    L.do(["upd", dict(tau=0.31, omega=0.35, NormBRDF=0.25, bsf=0.15, beta=0.6, S=0.8)])
    L.do(["calc"])
    for val in (dict(t=0.3, u=0.5), dict(u=0.2, t=-0.2), dict(t={"arr": [0.1, 0.2]})):
        L.do(["upd", val])
        look(L, r)
        L.do(["jac", ["tau", "t", "u"]])
