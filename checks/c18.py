"""C18: pre-computed coefficients reproduce the results.

Donor and receiver models with the same scattering functions and geometry are explored
together: every kind of input, every geometry setting (fixed and dynamic angles), every
pair of backends, shared and separate function objects, donor evaluated before or not,
every pair of insertion orders of the parameters, and all short operation sequences on
either of them afterwards (with observations of both in between).
"""
import itertools

import numpy as np

import hist
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C18"
PI = np.pi
HG = "HenyeyGreenstein"
MODELS = [
    ([HG, {"t": "t_v", "ncoefs": 2}], [HG, {"t": "t_s", "ncoefs": 2, "a": ["a_s", 1.0, 0.5]}]),
    (["LinComb", [["w", ["Rayleigh", {}]], [0.4, [HG, {"t": "t_v", "ncoefs": 2}]]]],
     ["CosineLobe", {"i": 3, "ncoefs": 3, "a": [0.6, 1.0, 1.0]}]),
    (["HGRayleigh", {"t": 0.3, "ncoefs": 3}], ["LinComb", [["w", ["Isotropic", {}]], ["1 - w", [HG, {"t": "t_s", "ncoefs": 2}]]]]),
    (["Isotropic", {}], ["Isotropic", {}]),
    (["Rayleigh", {}], ["Isotropic", {}]),
    (["Rayleigh", {"a": [-0.6, 0.8, 0.5]}], ["HG_nadirnorm", {"t": "t_s", "ncoefs": 2}]),
]
VAL = dict(
    tau=0.31, omega=0.35, NormBRDF=0.25, bsf=0.15, t_v=0.4, t_s=-0.3, a_s=0.6, w={"arr": [0.3, 0.7]}
)
ANG = dict(t_0=0.5, t_ex=1.0, p_0=0.2, p_ex=2.1)
MASKS = ["".join(x) for x in itertools.product("vf", repeat=4)]
GEOMS = ["mono", "monofix", *MASKS]
OPS = [
    ["calc"],
    ["jac", ["tau", "omega"]],
    ["upd", {"tau": {"arr": [0.2, 0.8]}, "t_v": -0.5, "t_s": 0.6, "w": 0.2, "a_s": 0.9}],
    ["def", "omega", "t_s**2 * 0.3"],
    ["def", "tau", "t_v * 0.2 + q * 0.4"],
    ["flag", "int_Q", False],
    ["flag", "int_Q", True],
    ["flag", "sig0", False],
    ["backend", "sympy"],
    ["backend", "symengine"],
    ["again"],
    ["pickle"],
]
BOUND = {
    "quick": "6 models x 18 geometry settings x {fn, fnevals, both} x pairs of backends, {shared, separate} function objects, "
    "donor {fresh, evaluated} (all 16 combinations for 3 geometry settings, 2 for the others); all pairs of the 24 insertion orders of 4 parameters (both kinds); "
    "all sequences of <= 2 of 12 operations on {receiver, donor} (2 kinds); chains of 3 models",
    "thorough": "as quick with all sequences of 3 operations and all pairs of 120 insertion orders of 5 parameters",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    for mi in range(len(MODELS)):
        for g in GEOMS:
            for how in ("fn", "fnevals", "both"):
                out.append(dict(kind="grid", mi=mi, g=g, how=how, full=full))
    n = 5 if full else 4
    for how in ("fn", "fnevals"):
        for b in ("symengine", "sympy"):
            for o in itertools.permutations(range(n)):
                out.append(dict(kind="order", how=how, b=b, n=n, order=list(o)))
        for g in ("mono", "vfvf"):
            for first in itertools.product(range(2), range(len(OPS))):
                out.append(dict(kind="seq", how=how, g=g, first=list(first), depth=3 if full else 2))
    for h1, h2 in itertools.product(("fn", "fnevals"), repeat=2):
        for mi in range(len(MODELS)):
            for g in ("mono", "vvvv", "ffff"):
                out.append(dict(kind="chain", h1=h1, h2=h2, mi=mi, g=g))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        globals()["run_" + case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def setting(g, k=0):
    ang = {a: v + 0.1 * k for a, v in ANG.items()}
    if g == "mono":
        ops, dyn = [["mono"]], ["t_0", "p_0"]
    elif g == "monofix":
        ops, dyn = [["mono", ANG["p_0"]]], ["t_0"]
    else:
        ops = [["bi", {a: ANG[a] for a, x in zip(m.ANGS, g) if x == "f"}]]
        dyn = [a for a, x in zip(m.ANGS, g) if x == "v"]
    return ops, ([["geom", {a: ang[a] for a in dyn}]] if dyn else [])


def build(V, S, objs, b, g, par, k=0, **kw):
    import rt1_model

    rt1_model.set_lambda_backend(b)
    R = rt1_model.RT1(*objs, dB=False, **kw)
    L = m.Live(None, None, R=R, cfg=m.Cfg(V, S, dB=False), backend=b)
    ops, dyn = setting(g, k)
    for op in ops + dyn:
        L.do(op)
    for p in par:
        L.do(["upd", {p: VAL[p]}])
    return L


def parnames(V, S):
    return ["tau", "omega", "NormBRDF", "bsf", *sorted(sx.params_of(V) | sx.params_of(S))]


def coefs(L, how):
    if how == "both":
        return dict(fn_input=L.R._fn, fnevals_input=L.R._fnevals)
    return dict(fn_input=L.R._fn) if how == "fn" else dict(fnevals_input=L.R._fnevals)


def state(L):
    """what the donor consists of (identity of its coefficients and content of its settings)"""
    R = L.R
    return (
        [str(f) for f in R._fn],
        {k: np.array(v).tolist() for k, v in R.param_dict.items()},
        [np.array(getattr(R, k)).tolist() for k in m.ANGS],
        [R.int_Q, R.sig0, R.dB, R.I0, R._monostatic],
    )


def look(L, r, b=None):
    if b:
        L.backend(b)
    r.obs.add(L.do(["calc"]))
    if L.cfg.int_Q:
        L.do(["interaction"])
    L.do(["jac", ["tau", "NormBRDF"]])
    r.states += 1
    r.transitions += 3


def run_grid(case, r):
    V, S = MODELS[case["mi"]]
    names = parnames(V, S)
    pairs = list(itertools.product(("symengine", "sympy"), repeat=2))
    both = [(0, 1), (1, 0)]
    if not case.get("full") and case["g"] not in ("mono", "vvvv", "ffff"):
        n = GEOMS.index(case["g"]) + case["mi"]
        pairs = [pairs[0], pairs[1 + n % 3]]
        both = [both[n % 2]]
    for b1, b2 in pairs:
        for shared, ev in both:
            o1 = (sx.impl("V", V), sx.impl("S", S))
            o2 = o1 if shared else (sx.impl("V", V), sx.impl("S", S))
            D = build(V, S, o1, b1, case["g"], names)
            if ev:
                look(D, r)
            kw = coefs(D, case["how"])
            before = state(D)
            X = build(V, S, o2, b2, case["g"], names[::-1], k=1, **kw)
            look(X, r)
            # dynamic angles and parameters change
            for op in setting(case["g"], 2)[1] + [["upd", {"tau": 0.7, "t_v": -0.2}]]:
                X.do(op)
            look(X, r)
            if state(D) != before:
                raise m.Violation(f"donor changed from {before} to {state(D)}")
            look(D, r, b1)
            # coefficients are those of the donor
            look(X, r, b1)


def run_order(case, r):
    V, S = MODELS[0]
    pool = ["tau", "t_v", "t_s", "a_s", "omega"][: case["n"]]
    rest = [k for k in parnames(V, S) if k not in pool]
    o = (sx.impl("V", V), sx.impl("S", S))
    D = build(V, S, o, case["b"], "vvvv", rest + [pool[i] for i in case["order"]])
    if sum(case["order"][:2]) % 2:
        look(D, r)
    kw = coefs(D, case["how"])
    for o2 in itertools.permutations(pool):
        X = build(V, S, o, case["b"], "vvvv", [*o2, *rest], k=1, **kw)
        look(X, r)
    look(D, r)


def run_seq(case, r):
    V, S = MODELS[0]
    names = parnames(V, S)
    o = (sx.impl("V", V), sx.impl("S", S))
    for more in hist.sequences(list(itertools.product(range(2), range(len(OPS)))), case["depth"] - 1):
        D = build(V, S, o, "symengine", case["g"], names + ["w"])
        kw = coefs(D, case["how"])
        X = build(V, S, o, "symengine", case["g"], names + ["w"], **kw)
        for L in (D, X):
            L.do(["upd", {"q": 0.6}])
        pair = [X, D]
        try:
            for who, i in (tuple(case["first"]), *more):
                op = OPS[i]
                if op == ["again"]:
                    # select and set the same geometry again
                    ops, dyn = setting(case["g"])
                    for op in ops + dyn:
                        pair[who].do(op)
                else:
                    pair[who].do(op)
                    if op[0] == "backend":
                        pair[1 - who].b = op[1]
                r.transitions += 1
                L = pair[who]
                r.obs.add(L.do(["calc"]))
            for L in pair:
                look(L, r)
        except m.Violation as ex:
            raise m.Violation(f"{[(('receiver', 'donor')[w], OPS[i]) for w, i in (tuple(case['first']), *more)]}: {ex}")
        finally:
            D.backend("symengine")


def run_chain(case, r):
    V, S = MODELS[case["mi"]]
    names = parnames(V, S)
    o = (sx.impl("V", V), sx.impl("S", S))
    A = build(V, S, o, "symengine", case["g"], names)
    B = build(V, S, o, "symengine", case["g"], names, **coefs(A, case["h1"]))
    C = build(V, S, o, "symengine", case["g"], names[::-1], **coefs(B, case["h2"]))
    for order in itertools.permutations((A, B, C)):
        for n, L in enumerate(order):
            L.do(["upd", {"tau": 0.1 + 0.2 * n, "t_s": 0.2 * n - 0.5}])
            look(L, r)
        for L in order:
            look(L, r)
