"""C04: both symbolic backends give the same answers.

(a) every assignment of a backend to every step of a workflow (construct, set geometry,
    set parameters, evaluate, derive, redefine, switch geometry, evaluate) - 2**8 per model
(b) scattering-function values for all functions x all broadcastable input shapes x both
    backends
(c) rejection of unknown backend names between the steps
"""
import itertools

import numpy as np

import grid
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C04"

MODELS = [
    (["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}],
     ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 1.0, 0.6]}]),
    (["Isotropic", {}], ["Isotropic", {}]),
    (["Rayleigh", {}], ["CosineLobe", {"i": 3, "ncoefs": 2, "a": [0.5, 1.0, 1.0]}]),
    (["LinComb", [["w_v", ["Isotropic", {}]], ["1 - w_v", ["HGRayleigh", {"t": 0.2, "ncoefs": 2}]]]],
     ["HG_nadirnorm", {"t": "t_s", "ncoefs": 2}]),
]
STEPS = 8
BAD = ["", "Sympy", "symengin", "numpy", None, 3, ["sympy"]]
SHAPES = ["s", "1", "2", "col", "grid"]
ARGS = 5  # t_0, t_ex, p_0, p_ex, params

BOUND = {
    "quick": "all 2**8 assignments of backends to the steps of the workflow for 4 models; "
    "28 scattering functions x all 5**3 combinations of input shapes (t_0, p_ex, "
    "parameters) x 2 backends; 7 invalid names at every step",
    "thorough": "as quick, for all 13 diagonal pairs of the catalogue and all 5**5 shape "
    "combinations",
}


def cases(tier):
    out = []
    models = list(MODELS)
    if tier == "thorough":
        models += [
            (v, s)
            for v, s in zip(grid.V_specs(), grid.S_specs())
            if sx.ncoefs("V", v) + sx.ncoefs("S", s) <= 6
        ]
    for V, S in models:
        for bs in itertools.product((0, 1), repeat=STEPS):
            out.append(dict(kind="flow", V=V, S=S, bs=list(bs)))
    for b in BAD:
        for i in range(STEPS):
            out.append(dict(kind="flow", V=MODELS[0][0], S=MODELS[0][1], bs=[i % 2] * STEPS, bad=[i, b]))
    for side, sp in [("V", s) for s in grid.V_specs()] + [("S", s) for s in grid.S_specs()]:
        out.append(dict(kind="calc", side=side, spec=sp, full=tier == "thorough"))
    return out


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        if case["kind"] == "flow":
            flow(case, r)
        else:
            calc(case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{case}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def key(case):
    return str(case)[:200]


def flow(case, r):
    import rt1_model as rt1

    V, S = case["V"], case["S"]
    names = sorted(sx.params_of(V) | sx.params_of(S))
    B = ["symengine", "sympy"]
    par = dict(tau={"col": [0.0, 0.4]}, omega=0.3, NormBRDF=0.2, **{k: 0.3 for k in names})
    keys = ["tau", "omega", "NormBRDF", "bsf", *names]
    steps = [
        None,
        [["geom", {"t_0": {"arr": [0.3, 0.6, 1.0]}, "p_0": 0.2}]],
        [["upd", par]],
        [["calc"], ["value", "tau"]],
        [["jac", keys]],
        [["def", "tau", "k * 2"], ["def", "NormBRDF", "k + 0.1"], ["upd", {"k": {"arr": [0.2, 0.1, 0.4]}}]],
        [["calc"], ["jac", keys + ["k"]], ["value", "tau"]],
        [["bi", {"t_ex": 0.8, "p_0": 0.1, "p_ex": 1.0}], ["calc"], ["interaction"], ["jac", keys + ["k"]]],
    ]
    L = None
    for i, (st, b) in enumerate(zip(steps, case["bs"])):
        rt1.set_lambda_backend(B[b])
        if case.get("bad") and case["bad"][0] == i:
            try:
                rt1.set_lambda_backend(case["bad"][1])
            except Exception:
                pass
            else:
                raise m.Violation(f"backend {case['bad'][1]!r} was not rejected")
        if rt1.get_lambda_backend() != B[b]:
            raise m.Violation(f"active backend {rt1.get_lambda_backend()!r} instead of {B[b]!r}")
        if st is None:
            L = m.Live(V, S, dict(dB=False), B[b])
            continue
        for op in st:
            r.obs.add(str(L.do(op)))
            r.transitions += 1
        r.states += 1


VAL = {
    "t_0": {"s": 0.3, "1": [0.3], "2": [0.2, 0.9], "col": [[0.1], [0.5], [1.2]],
            "grid": [[0.1, 0.2], [0.5, 0.6], [1.2, 1.3]]},
    "p_ex": {"s": 2.0, "1": [2.0], "2": [1.0, -4.0], "col": [[0.1], [0.5], [1.2]],
             "grid": [[0.1, 2.2], [3.5, -0.6], [1.2, 5.3]]},
    "par": {"s": 0.4, "1": [0.4], "2": [0.2, 0.5], "col": [[0.1], [0.5], [0.3]],
            "grid": [[0.1, 0.2], [0.3, 0.6], [0.2, 0.33]]},
}
VAL["t_ex"], VAL["p_0"] = VAL["t_0"], VAL["p_ex"]


def calc(case, r):
    import rt1_model as rt1

    side, spec = case["side"], case["spec"]
    f = sx.ref(side, spec)
    names = sorted(sx.params_of(spec))
    objs = {}
    for b in ("symengine", "sympy"):
        rt1.set_lambda_backend(b)
        objs[b] = sx.impl(side, spec)
    for combo in itertools.product(SHAPES, repeat=5 if case["full"] else 3):
        s0, sx_, sp = combo[:3]
        s1, s2 = combo[3:] if case["full"] else ("s", "1")
        raw = [VAL["t_0"][s0], VAL["t_ex"][s1], VAL["p_0"][s2], VAL["p_ex"][sx_]]
        args = [np.asarray(v, dtype=float) if not np.isscalar(v) else v for v in raw]
        pv = VAL["par"][sp]
        pv = np.asarray(pv, dtype=float) if not np.isscalar(pv) else pv
        params = {n: pv for n in names}
        used = [*args, *params.values()]
        shape = np.broadcast_shapes(*map(np.shape, used))
        ref = np.empty(shape)
        with np.errstate(all="ignore"):
            bargs = [np.broadcast_to(a, shape) for a in args]
            bp = {n: np.broadcast_to(p, shape) for n, p in params.items()}
            for idx in np.ndindex(*shape):
                ref[idx] = f.value(
                    *(float(a[idx]) for a in bargs), {n: float(p[idx]) for n, p in bp.items()}
                )
        for b in ("symengine", "sympy"):
            rt1.set_lambda_backend(b)
            got = objs[b].calc(*args, param_dict=params)
            if np.shape(got) != shape:
                raise m.Violation(f"{b} {combo}: shape {np.shape(got)} instead of {shape}")
            if not m.same(got, ref, rtol=1e-9, atol=1e-13):
                raise m.Violation(f"{b} {combo}: {m.fmt(got)} instead of {m.fmt(ref)}")
            r.transitions += 1
        r.states += 1
        r.obs.add(m.digest(ref))
