"""C03: fixed angles and monostatic mode never change results.

All 18 geometry settings (16 masks of fixed angles in bistatic mode, monostatic with a
dynamic and a fixed azimuth) that describe the same pair of directions, and all ordered
pairs of them visited one after the other on one live model, from evaluated and
un-evaluated states.  The results of all of them have to agree with each other and with
the reference model.
"""
import itertools

import numpy as np

import machine as m
from engine import Result

PROPERTY = "C03"
PI = np.pi

MODELS = [
    (["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}],
     ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 1.0, 0.6]}]),
    (["HGRayleigh", {"t": 0.3, "ncoefs": 3, "a": [-0.7, 0.6, 0.8]}],
     ["LinComb", [[0.4, ["Isotropic", {}]], [0.6, ["CosineLobe", {"i": 2, "ncoefs": 2, "a": [0.5, 1.0, 0.3]}]]]]),
    (["Rayleigh", {}], ["HenyeyGreenstein", {"t": -0.4, "ncoefs": 3}]),
]
# (t_0, t_ex, p_0, p_ex); the first three are monostatic
DIRS = [
    [0.6, 0.6, 0.3, 0.3 + PI],
    [0.0, 0.0, 0.0, PI],
    [1.2, 1.2, -0.8, -0.8 + PI],
    [0.4, 1.1, 0.9, -1.3],
    [1.3, 0.2, 0.0, 2.0],
    [0.7, 0.7, 1.0, 1.0],
]
MASKS = ["".join(x) for x in itertools.product("vf", repeat=4)]
MONO = ["mono", "monofix"]

BOUND = {
    "quick": "3 models x 6 direction pairs x all 18 settings, all ordered pairs of settings "
    "on one live model (3 directions, 1 model), dynamic angles given as arrays of 2 "
    "directions or numbers; both backends",
    "thorough": "all ordered pairs of settings for all 3 models and 6 directions, all "
    "triples of settings for one model and direction, both backends",
}


def settings(d):
    return MASKS + (MONO if d < 3 else [])


def cases(tier):
    out = []
    for mi in range(len(MODELS)):
        for d in range(len(DIRS)):
            for s in settings(d):
                for arr in (0, 1):
                    out.append(dict(m=mi, seq=[[s, d]], arr=arr, backend="symengine"))
                if tier == "thorough" or (mi == 0 and s in ("vvvv", "ffff", "vvff", "vfvf", "mono", "monofix")):
                    out.append(dict(m=mi, seq=[[s, d]], arr=1, backend="sympy"))
    for mi in range(len(MODELS)) if tier == "thorough" else (0,):
        for d in range(len(DIRS)) if tier == "thorough" else (0, 3):
            for s1, s2 in itertools.product(settings(d), repeat=2):
                for d2 in (d, (d + 2) % len(DIRS)):
                    if s2 not in settings(d2):
                        continue
                    out.append(dict(m=mi, seq=[[s1, d], [s2, d2]], arr=0, backend="symengine"))
    if tier == "thorough":
        for s in itertools.product(settings(0), repeat=3):
            out.append(dict(m=0, seq=[[x, 0] for x in s], arr=0, backend="symengine"))
    return out


def setting_ops(s, d, arr):
    ang = dict(zip(m.ANGS, DIRS[d]))
    if s == "mono":
        ops, dyn = [["mono"]], ["t_0", "p_0"]
    elif s == "monofix":
        ops, dyn = [["mono", ang["p_0"]]], ["t_0"]
    else:
        ops = [["bi", {k: ang[k] for k, x in zip(m.ANGS, s) if x == "f"}]]
        dyn = [k for k, x in zip(m.ANGS, s) if x == "v"]
    if dyn:
        g = {}
        for k in dyn:
            # the second element is a different direction in the dynamic angles
            g[k] = {"arr": [ang[k], ang[k] * 0.5 + 0.1]} if arr else ang[k]
        ops.append(["geom", g])
    return ops


def run_case(case):
    r = Result()
    V, S = MODELS[case["m"]]
    L = m.Live(V, S, dict(dB=False, sig0=False, I0=2.0), case["backend"])
    names = m.sx.params_of(V) | m.sx.params_of(S)
    first = {}
    try:
        L.do(["upd", dict(tau=0.4, omega=0.3, NormBRDF=0.2, bsf=0.1, **{k: 0.3 for k in names})])
        for s, d in case["seq"]:
            for op in setting_ops(s, d, case["arr"]):
                L.do(op)
                r.transitions += 1
            r.obs.add(L.do(["calc"]))
            L.do(["jac", ["tau", "omega", "NormBRDF", "bsf", *sorted(names)]])
            r.states += 1
            r.transitions += 2
            val = np.asarray(L.R.calc())[:, 0]
            # agreement with every other setting of the same directions
            ref = first.setdefault(d, val)
            if not m.same(val, ref, rtol=1e-7, atol=1e-14):
                raise m.Violation(f"{s} gives {val}, another setting gave {ref}")
    except m.Violation as ex:
        r.fail(f"{case['m']}|{case['seq']}|{case['arr']}|{case['backend']}", f"{case}: {ex}")
    finally:
        L.backend("symengine")
    r.traces = 1
    return r
