"""C02: results depend only on the current configuration, not on the call history.

All operation sequences up to the depth bound over the alphabet below, from several
starting configurations; after every operation (mode "each") or only at the end (mode
"end", so that lazily built parts are missing in between) all outputs are compared with
the stateless reference model of the current configuration.
"""
import itertools

import hist

PROPERTY = "C02"

V_HG = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
V_HG2 = ["HenyeyGreenstein", {"t": 0.3, "ncoefs": 3}]
V_RAY = ["Rayleigh", {}]
V_LIN = ["LinComb", [["w", V_RAY], [0.4, ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]]]]
S_HG = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 1.0, 0.6]}]
S_COS = ["CosineLobe", {"i": 2, "ncoefs": 2, "a": [0.6, 1.0, 1.0]}]
S_ISO = ["Isotropic", {}]

GEO = [
    ["mono"],
    ["mono", 0.3],
    ["bi"],
    ["bi", {"p_0": 0.2, "p_ex": 2.1}],
    ["bi", {"t_0": 0.4, "t_ex": 0.9, "p_0": 0.2, "p_ex": 2.1}],
    ["bi", {"t_0": 0.4}],
    ["geom", {"t_0": 0.35}],
    ["geom", {"t_0": {"arr": [0.3, 0.6, 1.1]}}],
    ["geom", {"p_0": 1.2}],
    ["geom", {"t_0": 0.5, "p_0": 0.1, "t_ex": 0.8, "p_ex": 1.4}],
    ["geom", {"t_ex": {"arr": [0.3, 0.6, 1.1]}, "p_ex": -0.5}],
]
PAR = [
    ["upd", {"tau": 0.7}],
    ["upd", {"omega": 0.45, "NormBRDF": 0.2}],
    ["upd", {"tau": {"col": [0.1, 0.9]}}],
    ["upd", {"t_v": 0.5}],
    ["upd", {"t_s": -0.3, "k": 0.2}],
    ["upd", {"bsf": 0.25}],
    ["upd", {"k": 0.6, "w": 0.3, "aa": 1.1}],
]
DEF = [
    ["def", "tau", "k * 2"],
    ["def", "tau", "tau"],
    ["def", "tau", 0.5],
    ["def", "omega", "k * w"],
    ["def", "NormBRDF", "tau * 0.3"],
    ["def", "bsf", 0.15],
]
FLAG = [
    ["flag", "int_Q", False],
    ["flag", "int_Q", True],
    ["flag", "sig0", False],
    ["flag", "dB", False],
    ["flag", "I0", 2.5],
    ["backend", "sympy"],
    ["backend", "symengine"],
]
OBJ = [["setV", V_HG2], ["setV", V_LIN], ["setS", S_COS], ["setS", S_ISO]]
OBS = [
    ["calc"],
    ["calc", {"tau": 0.33, "omega": 0.21}],
    ["jac", ["tau", "t_v"]],
    ["interaction"],
]
ALPHA = GEO + PAR + DEF + FLAG + OBJ + OBS
COMPLETE = ["upd", {"tau": 0.25, "omega": 0.3, "NormBRDF": 0.1, "t_v": 0.2, "t_s": 0.4, "w": 0.6, "k": 0.3}]
BASES = {
    "mono": [["geom", {"t_0": 0.6, "p_0": 0.0}], COMPLETE],
    "bi": [["bi", {"t_0": 0.7, "p_0": 0.3}], ["geom", {"t_ex": 0.5, "p_ex": 2.0}], COMPLETE],
}

# values of one input that are easily confused (for all ordered pairs of them)
CONF = [
    [0.3, 0.6, 0.9], [0.6, 0.3, 0.9], [0.9, 0.6, 0.3], [0.4, 0.5, 0.9], [0.3, 0.61, 0.89], [0.6, 0.6, 0.6],
    [0.30001, 0.6, 0.9], [0.3, 0.6], [[0.3, 0.6, 0.9]], [[0.3], [0.6], [0.9]], [0.3, 0.6, 0.9, 0.3], 0.6, [0.6], -0.6,
]
INPUTS = ["t_0", "p_0", "t_ex", "p_ex", "tau", "omega", "NormBRDF", "bsf", "t_v", "t_s"]

LONG = 40
SETUP = dict(mono=dict(t_0=0.5, p_0=0.2), bi=dict(t_0=0.5, p_0=0.2, t_ex=0.8, p_ex=1.3))
CYCLES = [
    [OBJ[0], OBJ[1]], [OBJ[2], OBJ[3]], [DEF[0], DEF[2]], [FLAG[0], FLAG[1]], [FLAG[5], FLAG[6]],
    [GEO[0], GEO[9], GEO[2], GEO[9]], [["flag", "I0", 2.5], ["flag", "I0", 1.0]], [OBS[1], PAR[0]],
]

BOUND = {
    "quick": f"{LONG} successive values of each of the inputs, in steps of 4e-3 and of 3e-9 (compared with new models to 1e-11); "
    f"{len(CYCLES)} cycles of replaced functions, definitions, flags and backends that are repeated {LONG // 2} times; "
    f"all ordered pairs of {len(CONF)} confusable values (permutations, same sums, other shapes, minute changes) of each of "
    f"{len(INPUTS)} inputs in bistatic and monostatic geometry; "
    f"all sequences of length <= 2 over {len(ALPHA)} operations (geometry, "
    "parameters, definitions, flags, backends, replaced functions, evaluations), observed "
    "after every operation (from a monostatic model) and only at the end (from "
    "a bistatic model with fixed angles), plus every single operation from an unspecified "
    "model; ncoefs <= 3, arrays of <= 3 elements",
    "thorough": f"as quick, with both bases and modes, and all sequences of length 3",
}


def _hist(base, mode, ops):
    return dict(V=V_HG, S=S_HG, flags=dict(dB=True), backend="symengine",
                pre=BASES.get(base, []), ops=list(ops), mode=mode)


def cases(tier):
    out = []
    for g, k in itertools.product(("mono", "bi"), INPUTS):
        if g == "bi" or k not in ("t_ex", "p_ex"):
            for i in range(len(CONF)):
                out.append(dict(conf=i, g=g, k=k))
                for step in (4e-3, 3e-9):
                    out.append(dict(long=step, g=g, k=k)) if i == 0 else None
    for c in CYCLES:
        out.append(_hist("mono", "each", [o for o in c * (LONG // 2)]))
    d = 2
    for seq in hist.sequences(ALPHA, d):
        out.append(_hist("mono", "each", seq))
        out.append(_hist("bi", "end", seq))
        if tier == "thorough":
            out.append(_hist("bi", "each", seq))
            out.append(_hist("mono", "end", seq))
    for op in ALPHA:
        out.append(_hist(None, "each", [op]))
        out.append(dict(_hist("mono", "each", [op, ["backend", "symengine"], op]), backend="sympy"))
    if tier == "thorough":
        for seq in itertools.product(ALPHA, repeat=3):
            out.append(_hist("mono", "each", seq))
    return out


def run_conf(case):
    r = hist.Result()
    r.traces = 1
    L = hist.m.Live(V_HG, S_HG, dict(dB=False))
    enc = lambda v: v if not isinstance(v, list) else {"arr": v}
    k = case["k"]
    vals = [v for v in CONF if not (isinstance(v, float) and v < 0) or k[0] == "p" or k[:2] == "t_" and k[2] in "vs"]
    if case["conf"] >= len(vals):
        return r

    def put(v):
        op = ["geom", {k: enc(v)}] if k in hist.m.ANGS else ["upd", {k: enc(v)}]
        L.do(op)
        L.do(["calc"])
        L.do(["jac", ["tau", "t_v", "t_s"]])
        r.transitions += 3
        r.states += 1

    try:
        L.do([case["g"]])
        L.do(["geom", dict(t_0=0.5, p_0=0.2) if case["g"] == "mono" else dict(t_0=0.5, p_0=0.2, t_ex=0.8, p_ex=1.3)])
        L.do(COMPLETE)
        for v in vals:
            put(vals[case["conf"]])
            put(v)
            r.obs.add(L.do(["interaction"]))
    except hist.m.Violation as ex:
        r.fail(f"{case['g']}|{k}|{case['conf']}", f"{case}: {ex} after {L.trace[-7:-1]}")
    return r


def run_long(case):
    """many successive (almost equal) values of one input, compared with new models"""
    import warnings

    import numpy as np
    from rt1_model import RT1

    warnings.simplefilter("ignore")
    r = hist.Result()
    r.traces = 1
    k, g = case["k"], case["g"]
    geo, par = dict(SETUP[g]), {n: v for n, v in COMPLETE[1].items() if n not in ("w", "k")}

    def new(int_Q):
        R = RT1(hist.m.sx.impl("V", V_HG), hist.m.sx.impl("S", S_HG), dB=False, int_Q=int_Q)
        R.set_monostatic() if g == "mono" else R.set_bistatic()
        R.set_geometry(**geo)
        R.update_params(**par)
        return R

    R = new(True)
    for i in range(LONG):
        v = 0.4 + i * case["long"]
        (geo if k in geo else par)[k] = v
        R.set_geometry(**{k: v}) if k in geo else R.update_params(**{k: v})
        full = i % 13 == 12
        Q = new(full)
        val, exp = np.asarray(R.calc()), np.asarray(Q.calc())
        if not full:
            val, exp = val[1:3], exp[1:3]
        jac = [np.asarray(m.jacobian(["tau", "t_v", "t_s"])) for m in (R, Q)]
        r.transitions += 3
        r.states += 1
        r.obs.add(hist.m.digest(val))
        for what, a, b in (("result", val, exp), ("jacobian", *jac)):
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-11, atol=1e-14 * np.max(np.abs(b))):
                r.fail(f"{g}|{k}|{case['long']}|{what}", f"{case}: {what} after {i + 1} values of {k}: {hist.m.fmt(a)}, new model: {hist.m.fmt(b)}")
                return r
    return r


def run_case(case):
    if "long" in case:
        return run_long(case)
    if "conf" in case:
        return run_conf(case)
    return hist.run_history(case)
