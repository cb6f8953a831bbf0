"""C10: linear combinations are the weighted sum of their parts.

All sequences (with repetition and order) of up to 3 parts out of 6 per side x weight
assignments; values, expansions and model results are compared with the weighted sums of
the parts; parts and the input list must not change.
"""
import itertools

import numpy as np

import machine as m
import specs as sx
from engine import Result

PROPERTY = "C10"

PARTS = {
    "V": [
        ["Isotropic", {}],
        ["Rayleigh", {}],
        ["HenyeyGreenstein", {"t": "t1", "ncoefs": 2}],
        ["HenyeyGreenstein", {"t": 0.5, "ncoefs": 4, "a": [-0.5, 0.7, 1.0]}],
        ["HGRayleigh", {"t": "t2", "ncoefs": 1, "a": [-0.5, 0.7, 1.0]}],
        ["Rayleigh", {"a": ["a1", 1.0, 0.5]}],
    ],
    "S": [
        ["Isotropic", {}],
        ["HenyeyGreenstein", {"t": "t1", "ncoefs": 2}],
        ["CosineLobe", {"i": 2, "ncoefs": 4}],
        ["HenyeyGreenstein", {"t": 0.5, "ncoefs": 3, "a": [-0.5, 0.7, 1.0]}],
        ["HG_nadirnorm", {"t": "t2", "ncoefs": 1, "a": [-0.5, 0.7, 1.0]}],
        ["CosineLobe", {"i": 3, "ncoefs": 2, "a": ["a1", 1.0, 0.5]}],
    ],
}
W = [0.3, "w", "1 - w", -0.2, 1, 0.0]
PV = dict(t1=0.35, t2=-0.4, a1=0.6, w=0.7)
DIRS = np.array(
    [[0.0, 0.0, 0.0, 0.0], [0.4, 0.9, 0.3, 1.8], [1.2, 0.3, -2.0, 4.0], [2.5, 1.1, 0.0, 1.0]]
).T

BOUND = {
    "quick": "all 6 + 36 + 216 sequences of parts per side; all 6**k weights for k<=2 (expansions), 2 "
    "weight patterns for k=3; model results (interaction incl.) in monostatic geometry for "
    "one weight pattern each; nested combinations (values)",
    "thorough": "all weights out of 6 for k<=2 and 3**3 for k=3, model results for all of them in "
    "both backends and bistatic geometry; 4 parts (values)",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    for side in "VS":
        P = range(len(PARTS[side]))
        for k in (1, 2, 3):
            for seq in itertools.product(P, repeat=k):
                if full:
                    ws = list(itertools.product(range(6) if k < 3 else range(3), repeat=k))
                elif k < 3:
                    ws = list(itertools.product(range(6), repeat=k))
                else:
                    ws = [(0, 1, 2), (1, 0, 3)]
                out.append(dict(side=side, seq=list(seq), ws=[list(x) for x in ws], full=full))
        if full:
            for seq in itertools.product(P, repeat=4):
                out.append(dict(side=side, seq=list(seq), ws=[[0, 1, 2, 3]], full=False))
    return out


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        explore(case, r)
    except m.Violation as ex:
        r.fail(f"{case['side']}|{case['seq']}", f"{case['side']} {case['seq']}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def snapshot(objs):
    return [
        (str(o.phase_function), str(o.legendre_coefficients), list(map(str, o.a)), o.ncoefs)
        for o in objs
    ]


def explore(case, r):
    import sympy as sp

    from rt1_model import surface, volume

    side = case["side"]
    mod = volume if side == "V" else surface
    specs = [PARTS[side][i] for i in case["seq"]]
    refs = [sx.ref(side, s) for s in specs]
    # the same part specification shares one object
    pool = {}
    objs = [pool.setdefault(i, sx.impl(side, s)) for i, s in zip(case["seq"], specs)]
    before = snapshot(objs)
    angs = [sp.Symbol(x) for x in ("xx_0", "xx_ex", "xp_0", "xp_ex")]
    for nw, wi in enumerate(case["ws"]):
        ws = [W[i] for i in wi]
        spec = ["LinComb", [[w, s] for w, s in zip(ws, specs)]]
        choices = list(zip(ws, objs))
        kept = list(choices)
        comb = mod.LinComb(choices)
        names = sorted(sx.params_of(spec))
        params = {k: PV[k] for k in names}
        wv = [sx.expr(w)(PV) if isinstance(w, str) else w for w in ws]
        ref = sx.ref(side, spec)
        if comb.ncoefs != ref.ncoefs:
            raise m.Violation(f"ncoefs {comb.ncoefs} instead of {ref.ncoefs}")
        # value: weighted sum of the reference, and of the parts of the implementation
        exp = sum(w * np.array([f.value(*d, PV) for d in DIRS.T]) for w, f in zip(wv, refs))
        got = np.broadcast_to(comb.calc(*DIRS, param_dict=params), exp.shape)
        if not m.same(got, exp, rtol=1e-9, atol=1e-12):
            raise m.Violation(f"value {ws}: {got} instead of {exp}")
        part = sum(
            w * o.calc(*DIRS, param_dict={k: PV[k] for k in sx.params_of(s)})
            for w, o, s in zip(wv, objs, specs)
        )
        if not m.same(got, part, rtol=1e-9, atol=1e-12):
            raise m.Violation(f"value {ws}: {got}, parts {part}")
        r.transitions += 2
        # expansion
        if len(ws) < 3 or nw == 0:
            e = comb.legendre_expansion(*angs).doit()
            f = sp.lambdify(angs + [sp.Symbol(k) for k in names], e)
            got = np.broadcast_to(
                np.asarray(f(*DIRS, *(params[k] for k in names)), dtype=float), exp.shape
            )
            exp = np.array(
                [np.squeeze(ref.expansion(*(np.array([x]) for x in d), PV)) for d in DIRS.T]
            )
            if not m.same(got, exp, rtol=1e-7, atol=1e-9):
                raise m.Violation(f"expansion {ws}: {got} instead of {exp}")
            r.transitions += 1
        # model
        if nw == (3 if len(ws) < 3 else 0) or case["full"]:
            other = ["HenyeyGreenstein", {"t": 0.3, "ncoefs": 2}]
            V, S = (spec, other) if side == "V" else (other, spec)
            for b in ("symengine", "sympy") if case["full"] and len(ws) < 3 and nw == 0 else ("symengine",):
                L = m.Live(V, S, dict(dB=False), b, objs=(
                    (comb, sx.impl("S", other)) if side == "V" else (sx.impl("V", other), comb)
                ))
                geo = [["mono", 0.0], ["geom", {"t_0": {"arr": [0.2, 0.9]}}]]
                if case["full"] and nw % 2:
                    geo = [["bi", dict(t_0=0.3, t_ex=0.9, p_0=0.2, p_ex=1.4)]]
                for op in geo:
                    L.do(op)
                r.obs.add(L.do(["calc", dict(tau=0.3, omega=0.2, NormBRDF=0.3, **params)]))
                L.do(["jac", ["tau", "omega", *names]])
                L.backend("symengine")
                r.transitions += 3
        r.states += 1
        if len(choices) != len(kept) or any(a is not b for a, b in zip(choices, kept)):
            raise m.Violation("the list of choices was changed")
        # values of combinations of combinations
        if len(ws) == 2 and nw == 0:
            nested = mod.LinComb([("u", comb), (0.25, objs[0])])
            exp2 = 0.6 * part + 0.25 * objs[0].calc(*DIRS, param_dict={k: PV[k] for k in sx.params_of(specs[0])})
            got = nested.calc(*DIRS, param_dict=dict(params, u=0.6))
            if not m.same(got, exp2, rtol=1e-9, atol=1e-12):
                raise m.Violation(f"nested value {got} instead of {exp2}")
    if snapshot(objs) != before:
        raise m.Violation("the parts were changed")
