"""C01: every contribution equals the documented first-order solution.

Every pair of volume and surface functions of the catalogue x geometry modes x backends;
one live model per configuration walks through the complete grid of angles and parameter
values, every element compared with the direct quadrature of the documented equations.
"""
import itertools

import grid
import machine as m
from engine import Result

PROPERTY = "C01"

T = [0.0, 1e-5, 0.3, 0.9, 1.4, 1.55]
PAIRS = [  # bistatic directions (t_0, t_ex, p_0, p_ex)
    [0.0, 0.0, 0.0, 0.0],
    [0.0, 0.8, 0.5, -2.0],
    [0.6, 0.6, 0.3, 0.3],
    [0.6, 0.6, 0.3, 0.3 + grid.PI],
    [0.4, 1.1, 0.0, 1.9],
    [1.3, 0.2, -2.5, 4.0],
    [1.0, 1.45, 7.0, 1.0],
    [0.7, 0.703, 0.2, 2.3],
]
TAU = [0.0, 1e-4, 0.15, 0.9, 4.0, 40.0]
SCALES = [  # omega, NormBRDF, bsf
    [0.3, 0.2, 0.0],
    [1.0, 1.0, 0.35],
    [0.0, 0.7, 0.0],
    [0.6, 0.0, 0.2],
    [0.5, 0.4, 1.0],
]
GEO = ["mono", "monofix", "bi", "bifix", "bipart"]

BOUND = {
    "quick": "all pairs of 13 volume x 13 surface specifications (monostatic, symengine) and, "
    "for the diagonal and neighbouring pairs, all 5 geometry modes x 2 backends (sympy: fixed geometry); 9 pairs with "
    "5-12 coefficients; 6 pairs with symbols that are shared between the functions or with the model parameters; for each: "
    "6 zenith angles (incl. nadir and near-grazing) / 8 bistatic directions x 6 optical depths x 5 scale settings x 2 "
    "symbol assignments (and all symbols zero)",
    "thorough": "all pairs of 18 x 18 specifications, all 5 geometry modes with symengine; sympy "
    "for all pairs of the quick catalogue",
}


def _hg(t, n, **kw):
    return ["HenyeyGreenstein", dict(t=t, ncoefs=n, **kw)]


BIG = [  # many coefficients
    (["HGRayleigh", {"t": 0.4, "ncoefs": 12}], _hg("t_s", 12), ["mono", "monofix", "bifix"]),
    (_hg("t_v", 8), _hg("t_s", 8), ["mono", "monofix", "bifix"]),
    (_hg("t_v", 10), ["CosineLobe", {"i": 5, "ncoefs": 10}], ["mono", "bifix"]),
    (_hg("t_v", 6), _hg("t_s", 6, a=[-0.5, 0.6, 1.0]), GEO),
    (_hg("t_v", 9), ["Isotropic", {}], GEO),
    (["Isotropic", {}], _hg("t_s", 9, a=[-0.5, 1.0, 1.0]), GEO),
    (_hg("t_v", 2, a=[-0.5, 0.5, 1.0]), _hg("t_s", 7), GEO),
    (_hg("t_v", 7), _hg("t_s", 2), GEO),
    (["Rayleigh", {}], ["HG_nadirnorm", {"t": "t_s", "ncoefs": 5}], GEO),
]


def cases(tier):
    out = [
        dict(V=V, S=S, geo=g, backend="symengine") for V, S, geos in BIG for g in geos
    ]
    if tier == "thorough":
        out.insert(0, dict(V=_hg("t_v", 8), S=_hg("t_s", 8), geo="bi", backend="symengine"))
    Vs, Ss = grid.V_specs(tier), grid.S_specs(tier)
    for i, V in enumerate(Vs):
        for j, S in enumerate(Ss):
            geos = ["mono"]
            near = (i - j) % len(Ss) in (0, 1) or (i, j) in ((0, 12), (12, 0))
            if tier == "thorough" or near:
                geos = GEO
            for g in geos:
                out.append(dict(V=V, S=S, geo=g, backend="symengine"))
            small = m.sx.ncoefs("V", V) + m.sx.ncoefs("S", S) <= (6 if tier == "quick" else 7)
            if small and ((i - j) % len(Ss) == 0 or tier == "thorough"):
                for g in ["monofix", "bifix"] if tier == "quick" else GEO:
                    out.append(dict(V=V, S=S, geo=g, backend="sympy"))
    for (V, S), g, b in itertools.product(grid.SHARED, ("mono", "bifix"), ("symengine", "sympy")):
        out.append(dict(V=V, S=S, geo=g, backend=b))
    return out


def run_case(case):
    r = Result()
    geo = case["geo"]
    L = m.Live(case["V"], case["S"], dict(dB=False), case["backend"])
    try:
        if geo == "mono":
            L.do(["mono"])
            geoms = [[["geom", {"t_0": {"arr": T}, "p_0": p}]] for p in (0.0, 1.1)]
        elif geo == "monofix":
            geoms = [
                [["mono", p], ["geom", {"t_0": {"arr": T}}]] for p in (0.0, -2.3)
            ]
        elif geo == "bi":
            geoms = [
                [["bi"], ["geom", {k: {"arr": [p[i] for p in PAIRS]} for i, k in enumerate(m.ANGS)}]]
            ]
        elif geo == "bifix":
            geoms = [[["bi", dict(zip(m.ANGS, p))]] for p in (PAIRS[4], PAIRS[1])]
        else:
            geoms = [
                [
                    ["bi", {"t_ex": 0.7, "p_0": 0.4}],
                    ["geom", {"t_0": {"arr": T}, "p_ex": {"arr": [0.4, 1.0, -2.0, 5.0, 3.4, 0.0]}}],
                ]
            ]
        for ops in geoms:
            for op in ops:
                L.do(op)
                r.transitions += 1
            for sym in (grid.SYM, grid.SYM2, grid.SYM0):
                for sc in SCALES if sym is not grid.SYM0 else SCALES[1:2]:
                    if sym is grid.SYM0 and not need(case):
                        continue
                    # scale factors enter linearly: one optical depth each suffices for
                    # the degenerate ones
                    taus = TAU if sc is SCALES[0] else TAU[2:4]
                    upd = dict(tau={"col": taus}, omega=sc[0], NormBRDF=sc[1], bsf=sc[2])
                    upd.update({k: v for k, v in sym.items() if k in need(case)})
                    r.obs.add(L.do(["calc", upd]))
                    r.states += 1
                    r.transitions += 1
                    r.count(elements=L.cfg.n_elements)
        if geo == "bi":
            # single directions
            L.do(["upd", dict(tau=0.9, omega=0.3, NormBRDF=0.2, bsf=0.1)])
            for p in PAIRS:
                L.do(["geom", dict(zip(m.ANGS, p))])
                r.obs.add(L.do(["calc"]))
                r.transitions += 2
                r.states += 1
        for what in ("surface", "volume", "interaction"):
            L.do([what])
            r.transitions += 1
    except m.Violation as ex:
        r.fail(key(case), f"{case} {ex}")
    finally:
        L.backend("symengine")
    r.traces = 1
    return r


def need(case):
    return (m.sx.params_of(case["V"]) | m.sx.params_of(case["S"])) - set(m.PARAMS)


def key(case):
    return f"{case['V']}|{case['S']}|{case['geo']}|{case['backend']}"
