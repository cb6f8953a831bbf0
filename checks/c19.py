"""C19: the fn-coefficients satisfy their defining identity.

Every pair of volume and surface function of the catalogue and every pair of coefficient
counts x geometry setting x backend: the evaluated coefficients, taken as a polynomial in
the cosine of the intermediate polar angle, are compared with the azimuth integral of the
product of the two (independently projected) truncated expansions at more points than the
polynomial has coefficients, so that agreement means identity of the polynomials.
"""
import itertools
import warnings

import numpy as np

import grid
import machine as m
import refmodel as rm
import specs as sx
from engine import Result

PROPERTY = "C19"
PI = np.pi
HG = "HenyeyGreenstein"
DIRS = np.array(
    [
        [0.0, 0.0, 0.0, 0.0],
        [0.6, 0.6, 0.3, 0.3 + PI],
        [0.4, 1.1, 0.0, 1.9],
        [1.3, 0.2, -2.5, 4.0],
        [1.5, 1.45, 7.0, 1.0],
        [0.0, 0.8, 0.5, -2.0],
    ]
)
MASKS = ["".join(x) for x in itertools.product("vf", repeat=4)]
A = [None, [-0.5, 0.6, 0.9], [0.4, 1.0, -0.7], ["a", 1.0, "0.5 * a"]]
NC = {"quick": [1, 2, 3, 4, 5, 7, 10], "thorough": list(range(1, 13))}
BOUND = {
    "quick": "all 14 x 14 function pairs x {monostatic, bistatic} and, for neighbouring pairs, all 18 settings of fixed and dynamic angles "
    "and both backends; all 7 x 7 pairs of coefficient counts (1-10) x all 4 x 4 pairs of "
    "angle parameters up to a combined count of 8 (2 x 2 beyond); 6 directions x 2 symbol assignments each; "
    "compared at 2N+3 intermediate angles",
    "thorough": "all function pairs x 18 settings x 2 backends (combined coefficient count <= 8 for sympy), all 12 x 12 coefficient counts",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    Vs, Ss = grid.V_specs("quick"), grid.S_specs("quick")
    for (i, V), (j, S) in itertools.product(enumerate(Vs), enumerate(Ss)):
        small = sx.ncoefs("V", V) + sx.ncoefs("S", S) <= (8 if full else 6)
        near = (i - j) % len(Ss) == 0 or full
        geos = ["mono", "monofix"] + MASKS if near else ["mono", "vvvv"]
        for g in geos:
            out.append(dict(V=V, S=S, g=g, b="symengine"))
            if small and (full or (near and g in ("mono", "ffff", "fvvf"))):
                out.append(dict(V=V, S=S, g=g, b="sympy"))
    for n1, n2 in itertools.product(NC[tier], repeat=2):
        for a1, a2 in itertools.product(range(4), repeat=2):
            if n1 + n2 > 8 and (a1 % 3 or a2 % 3 or n1 + n2 > 14):
                if not (a1 == a2 == 0):
                    continue
            V = [HG, dict(t="t_v", ncoefs=n1, **({"a": A[a1]} if a1 else {}))]
            S = [HG, dict(t="t_s", ncoefs=n2, **({"a": A[a2]} if a2 else {}))]
            geos = ["mono", "ffff", "vvvv"] if n1 + n2 <= 6 else ["ffff"]
            for g in geos:
                out.append(dict(V=V, S=S, g=g, b="symengine"))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


SYMS = [dict(grid.SYM, a=0.6), dict(grid.SYM2, a=-1.0)]


def run_case(case):
    import rt1_model

    r = Result()
    r.traces = 1
    rt1_model.set_lambda_backend(case["b"])
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            explore(case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        rt1_model.set_lambda_backend("symengine")
    return r


def explore(case, r):
    import rt1_model

    g = case["g"]
    V, S = sx.ref("V", case["V"]), sx.ref("S", case["S"])
    need = sx.params_of(case["V"]) | sx.params_of(case["S"])
    N = sx.ncoefs("V", case["V"]) + sx.ncoefs("S", case["S"]) - 1
    mu = (np.arange(2 * N + 3) + 0.5) / (2 * N + 3)
    dirs = DIRS
    if g.startswith("mono"):
        dirs = DIRS.copy()
        dirs[:, 1] = dirs[:, 0]
        if g == "monofix":
            dirs[:, 2] = 0.3
        dirs[:, 3] = dirs[:, 2] + PI
    elif g == "ffff":
        dirs = DIRS[[2, 3]]
    elif "f" in g:
        dirs = DIRS.copy()
        for i, x in enumerate(g):
            if x == "f":
                dirs[:, i] = DIRS[2, i]
    R = rt1_model.RT1(sx.impl("V", case["V"]), sx.impl("S", case["S"]), dB=False)
    fixed = [[]]
    if g == "mono":
        R.set_monostatic()
    elif g == "monofix":
        R.set_monostatic(p_0=0.3)
    elif g == "ffff":
        fixed = [[d] for d in dirs]
    else:
        R.set_bistatic(**{k: float(DIRS[2, i]) for i, k in enumerate(m.ANGS) if g[i] == "f"})
    for fx in fixed:
        if fx:
            R.set_bistatic(**dict(zip(m.ANGS, map(float, fx[0]))))
            dirs = np.array(fx)
        for sym in SYMS:
            par = {k: v for k, v in sym.items() if k in need}
            d = dirs.T
            ang = dict(theta_0=d[0], theta_ex=d[1], phi_0=d[2], phi_ex=d[3])
            fn = R._fnevals(**ang, bsf=0.0, **par)
            fn = [np.broadcast_to(np.asarray(f, dtype=float), len(dirs)) for f in fn]
            if len(fn) < N:
                raise m.Violation(f"{len(fn)} coefficients instead of {N}")
            fn = np.array(fn)
            scale = np.max(np.abs(fn))
            if not np.all(np.abs(fn[N:]) <= 1e-10 * scale):
                raise m.Violation(f"coefficients beyond the degree: {fn[N:]}")
            for e, dr in enumerate(dirs):
                got = np.polynomial.polynomial.polyval(mu, fn[:N, e])
                exp = rm.azimuth_product(V, S, tuple(dr), par, mu)
                tol = 1e-9 * np.sum(np.abs(fn[:, e])) + 1e-13
                if not np.all(np.abs(got - exp) <= tol):
                    raise m.Violation(f"directions {dr.tolist()}, {par}: polynomial {got} expected {exp}")
                r.states += 1
                r.transitions += len(mu)
            r.obs.add(m.digest(fn))
