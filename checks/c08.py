"""C08: Legendre expansions are the truncated expansions of the functions.

Every function x coefficient count x angle parameters; the symbolic expansion returned by
the implementation is evaluated for all parameter values and directions and compared with
the expansion whose coefficients are obtained by numerical projection of the closed form;
so are the coefficients one by one and the function itself.
"""
import itertools

import numpy as np

import machine as m
import refmodel as rm
import specs as sx
from engine import Result

PROPERTY = "C08"
PI = np.pi

A = {
    "V": [None, [-0.4, 0.7, 0.9], [0.3, 1.0, -0.5], ["a_v", 1.0, "a_v * 0.5"], [-1.0, "a_v", "b_v"]],
    "S": [None, [-0.4, 0.7, 0.9], [0.3, 1.0, -0.5], ["a_v", 1.0, "a_v * 0.5"], [1.0, "a_v", "b_v"]],
}
T = [-0.9, -0.5, -0.1, 0.0, 1e-6, 0.2, 0.6, 0.9]
DIRS = np.array(
    [
        [0.0, 0.0, 0.0, 0.0],
        [0.4, 0.9, 0.3, 1.8],
        [1.2, 0.3, -2.0, 4.0],
        [1.5, 1.4, 0.0, PI],
        [0.7, 0.7, 1.0, 1.0],
        [2.4, 1.0, 0.2, 6.0],
        [PI / 2, PI / 2, 0.0, 0.0],
    ]
).T
PV = [dict(a_v=0.6, b_v=-0.3), dict(a_v=-1.0, b_v=1.0)]

BOUND = {
    "quick": "all 8 function classes x coefficient counts 1-8, 10, 12 (16, 20, 24, 30 for the default angle parameters) x 5 angle-parameter sets "
    "(2 of them symbolic) x 8 asymmetries as symbol (3 as number and expression) / 7 "
    "lobe powers x 7 directions x 2 symbol values; single coefficients up to order 15",
    "thorough": "coefficient counts 1-20, 19 asymmetries, lobe powers 0-12",
}


def cases(tier):
    full = tier == "thorough"
    ncs = range(1, 21) if full else [1, 2, 3, 4, 5, 6, 7, 8, 10, 12]
    out = []
    for side in "VS":
        for a in A[side]:
            kw = {} if a is None else {"a": a}
            out.append([side, ["Isotropic", dict(kw)]])
            if side == "V":
                out.append([side, ["Rayleigh", dict(kw)]])
            out.append([side, ["Isotropic", dict(kw, ncoefs=4)]])
            for nc in [*ncs, *((16, 20, 24, 30) if a is None else ())]:
                names = ["HenyeyGreenstein"] + (["HGRayleigh"] if side == "V" else ["HG_nadirnorm"])
                for cls in names:
                    out.append([side, [cls, dict(kw, t="t", ncoefs=nc)]])
                    if nc in (1, 3, 6):
                        for t in (0.4, 0.0, -0.7, "t * 0.5", "1 - x"):
                            out.append([side, [cls, dict(kw, t=t, ncoefs=nc)]])
                if side == "S":
                    for i in range(13 if full else 7):
                        if nc > 8 and i not in (0, 1, 5):
                            continue
                        out.append([side, ["CosineLobe", dict(kw, i=i, ncoefs=nc)]])
    out += [["S", ["HenyeyGreenstein", dict(t="n", ncoefs=3)]]]
    return [dict(side=s, spec=sp, t=(list(np.linspace(-0.9, 0.9, 19)) if full else T)) for s, sp in out]


def key(case):
    return f"{case['side']}|{case['spec']}"


def run_case(case):
    import sympy as sp

    r = Result()
    r.traces = 1
    side, spec = case["side"], case["spec"]
    obj, ref = sx.impl(side, spec), sx.ref(side, spec)
    names = sorted(sx.params_of(spec))
    try:
        if spec[0] in ("Isotropic", "Rayleigh"):
            if obj.ncoefs != ref.ncoefs:
                raise m.Violation(f"ncoefs {obj.ncoefs}")
        elif obj.ncoefs != spec[1]["ncoefs"]:
            raise m.Violation(f"ncoefs {obj.ncoefs}")
        angs = [sp.Symbol(i) for i in ("xx_0", "xx_ex", "xp_0", "xp_ex")]
        expansion = obj.legendre_expansion(*angs).doit()
        syms = [sp.Symbol(n) for n in names]
        f = sp.lambdify(angs + syms, expansion, modules=["numpy", "sympy"])
        n = sp.Symbol("n")
        coefs = []
        for k in range(max(ref.ncoefs, 6 if "a" in spec[1] else 15)):
            c = sp.sympify(obj.legendre_coefficients).subs(n, k)
            coefs.append(sp.lambdify(syms, c, modules=["numpy", "sympy"]))
        ts = case["t"] if "t" in names else [None]
        for t, pv in itertools.product(ts, PV):
            params = {k: pv.get(k, 0.3) for k in names}
            if t is not None:
                params["t"] = t
            if "x" in params:
                params["x"] = 0.8 if pv is PV[0] else 1.4
            if "n" in params:
                params["n"] = 0.35
            p = [params[k] for k in names]
            got = np.broadcast_to(np.asarray(f(*DIRS, *p), dtype=float), DIRS.shape[1:])
            exp = np.array(
                [
                    float(np.squeeze(ref.expansion(*(np.array([x]) for x in d), params)))
                    for d in DIRS.T
                ]
            )
            compare("expansion", got, exp, params, ref.ncoefs)
            # the coefficients one by one
            av = ref.angs_a(params)
            tv = ref._v(ref.t, params)
            rc = rm.legendre_coefs(ref.kd, len(coefs), tv, ref.i, av)
            gc = np.array([float(c(*p)) for c in coefs])
            compare("coefficients", gc, rc, params)
            # the function itself
            got = obj.calc(*DIRS, param_dict={k: np.array([v]) for k, v in params.items()})
            exp = np.array([float(ref.value(*d, params)) for d in DIRS.T])
            # (functions with a kink at 0 have no defined value there)
            ok = np.ones(len(exp), dtype=bool)
            if ref.kd == "s_cos":
                ok = np.abs([rm.cos_angle(*d, av) for d in DIRS.T]) > 1e-9
            compare("function", got[ok], exp[ok], params)
            r.states += 1
            r.transitions += 3
            r.obs.add(m.digest(exp))
        # numeric directions
        d = DIRS[:, 1]
        e = obj.legendre_expansion(*map(float, d)).doit()
        got = float(e.subs({s: v for s, v in zip(syms, p)}))
        exp = float(np.squeeze(ref.expansion(*(np.array([x]) for x in d), params)))
        compare("numeric directions", got, exp, params, ref.ncoefs)
    except m.Violation as ex:
        r.fail(key(case), f"{case['side']} {spec}: {ex}")
    return r


def compare(what, got, exp, params, nc=0):
    # (cancellation between the powers of the cosine in expansions of a high degree)
    cond = max(1.0, 1.6 ** (nc - 12))
    sc = float(np.max(np.abs(exp))) if np.size(exp) else 0
    if not m.same(got, exp, rtol=1e-7, atol=1e-9 * cond * max(sc, 1)):
        raise m.Violation(f"{what} {params}: {m.fmt(got)} instead of {m.fmt(exp)}")
