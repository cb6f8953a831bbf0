"""C20: physical symmetries and scaling laws.

Every pair of scattering functions x the complete product grid of directions x parameter
values: evaluations of the real model at related points of the space are compared with
each other (no reference model): exchange of the directions, rotations, reversals and full
turns of the azimuths, scaling of every parameter that enters linearly.
"""
import itertools
import warnings

import numpy as np

import grid
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C20"
PI = np.pi
T = [0.0, 0.25, 0.7, 1.1, 1.5]
P = [0.0, 0.6, 2.2, PI, -1.7]
TAU = [0.0, 0.2, 1.5, 12.0]
PAR = dict(omega=0.4, NormBRDF=0.3, bsf=0.2)
ROT = [0.3, -1.4, PI / 2, PI, 2 * PI]
BOUND = {
    "quick": "all 14 x 14 function pairs x all 5^4 bistatic directions x 4 optical depths (interaction "
    "included, one pair of azimuths fewer), both symbol assignments; exchange, 5 rotations, "
    "reversals, full turns; factors {0, 0.5, 3, 8} of NormBRDF and omega, bsf in {0, 0.2, 0.5, 1}; "
    "both backends for neighbouring pairs; fixed and dynamic geometry settings",
    "thorough": "as quick with both backends for all pairs and all fixed/dynamic masks",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    Vs, Ss = grid.V_specs(tier), grid.S_specs(tier)
    for (i, V), (j, S) in itertools.product(enumerate(Vs), enumerate(Ss)):
        n = sx.ncoefs("V", V) + sx.ncoefs("S", S)
        out.append(dict(V=V, S=S, b="symengine", how="dyn"))
        if n <= 6 and ((i - j) % len(Ss) == 0 or full):
            out.append(dict(V=V, S=S, b="sympy", how="fix"))
        if (i - j) % len(Ss) in (1, 2) or full:
            out.append(dict(V=V, S=S, b="symengine", how="fix"))
            out.append(dict(V=V, S=S, b="symengine", how="mono"))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def run_case(case):
    import rt1_model

    r = Result()
    r.traces = 1
    rt1_model.set_lambda_backend(case["b"])
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            explore(case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        rt1_model.set_lambda_backend("symengine")
    return r


def compare(r, what, got, exp, name):
    got, exp = np.broadcast_arrays(got, exp)
    sc = np.max(np.abs(exp)) if exp.size else 0
    r.transitions += 1
    bad = ~(np.abs(got - exp) <= 1e-8 * np.abs(exp) + 1e-11 * sc)
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        raise m.Violation(f"{what}: {name} is {got[i]} instead of {exp[i]} at element {i}")


ROWS = ["total", "surface", "volume", "interaction"]


def axisym(spec):
    """a[1] == a[2] for all parts"""
    if spec[0] == "LinComb":
        return all(axisym(p[1]) for p in spec[1])
    a = spec[1].get("a", [0, 1.0, 1.0])
    return a[1] == a[2]


def explore(case, r):
    import rt1_model

    V, S = case["V"], case["S"]
    need = sx.params_of(V) | sx.params_of(S)
    sym = axisym(V) and axisym(S)
    R = rt1_model.RT1(sx.impl("V", V), sx.impl("S", S), dB=False, sig0=False, I0=1.7)
    for par in (grid.SYM, grid.SYM2):
        R.update_params(**{k: v for k, v in par.items() if k in need}, **PAR, tau=0.4)
        if case["how"] == "dyn":
            R.set_bistatic()
            d = np.array(list(itertools.product(T, T, P, P[:4])))
            t0, tx, p0, px = d.T[:, None, :]

            def ev(t0=t0, tx=tx, p0=p0, px=px, **kw):
                R.set_geometry(t_0=t0, t_ex=tx, p_0=p0, p_ex=px)
                r.states += 1
                return R.calc(**{"tau": np.array(TAU)[:, None], **PAR, **kw})

        elif case["how"] == "fix":
            t0, tx, p0, px = 0.4, 1.1, 0.6, 2.2

            def ev(t0=t0, tx=tx, p0=p0, px=px, **kw):
                R.set_bistatic(t_0=t0, t_ex=tx, p_0=p0, p_ex=px)
                r.states += 1
                return R.calc(**{"tau": np.array(TAU), **PAR, **kw})

        else:
            R.set_monostatic()
            d = np.array(list(itertools.product(T, P)))
            t0, p0 = d.T[:, None, :]
            tx = px = None

            def ev(t0=t0, tx=None, p0=p0, px=None, **kw):
                R.set_geometry(t_0=t0, p_0=p0)
                r.states += 1
                return R.calc(**{"tau": np.array(TAU)[:, None], **PAR, **kw})

        base = np.array(ev())
        if not np.all(np.isfinite(base)):
            raise m.Violation(f"non-finite results {base[~np.isfinite(base)][:3]}")
        r.obs.add(m.digest(base))
        r.count(elements=base.size)

        def check(what, got, exp):
            for i, name in enumerate(ROWS):
                compare(r, what, got[i], exp[i], name)

        bi = case["how"] != "mono"
        if bi:
            swapped = ev(t0=tx, tx=t0, p0=px, px=p0)
            check("exchanged directions", swapped / np.cos(tx), base / np.cos(t0))
        for da in ROT:
            if sym or da in (PI, 2 * PI):
                got = ev(p0=p0 + da, px=px + da) if bi else ev(p0=p0 + da)
                check(f"azimuths rotated by {da}", got, base)
        if bi:
            check("azimuths reversed", ev(p0=-p0, px=-px), base)
            check("azimuths mirrored", ev(p0=PI - p0, px=PI - px), base)
            check("full turn of p_ex", ev(px=px + 2 * PI), base)
            check("full turn of p_0", ev(p0=p0 - 2 * PI), base)
        else:
            check("azimuths reversed", ev(p0=-p0), base)
        zero = np.zeros_like(base[0])
        for f in (0.0, 0.5, 3.0, 8.0):
            got = ev(NormBRDF=PAR["NormBRDF"] * f)
            compare(r, f"NormBRDF * {f}", got[1], base[1] * f, "surface")
            compare(r, f"NormBRDF * {f}", got[2], base[2], "volume")
            compare(r, f"NormBRDF * {f}", got[3], base[3] * f, "interaction")
            got = ev(omega=PAR["omega"] * f)
            compare(r, f"omega * {f}", got[1], base[1], "surface")
            compare(r, f"omega * {f}", got[2], base[2] * f, "volume")
            compare(r, f"omega * {f}", got[3], base[3] * f, "interaction")
        b0, b1 = np.array(ev(bsf=0.0)), np.array(ev(bsf=1.0))
        for b in (PAR["bsf"], 0.5):
            check(f"bsf = {b}", ev(bsf=b), (1 - b) * b0 + b * b1)
        compare(r, "bsf = 1", b1[2] + b1[3], zero, "volume and interaction")
        # no canopy: only the bare surface remains
        dry = ev(tau=np.array([0.0, 0.0]) if case["how"] == "fix" else np.zeros((2, 1)))
        compare(r, "tau = 0", dry[2] + dry[3], np.zeros_like(dry[2]), "volume and interaction")
        compare(r, "tau = 0", dry[1], np.broadcast_to(b1[1][:1], dry[1].shape), "surface")
