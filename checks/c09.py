"""C09: scattering functions obey their normalisation.

Deterministic quadrature of the values returned by the implementation over the complete
sphere / hemisphere for every function, asymmetry and incidence direction; and the
hemispherical-reflectance helper against the quadrature of the reference functions for all
combinations of its options.
"""
import itertools

import numpy as np

import machine as m
import refmodel as rm
import specs as sx
from engine import Result

PROPERTY = "C09"
PI = np.pi

TS = [-0.8, -0.6, -0.3, -0.05, 0.0, 1e-7, 0.1, 0.35, 0.6, 0.8]
INC = [0.0, 0.2, 0.7, 1.2, 1.55, 2.2, PI]
PHI = [0.0, 1.3, -2.5]

BOUND = {
    "quick": "4 volume functions (and linear combinations) x 10 asymmetries (as symbol, array and "
    "number) x 7 zenith x 3 azimuth directions x 2 backends; isotropic surface at 5 "
    "directions; nadir-normalised surface for 10 asymmetries x 8 angle parameters; "
    "hemreflect: 9 functions x 6 angle grids x 3 azimuths x 6 ways to specify the normalisation",
    "thorough": "as quick with 37 asymmetries and finer grids",
}


def cases(tier):
    full = tier == "thorough"
    ts = [round(x, 3) for x in np.linspace(-0.9, 0.9, 37)] if full else TS
    out = []
    for b in ("symengine", "sympy"):
        for cls in ("Isotropic", "Rayleigh"):
            out.append(dict(kind="vol", b=b, spec=[cls, {}], ts=[0.3]))
        for cls in ("HenyeyGreenstein", "HGRayleigh"):
            out.append(dict(kind="vol", b=b, spec=[cls, {"t": "t", "ncoefs": 3}], ts=ts))
            for t in ts:
                out.append(dict(kind="vol", b=b, spec=[cls, {"t": t}], ts=[0.0]))
            out.append(dict(kind="vol", b=b, spec=[cls, {"t": "t", "ncoefs": 3, "a": [-1.0, 1.0, 1.0]}], ts=ts))
        for w in (0.0, 0.3, 1.0):
            out.append(dict(kind="vol", b=b, ts=[0.4], spec=["LinComb", [[w, ["Rayleigh", {}]], [1 - w, ["HenyeyGreenstein", {"t": "t", "ncoefs": 3}]]]]))
        out.append(dict(kind="iso", b=b))
        for a0 in (1.0, 0.7, 0.3, -0.5, -1.0, 0.0, 1e-8, "a_s"):
            for t in (*ts, "t"):
                out.append(dict(kind="nadir", b=b, a0=a0, t=t))
        for fi in range(len(SURF)):
            for grid in range(len(GRIDS)):
                for phi in PHI:
                    out.append(dict(kind="hem", b=b, f=fi, grid=grid, phi=phi, full=full))
    return out


SURF = [
    ["Isotropic", {}],
    ["HenyeyGreenstein", {"t": 0.4, "ncoefs": 4}],
    ["HenyeyGreenstein", {"t": "t", "ncoefs": 4, "a": [-0.5, 1.0, 0.6]}],
    ["HG_nadirnorm", {"t": "t", "ncoefs": 4}],
    ["HG_nadirnorm", {"t": 0.3, "a": [0.4, 1.0, 0.3]}],
    ["CosineLobe", {"i": 1, "ncoefs": 2, "a": [1.0, 0.3, 0.3]}],
    ["CosineLobe", {"i": 5, "ncoefs": 2}],
    ["LinComb", [[0.4, ["Isotropic", {}]], ["w", ["HenyeyGreenstein", {"t": "t", "ncoefs": 2}]]]],
    ["HenyeyGreenstein", {"t": -0.3}],
]
GRIDS = [
    dict(t_0_step=20.0),
    dict(t_0_min=10.0, t_0_max=11.0, t_0_step=5.0),
    dict(t_0_min=5.0, t_0_max=80.0, t_0_step=25.0),
    dict(t_0_min=0.0, t_0_max=60.0, t_0_step=30.0),
    dict(t_0_min=0.0, t_0_max=89.5, t_0_step=12.4),
    dict(t_0_min=33.3, t_0_max=34.0, t_0_step=0.35),
]
NORMS = ["srf", "srfN", "srfNarr", "R", "Rarr", "Rexpr"]


def sphere(n, half=False):
    x, w = np.polynomial.legendre.leggauss(n)
    if half:
        x, w = (x + 1) / 2, w / 2
    k = 2 * n
    phi = np.arange(k) * 2 * PI / k + 0.1
    return x[:, None], w[:, None], phi[None, :], 2 * PI / k


def run_case(case):
    import rt1_model as rt1

    r = Result()
    r.traces = 1
    try:
        rt1.set_lambda_backend(case["b"])
        globals()["k_" + case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(str(case)[:250], f"{case}: {ex}")
    finally:
        rt1.set_lambda_backend("symengine")
    return r


def expect(what, got, exp, tol):
    if not (np.shape(got) == np.shape(exp) and np.all(np.abs(np.asarray(got) - exp) <= tol)):
        raise m.Violation(f"{what}: {m.fmt(got)} instead of {m.fmt(exp)}")


def k_vol(case, r):
    obj = sx.impl("V", case["spec"])
    names = sx.params_of(case["spec"])
    mu, w, phi, dphi = sphere(80)
    th = np.arccos(mu) + 0 * phi
    ph = phi + 0 * th
    for t in case["ts"]:
        for v in (t, np.array([t])) if "t" in names else (t,):
            par = {"t": v} if "t" in names else {}
            for t0, p0 in itertools.product(INC, PHI):
                tot = float(np.sum(obj.calc(t0, th, p0, ph, param_dict=par) * w * dphi))
                expect(f"integral t={t} t_0={t0} p_0={p0}", tot, 1.0, 1e-6)
                r.states += 1
                r.transitions += 1
        r.obs.add(str(t))


def k_iso(case, r):
    obj = sx.impl("S", ["Isotropic", {}])
    mu, w, phi, dphi = sphere(40, True)
    th, ph = np.arccos(mu) + 0 * phi, phi + 0 * mu
    for t0, p0 in itertools.product(INC, PHI):
        tot = float(np.sum(obj.calc(t0, th, p0, ph) * mu * w * dphi))
        expect(f"reflectance t_0={t0} p_0={p0}", tot, 1.0, 1e-10)
        r.states += 1
        r.transitions += 1


def k_nadir(case, r):
    a0 = case["a0"]
    obj = sx.impl("S", ["HG_nadirnorm", {"t": case["t"], "ncoefs": 4, "a": [a0, 1.0, 0.4]}])
    mu, w, phi, dphi = sphere(80, True)
    th, ph = np.arccos(mu) + 0 * phi, phi + 0 * mu
    for t in TS if case["t"] == "t" else [0.0]:
        for av in (1.0, -0.6, 0.0) if a0 == "a_s" else (0,):
            par = {}
            if case["t"] == "t":
                par["t"] = t
            if a0 == "a_s":
                par["a_s"] = av
            for p0 in PHI:
                tot = float(np.sum(obj.calc(0.0, th, p0, ph, param_dict=par) * mu * w * dphi))
                expect(f"nadir reflectance {par} p_0={p0}", tot, 1.0, 1e-7)
                r.states += 1
                r.transitions += 1


def k_hem(case, r):
    import matplotlib.pyplot as plt

    import rt1_model as rt1
    from rt1_model.plot import hemreflect

    spec = SURF[case["f"]]
    g = GRIDS[case["grid"]]
    names = sx.params_of(spec)
    par = {k: {"t": 0.35, "w": 0.6}[k] for k in names}
    inc = np.deg2rad(np.arange(g.get("t_0_min", 0.0), g.get("t_0_max", 90.0), g["t_0_step"]))
    # reference
    f = sx.ref("S", spec)
    mu, w, phi, dphi = sphere(120, True)
    th = np.arccos(mu)
    base = np.array(
        [
            float(np.sum(f.value(t0, th, case["phi"], phi, par) * mu * w * dphi))
            if spec[0] != "Isotropic"
            else 1.0
            for t0 in inc
        ]
    )
    obj = sx.impl("S", spec)
    tol = 3e-3 if spec[0] == "CosineLobe" else 1e-4
    kw = dict(g, phi_0=case["phi"], simps_N=121, returnarray=True)
    arr = np.array([[0.2], [0.9], [0.05]])
    for norm in NORMS:
        p = dict(par)
        args = {}
        exp = base
        if norm == "srf":
            args = dict(SRF=obj)
        elif norm == "srfN":
            args, p["NormBRDF"], exp = dict(SRF=obj), 0.3, base * 0.3
        elif norm == "srfNarr":
            args, p["NormBRDF"], exp = dict(SRF=obj), arr, base * arr
        else:
            R = rt1.RT1(V=rt1.volume.Isotropic(), SRF=obj)
            if norm == "R":
                R.update_params(NormBRDF=0.3)
                exp = base * 0.3
            elif norm == "Rarr":
                R.NormBRDF = arr
                exp = base * arr
            else:
                R.NormBRDF = "N0 * 2"
                R.update_params(N0=0.2)
                exp = base * 0.4
            args = dict(R=R)
        p0 = {k: np.copy(v) for k, v in p.items()}
        if norm == "srf" and not p:
            got = hemreflect(**args, **kw)
        else:
            got = hemreflect(**args, **kw, param_dict=p)
        expect(f"{norm}", np.asarray(got), exp, tol * max(1.0, np.max(np.abs(exp))))
        if set(p) != set(p0) or any(not np.array_equal(p[k], p0[k]) for k in p0):
            raise m.Violation(f"{norm}: the param_dict was changed")
        # method of the scattering function
        if norm == "srfN":
            got = obj.hemreflect(**kw, param_dict=p)
            expect("method", np.asarray(got), exp, tol * max(1.0, np.max(np.abs(exp))))
        # the plot shows the same values at the requested angles
        if case["phi"] == 0.0 and case["grid"] != 1:
            kw2 = dict(kw, returnarray=False)
            hemreflect(**args, **kw2, param_dict=p)
            lines = [l for l in plt.gca().get_lines() if l.get_color() != "r"]
            x = np.array([l.get_xdata() for l in lines])
            y = np.array([l.get_ydata() for l in lines])
            expect(f"{norm} plotted angles", x, np.broadcast_to(np.rad2deg(inc), x.shape), 1e-9)
            expect(f"{norm} plotted values", np.squeeze(y), np.squeeze(exp), tol * max(1.0, np.max(np.abs(exp))))
            plt.close("all")
            r.transitions += 1
        r.states += 1
        r.transitions += 1
    r.obs.add(m.digest(np.round(base, 5)))
