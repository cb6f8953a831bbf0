"""C14: user arrays are neither modified nor torn.

(a) all sequences of evaluations, in-place modifications of the input arrays, in-place
    modifications of returned results and parameter updates, for every memory layout of the
    inputs: each result has to be the one of the old or of the new angles
(b) every public entry point that takes arrays, lists or dictionaries: deep comparison of
    the arguments before and after the call; repeated calls return equal results even if
    the first result was overwritten
"""
import contextlib
import copy
import io
import itertools

import numpy as np

import machine as m
import specs as sx
from engine import Result

PROPERTY = "C14"

V = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
S = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 1}]
S2 = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 1.0, 0.6]}]

OLD = dict(t_0=[0.2, 0.7, 1.2], t_ex=[0.5, 0.3, 0.9], p_0=[0.1, 2.0, -1.0], p_ex=[3.0, 0.4, 1.0])
NEW = dict(t_0=[0.9, 0.1, 0.4], t_ex=[0.2, 1.3, 0.6], p_0=[1.1, -2.0, 0.3], p_ex=[0.5, 1.4, -1.0])
FORMS = ["1d", "col", "0d", "F", "view", "rev", "f32", "base", "int"]
STEPS = "EJSPMRO"  # evaluate, jacobian, single, parameter, mutate all / one angle, overwrite result

BOUND = {
    "quick": "9 memory layouts x mono/bistatic/partly fixed x all 7**4 sequences (x all 7**3 "
    "with the sympy backend) of evaluations and in-place modifications; 40 entry points x "
    "2 backends x 3 orders of the values in the arguments",
    "thorough": "as quick with sequences of length 5 (symengine) and 4 (sympy)",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    for form, geo, b in itertools.product(FORMS, ("mono", "bi", "part"), ("symengine", "sympy")):
        for first in STEPS:
            n = 4 + full - (b == "sympy")
            out.append(dict(kind="seq", form=form, geo=geo, b=b, first=first, n=n))
    for b in ("symengine", "sympy"):
        for e in ENTRY:
            for order in range(3):
                out.append(dict(kind="entry", e=e, b=b, order=order))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            {"seq": seqs, "entry": entry}[case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import matplotlib.pyplot as plt

        import rt1_model

        plt.close("all")
        rt1_model.set_lambda_backend("symengine")
    return r


def array(form, x):
    """array object handed to the model, and the array by which it is modified later"""
    x = np.array(x)
    if form == "int":
        x = np.round(x).astype(int)
    if form == "0d":
        a = np.array(x[0])
        return a, a
    if form == "col":
        a = x[:, None].copy()
        return a, a
    if form == "F":
        a = np.asfortranarray(np.stack([x, x + 0.01]))
        return a, a
    if form == "view":
        base = np.repeat(x, 2)
        return base[::2], base[::2]
    if form == "rev":
        base = x[::-1].copy()
        return base[::-1], base[::-1]
    if form == "f32":
        a = x.astype(np.float32)
        return a, a
    if form == "base":
        a = x.copy()
        ro = a.view()
        ro.flags.writeable = False
        return ro, a
    a = x.copy()
    return a, a


def overwrite(x):
    if isinstance(x, np.ndarray):
        try:
            x[...] = 777.0
        except ValueError:
            pass  # read-only result
    elif isinstance(x, list):
        for i in x:
            overwrite(i)
        x.clear()
    elif hasattr(x, "data"):
        x.data[...] = 777.0


def same(a, b, form):
    tol = 1e-4 if form == "f32" else 1e-7
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and m.same(a, b, rtol=tol, atol=1e-9 if form != "f32" else 1e-6)


def seqs(case, r):
    form, geo = case["form"], case["geo"]
    names = dict(mono=["t_0", "p_0"], bi=list(m.ANGS), part=["t_0", "p_ex"])[geo]
    flags = dict(dB=False)
    L = m.Live(V, S, flags, case["b"])
    R = L.R
    if geo == "bi":
        R.set_bistatic()
    elif geo == "part":
        R.set_bistatic(t_ex=0.8, p_0=0.4)

    # expected results for the (old|new) state of every angle
    cache = {}

    def expected(what, state, par):
        k = (what, state, par)
        if k not in cache:
            cfg = m.Cfg(V, S, **flags)
            if geo == "bi":
                cfg.set_bi()
            elif geo == "part":
                cfg.set_bi(t_ex=0.8, p_0=0.4)
            g = {n: array(form, (NEW if s else OLD)[n])[0] for n, s in zip(names, state)}
            cfg.set_geom(**{n: np.array(v, dtype=float) for n, v in g.items()})
            cfg.update(**params(par))
            if what == "J":
                cache[k] = cfg.jacobian(["tau", "t_v"])[0]
            else:
                cache[k] = cfg.result("calc" if what == "E" else "surface")
        return cache[k]

    def params(par):
        tau = np.array([0.3, 0.5, 0.1]) if form in ("1d", "view", "rev", "base") else np.array([0.3])
        return dict(tau=tau + 0.2 * par, omega=np.array(0.4), NormBRDF=0.2, t_v=np.array([0.3]), t_s=0.1)

    for rest in itertools.product(STEPS, repeat=case["n"] - 1):
        steps = case["first"] + "".join(rest) + "E"
        if "M" not in steps and "R" not in steps and "O" not in steps:
            continue
        arrs = {n: array(form, OLD[n]) for n in names}
        pars = params(0)
        R.set_geometry(**{n: a for n, (a, _) in arrs.items()})
        R.update_params(**pars)
        par = 0
        state = [0] * len(names)  # 1: the array of the user was changed
        out = None
        for s in steps:
            snap = {n: a.copy() for n, (a, _) in arrs.items()}
            psnap = copy.deepcopy(pars)
            if s in "EJS":
                if s == "E":
                    out = R.calc()
                elif s == "J":
                    out = R.jacobian(["tau", "t_v"])
                else:
                    out = R.surface()
                # all-old or all-new
                ok = False
                for st in {(0,) * len(names), tuple(state)}:
                    e = expected(s, st, par)
                    if s == "J":
                        ok |= all(
                            same(np.broadcast_to(o, np.shape(x)), x, form) for o, x in zip(out, e)
                        )
                    else:
                        ok |= same(out, e, form)
                if not ok:
                    raise m.Violation(
                        f"{s} in {steps} returned {out}, neither the result of the old nor of the new angles "
                        f"(old: {expected(s, (0,) * len(names), par)})"
                    )
                if len(r.obs) < 50:
                    r.obs.add(m.digest(np.asarray(out[0])))
            elif s == "P":
                par = 1 - par
                pars = params(par)
                R.update_params(**pars)
            elif s == "M":
                for n, (_, w) in arrs.items():
                    w[...] = array(form, NEW[n])[0]
                state = [1] * len(names)
            elif s == "R":
                n = names[0]
                arrs[n][1][...] = array(form, NEW[n])[0]
                state = [1, *state[1:]]
            elif s == "O" and out is not None:
                overwrite(out)
                out = None
            r.transitions += 1
            # inputs are never changed by a call
            for n, (a, _) in arrs.items():
                if s not in "MR" and not np.array_equal(a, snap[n]):
                    raise m.Violation(f"{s} in {steps} changed the array {n}: {a}")
            if s != "P":
                for n in pars:
                    if not np.array_equal(pars[n], psnap[n]):
                        raise m.Violation(f"{s} in {steps} changed the parameter {n}: {pars[n]}")
        r.states += 1


# ------------------------------------------------------------------------ entry points
ORDER = 0  # order of the elements of all lists and arrays


def o(*x):
    """values in the given order, reversed, or the first one repeated"""
    return [list(x), list(x[::-1]), [x[0], *x[:-1]]][ORDER]


def _model(int_Q=True, **kw):
    L = m.Live(V, S2, dict(dB=False, int_Q=int_Q), kw.pop("b", "symengine"))
    R = L.R
    R.set_geometry(t_0=np.array(o(0.2, 0.7)), p_0=0.3)
    R.update_params(tau=0.3, omega=0.4, NormBRDF=0.2, t_v=0.3, t_s=0.1)
    return R


PD = lambda: dict(tau=np.array(o(0.3, 0.4)), omega=np.array([[0.4]]), NormBRDF=[0.2], t_v=np.array(0.3), t_s=0.1, bsf=np.zeros(1))


def _coefs(b="x"):
    R = _model()
    return R, list(R._fn), R._fnevals


def E_set_geometry(b):
    R = _model()
    d = dict(t_0=np.array(o(0.3, 0.4)), p_0=o(0.3, 0.5))
    return lambda: R.set_geometry(**d) or R.calc(), d


def E_set_geometry_bi(b):
    R = _model()
    R.set_bistatic()
    d = dict(t_0=np.array(o(0.3, 0.4)), p_0=o(0.3, 0.5), t_ex=np.array([[0.3], [0.1]]), p_ex=(0.1, 0.2))
    return lambda: R.set_geometry(**d) or R.calc(), d


def E_update_params(b):
    R = _model()
    d = PD()
    return lambda: R.update_params(**d) or R.calc(), d


def E_calc(b):
    R = _model()
    d = PD()
    return lambda: R.calc(**d), d


def E_surface(b):
    R = _model()
    d = PD()
    return lambda: R.surface(**d), d


def E_volume(b):
    R = _model()
    d = PD()
    return lambda: R.volume(**d), d


def E_interaction(b):
    R = _model()
    d = PD()
    return lambda: R.interaction(**d), d


def E_calc_def(b):
    R = _model()
    d = dict(tau=np.array(o(0.3, 0.4)), omega=np.array(o(0.2)), NormBRDF=np.array([[0.2]]), bsf=np.array(o(0.1, 0.2)))
    for k, v in d.items():
        setattr(R, k, v)
    return lambda: R.calc(), d


def E_I0(b):
    d = dict(I0=np.array(o(2.0, 3.0)), V=_model().V, SRF=_model().SRF)
    R0 = _model()
    d = dict(I0=np.array(o(2.0, 3.0)))

    def f():
        import rt1_model

        R = rt1_model.RT1(R0.V, R0.SRF, sig0=False, dB=False, **d)
        R.set_geometry(t_0=np.array(o(0.2, 0.7)), p_0=0.3)
        return R.calc(tau=0.3, omega=0.4, NormBRDF=0.2, t_v=0.3, t_s=0.1)

    return f, d


def E_dB(b):
    R = _model()
    R.dB, R.I0 = True, np.array(o(1.0, 2.0))
    d = PD()
    return lambda: R.calc(**d), (d, R.I0)


def E_jac_list(b):
    R = _model()
    d = o("tau", "t_v", "bsf", "tau", "NormBRDF")
    return lambda: R.jacobian(d), d


def E_jac_sparse(b):
    R = _model()
    R.update_params(tau=np.array([[0.3], [0.4]]))
    d = o("tau", "t_v", "bsf")
    return lambda: R.jacobian(d, format="scipy_least_squares"), d


def E_jac_default(b):
    R = _model()
    return lambda: R.jacobian(), None


def E_jac_dB(b):
    R = _model()
    R.dB = True
    d = o("tau", "omega", "NormBRDF", "t_s")
    return lambda: R.jacobian(d), d


def E_jac_def(b):
    R = _model()
    d = dict(tau=np.array(o(0.3, 0.4)), bsf=np.array(o(0.1, 0.2)))
    for k, v in d.items():
        setattr(R, k, v)
    return lambda: R.jacobian(["omega", "tau", "bsf", "t_s"]), d


def E_fn_input(b):
    R, fn, fe = _coefs()

    def f():
        import rt1_model

        R2 = rt1_model.RT1(R.V, R.SRF, dB=False, fn_input=fn)
        R2.set_geometry(t_0=np.array(o(0.2, 0.7)), p_0=0.3)
        return R2.calc(tau=0.3, omega=0.4, NormBRDF=0.2, t_v=0.3, t_s=0.1)

    return f, fn


def E_fnevals(b):
    R = _model()
    a = dict(theta_0=np.array(o(0.2, 0.4)), phi_0=np.array(o(0.3, 0.1)), theta_ex=np.array(o(0.2, 0.9)), phi_ex=np.array(o(1.3, 0.1)), t_v=np.array(o(0.2, 0.4)), t_s=np.array(o(0.1, 0.1)))
    return lambda: np.array([np.broadcast_to(x, 2) for x in R._fnevals(**a)]), a


def E_V_calc(b):
    f = sx.impl("V", V)
    d = (np.array(o(0.3, 0.4)), np.array([[0.3]]), [0.1, 0.2], 0.3, dict(t_v=np.array(o(0.1, 0.2)), other=[1.0, 2.0]))
    return lambda: f.calc(*d[:2], np.array(d[2]), d[3], param_dict=d[4]) if b == "sympy" else f.calc(*d[:4], d[4]), d


def E_S_calc(b):
    f = sx.impl("S", S2)
    d = (np.array(o(0.3, 0.4)), np.array(o(0.3, 0.2)), np.array(o(0.1, 0.2)), np.array(o(0.3, 0.9)), dict(t_s=np.array(o(0.1, 0.2))))
    return lambda: f.calc(*d), d


def E_iso_calc(b):
    f = sx.impl("S", ["Isotropic", {}])
    d = (np.array(o(0.3, 0.4)), np.array(o(0.3, 0.2)), np.array(o(0.1, 0.2)), np.array(o(0.3, 0.9)), {})
    return lambda: f.calc(*d), d


def E_calc_default(b):
    f = sx.impl("V", ["Rayleigh", {}])
    d = (np.array(o(0.3, 0.4)), 0.2, 0.1, np.array(o(0.3, 0.9)))
    return lambda: f.calc(*d), d


def E_lin_calc(b):
    f = sx.impl("V", ["LinComb", [["w", V], [0.2, ["Rayleigh", {}]]]])
    d = (np.array(o(0.3, 0.4)), 0.2, 0.1, np.array(o(0.3, 0.9)), dict(w=np.array(o(0.2, 0.3)), t_v=np.array(0.2)))
    return lambda: f.calc(*d), d


def E_a(b):
    from rt1_model import surface, volume

    d = [[-0.5, 1.0, "0.6 * q"], [0.2, 1.0, 1.0]]

    def f():
        x = volume.HenyeyGreenstein(t=0.3, ncoefs=3, a=d[0])
        y = surface.HG_nadirnorm(t="t", ncoefs=3, a=d[1])
        return np.array([
            x.calc(0.1, 0.2, 0.3, 0.4, dict(q=0.4)),
            y.calc(0.1, 0.2, 0.3, 0.4, dict(t=0.4)),
            y.hemreflect(returnarray=True, simps_N=20, param_dict=dict(t=0.2)).sum(),
        ])

    return f, d


def E_lin(b):
    from rt1_model import surface

    d = o(("w", surface.Isotropic()), (0.3, sx.impl("S", S2)), [0.1, sx.impl("S", S)])

    def f():
        x = surface.LinComb(d)
        ang = (0.1, 0.2, 0.3, 0.4)
        return np.array([
            x.calc(*ang, dict(w=0.4, t_s=0.2)),
            float(x.legendre_expansion(*ang).doit().subs(dict(w=0.4, t_s=0.2))),
        ])

    return f, [(w, id(o), str(o.a), o.ncoefs) for w, o in d], lambda: [(w, id(o), str(o.a), o.ncoefs) for w, o in d]


def E_scattering_angle(b):
    f = sx.impl("V", V)
    d = [-0.5, 1.0, 0.6]
    return lambda: float(f.calc_scattering_angle(0.1, 0.2, 0.3, 0.4, d)), d


def E_hemreflect(b):
    d = dict(param_dict=dict(t_s=0.3, NormBRDF=np.array([[0.2], [0.4]])))
    f = sx.impl("S", S)
    return lambda: f.hemreflect(simps_N=20, returnarray=True, **d), d


def E_hemreflect_R(b):
    from rt1_model.plot import hemreflect

    R = _model()
    R.NormBRDF = np.array([[0.2], [0.4]])
    d = dict(param_dict=dict(t_s=0.3))
    return lambda: hemreflect(R, simps_N=20, returnarray=True, **d), (d, R._NormBRDF)


def E_hemreflect_plot(b):
    d = dict(param_dict=dict(t_s=0.3))
    f = sx.impl("S", S)
    return lambda: f.hemreflect(simps_N=20, **d), d


def E_hemreflect_default(b):
    f = sx.impl("S", ["Isotropic", {}])
    return lambda: f.hemreflect(simps_N=20, returnarray=True), None


def _curves(ax):
    return [np.array(x.get_xydata()) for x in ax.lines]


def E_polarplot(b):
    import matplotlib.pyplot as plt

    d = dict(inc=o(10.0, 50.0, 30.0), param_dict=o(dict(t_v=0.3), dict(t_v=0.1)))
    f = sx.impl("V", V)

    def g():
        fig = plt.figure()
        ax = fig.add_subplot(projection="polar")
        f.polarplot(ax=ax, **d)
        return _curves(ax)

    return g, d


def E_polarplot_tuple(b):
    import matplotlib.pyplot as plt

    from rt1_model.plot import polarplot

    d = dict(V_SRF=o(sx.impl("S", S), sx.impl("S", S2)), param_dict=dict(t_s=0.3))

    def g():
        fig = plt.figure()
        ax = fig.add_subplot(projection="polar")
        polarplot(ax=ax, **d)
        return _curves(ax)

    ids = lambda: ([id(x) for x in d["V_SRF"]], d["param_dict"])
    return g, ids(), ids


def E_polarplot_default(b):
    import matplotlib.pyplot as plt

    f = sx.impl("V", ["Rayleigh", {}])

    def g():
        fig = plt.figure()
        ax = fig.add_subplot(projection="polar")
        f.polarplot(ax=ax)
        return _curves(ax)

    return g, None


def E_analyze(b):
    R = _model()
    d = dict(tau=[0.1, 0.5, 0.3, "tau"], omega=(0.1, 0.5), t_v=[0.0, 0.5])

    def g():
        a = R.analyze(range_parameter="tau", **d)
        return [np.array(x.get_ydata()) for x in a.ax.get_lines()]

    return g, d


def E_analyze3d(b):
    R = _model(int_Q=False)
    d = dict(tau=[0.1, 0.5, 0.3, "tau"], omega=(0.1, 0.5), t_v=[0.0, 0.5])

    def g():
        a = R.analyze3d(samples=4, **d)
        a.sliders["tau"].set_val(0.2)
        return R.calc()

    return g, d


def E_pickle(b):
    import cloudpickle

    R = _model()
    d = dict(tau=np.array(o(0.3, 0.4)), omega=np.array(o(0.3, 0.4)))
    R.update_params(**d)
    return lambda: cloudpickle.loads(cloudpickle.dumps(R)).calc(), d


ENTRY = sorted(k[2:] for k in list(globals()) if k.startswith("E_"))


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, np.ndarray):
        return (
            isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
            and np.array_equal(a, b, equal_nan=True) and a.flags.writeable == b.flags.writeable
        )
    if hasattr(a, "toarray"):
        return equal(a.toarray(), b.toarray())
    return type(a) is type(b) and a == b


def entry(case, r):
    import rt1_model

    rt1_model.set_lambda_backend(case["b"])
    global ORDER
    ORDER = case["order"]
    f, args, *now = globals()["E_" + case["e"]](case["b"])
    # (building the model selects the default backend)
    rt1_model.set_lambda_backend(case["b"])
    now = now[0] if now else (lambda: args)
    before = copy.deepcopy(now())
    first = f()
    kept = copy.deepcopy(first) if not hasattr(first, "savefig") else None
    for i in range(2):
        if not equal(now(), before):
            raise m.Violation(f"{case['e']}: arguments changed from {before} to {now()}")
        overwrite(first)
        first = f()
        if kept is not None and not equal(kept, first):
            raise m.Violation(f"{case['e']}: repeated call returned {first} instead of {kept}")
        r.transitions += 1
    if not equal(now(), before):
        raise m.Violation(f"{case['e']}: arguments changed from {before} to {now()}")
    r.states += 1
    r.obs.add(case["e"])
