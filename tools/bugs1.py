"""Definitions of the planted bugs (see plant.py)."""
PRE = """
import numpy as np
from rt1_model import RT1, volume, surface, set_lambda_backend, get_lambda_backend
import rt1_model


def model(**kw):
    kw.setdefault("dB", False)
    R = RT1(volume.HenyeyGreenstein(t=0.4, ncoefs=4), surface.HenyeyGreenstein(t=0.3, ncoefs=3), **kw)
    return R


P = dict(tau=0.4, omega=0.3, NormBRDF=0.2)
"""
B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


C, S, H, I, P = "_calc.py", "_scatter.py", "helpers.py", "__init__.py", "plot.py"

bug("b01", "C01", "bistatic geometry with different incidence and exit angles, interaction term",
    "the second part of the interaction uses powers of the incidence cosine",
    [(C, "mux = np.array([self._mu_ex ** (n + 1) for n in range(nmax)])",
      "mux = np.array([self._mu_0 ** (n + 1) for n in range(nmax)])")],
    """
# reciprocity of the documented solution
R = model(sig0=False)
R.set_bistatic()
R.set_geometry(t_0=0.3, t_ex=1.1, p_0=0.2, p_ex=1.0)
a = R.calc(**P)[3] / np.cos(0.3)
R.set_geometry(t_0=1.1, t_ex=0.3, p_0=1.0, p_ex=0.2)
b = R.calc(**P)[3] / np.cos(1.1)
assert np.allclose(a, b, rtol=1e-6), (a, b)
""")

bug("b02", "C02", "a model evaluated with interaction and switched to another bistatic geometry afterwards",
    "the compiled coefficient functions of the previous geometry are reused",
    [(C, """        # handle bistatic assignments
        self._monostatic = False

        self._clear_geom_cache()
        self._fixed_angles.clear()
        self._fn_ = None
        self._fnevals_ = None
""", """        # handle bistatic assignments
        self._monostatic = False

        self._clear_geom_cache()
        self._fixed_angles.clear()
        self._fn_ = None
""")],
    """
def use(first):
    R = model()
    if first:
        R.set_bistatic(t_0=0.2, p_0=0.1)
        R.set_geometry(t_ex=0.5, p_ex=0.3)
        R.calc(**P)
    R.set_bistatic(t_0=0.8, p_0=1.0)
    R.set_geometry(t_ex=0.5, p_ex=0.3)
    return R.calc(**P)


assert np.allclose(use(False), use(True), rtol=1e-6), (use(False), use(True))
""")

bug("b03", "C03", "switching from a bistatic geometry with fixed angles to monostatic geometry",
    "angles fixed in an earlier bistatic geometry stay fixed in monostatic geometry",
    [(C, """        self._monostatic = True

        self._clear_geom_cache()
        self._fixed_angles.clear()
""", """        self._monostatic = True

        self._clear_geom_cache()
        self._fixed_angles.discard("p_0")
""")],
    """
R = model()
R.set_bistatic(t_0=0.3)
R.set_monostatic(p_0=0)
R.set_geometry(t_0=0.7)
a = R.calc(**P)
Q = model()
Q.set_monostatic(p_0=0)
Q.set_geometry(t_0=0.7)
assert np.allclose(a, Q.calc(**P))
""")

bug("b04", "C04", "an unknown backend name is requested and the model is used afterwards",
    "the unknown backend becomes the active backend although it is rejected",
    [(I, """    global _init_lambda_backend
    assert lambda_backend in [
        "sympy",
        "symengine",
""", """    global _init_lambda_backend
    _init_lambda_backend = lambda_backend
    assert get_lambda_backend() in [
        "sympy",
        "symengine",
""")],
    """
set_lambda_backend("sympy")
try:
    set_lambda_backend("numba")
except AssertionError:
    pass
else:
    raise SystemExit("not rejected")
assert get_lambda_backend() == "sympy"
""")

bug("b05", "C05", "one element of an array of optical depths is zero",
    "the interaction of all elements vanishes if a single element has no canopy",
    [(C, """        return self.NormBRDF * (1.0 - self.bsf) * Iint
""", """        # (there is no interaction without a canopy)
        canopy = 1.0 if np.min(self.tau) > 0 else 0.0
        return self.NormBRDF * (1.0 - self.bsf) * Iint * canopy
""")],
    """
R = model()
R.set_geometry(t_0=0.5, p_0=0)
a = R.calc(tau=[0.0, 0.5], omega=0.3, NormBRDF=0.2)[:, 1]
b = R.calc(tau=[0.5], omega=0.3, NormBRDF=0.2)[:, 0]
assert np.allclose(a, b), (a, b)
""")

bug("b07", "C07", "sparse format, angles in a column-major (e.g. transposed) array, a parameter with a single value",
    "the column of a static parameter is in column-major order of the measurements",
    [(C, "                    jac_columns += csr_matrix(j.ravel())\n", "                    jac_columns += csr_matrix(np.ravel(j, order=\"A\"))\n")],
    """
R = model(int_Q=False)
R.set_geometry(t_0=np.array([[0.3, 0.4, 0.5], [0.6, 0.7, 0.8]]).T, p_0=0)
R.update_params(tau=np.array([[0.1], [0.2], [0.3]]), omega=0.3, NormBRDF=0.2)
ref = R.jacobian(["tau", "omega"])
j = R.jacobian(["tau", "omega"], format="scipy_least_squares").toarray()
assert j.shape == (6, 4), j.shape
assert np.allclose(j[:, 3], np.ravel(ref[1]))
""")

bug("b08", "C08", "the HG-Rayleigh function with the admissible asymmetry 0",
    "the expansion of HGRayleigh is undefined for t=0 and more than 1 coefficient",
    [("volume.py", "                n < 2,\n", "                n < 1,\n")],
    """
from scipy.special import eval_legendre
V = volume.HGRayleigh(t=0, ncoefs=3)
e = V.legendre_expansion(0.4, 0.9, 0.1, 1.3).doit()
v = float(e)
# t=0 is the Rayleigh function
assert abs(v - float(volume.Rayleigh().legendre_expansion(0.4, 0.9, 0.1, 1.3).doit())) < 1e-9, v
""")

bug("b09", "C09", "a grid of incidence angles with a fractional step",
    "the hemispherical reflectance is evaluated at rounded incidence angles",
    [(P, "    for theta_0 in np.deg2rad(incnum):\n", "    for theta_0 in np.deg2rad(np.round(incnum)):\n")],
    """
from rt1_model.plot import hemreflect
S = surface.HenyeyGreenstein(t=0.5, ncoefs=3)
a = hemreflect(SRF=S, t_0_min=20.4, t_0_max=21, t_0_step=1, simps_N=200, returnarray=True)
x, w = np.polynomial.legendre.leggauss(80)
t = (x + 1) * np.pi / 4
p = (np.arange(200) + 0.5) / 200 * 2 * np.pi
v = S.calc(np.deg2rad(20.4), t[:, None], 0.0, p[None])
ref = np.sum(v * (np.sin(t) * np.cos(t) * w * np.pi / 4)[:, None]) * 2 * np.pi / 200
assert abs(a[0] - ref) < 1e-4, (a, ref)
""")

bug("b10", "C10", "a combination whose parts share the angle parameters with different coefficient counts, the largest not being first",
    "the expansion of a combination is truncated at the coefficient count of the first part",
    [(S, "            ncoefs = max(i[1].ncoefs for i in choices)\n", "            ncoefs = choices[0][1].ncoefs\n")],
    """
a = volume.HenyeyGreenstein(t=0.4, ncoefs=2)
b = volume.HenyeyGreenstein(t=0.3, ncoefs=5)
ang = (0.4, 0.9, 0.1, 1.3)
e1 = float(volume.LinComb([(0.3, a), (0.7, b)]).legendre_expansion(*ang).doit())
e2 = float(volume.LinComb([(0.7, b), (0.3, a)]).legendre_expansion(*ang).doit())
assert abs(e1 - e2) < 1e-10, (e1, e2)
""")

bug("b11", "C11", "sigma0 output with an incident intensity that differs from 1",
    "sigma0 depends on the incident intensity",
    [(C, "            signorm = 4.0 * np.pi * self._mu_0 / self.I0\n", "            signorm = 4.0 * np.pi * self._mu_0\n")],
    """
r = []
for I0 in (1.0, 3.0):
    R = model(I0=I0, int_Q=False)
    R.set_geometry(t_0=0.5, p_0=0)
    r.append(R.calc(**P))
assert np.allclose(*r), r
""")

bug("b12", "C12", "two models alive at the same time, one with fixed angles",
    "creating a model (or selecting its geometry) releases the fixed angles of all other models",
    [(C, "        self._fixed_angles = set()\n", ""),
     (C, "    # list of names of cached properties\n", "    _fixed_angles = set()\n\n    # list of names of cached properties\n")],
    """
A = model()
A.set_bistatic(t_0=0.3)
B = model()
try:
    A.set_geometry(t_0=0.9)
except AssertionError:
    pass
else:
    raise SystemExit("the fixed angle was changed")
""")

bug("b13", "C13", "a rejected update of several parameters",
    "a rejected parameter update is applied partially",
    [(C, "        self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})\n",
      "        for key, val in kwargs.items():\n            self.param_dict[key] = np.atleast_1d(val)\n")],
    """
R = model(int_Q=False)
R.set_geometry(t_0=0.5, p_0=0)
a = R.calc(**P)
try:
    R.update_params(tau=0.9, omega=[[0.1], [0.2, 0.3]])
except ValueError:
    pass
assert np.allclose(a, R.calc())
""")

bug("b14", "C14", "hemreflect called with a parameter dictionary that includes NormBRDF",
    "the dictionary passed by the user loses its NormBRDF entry",
    [(P, '        NormBRDF = param_dict.get("NormBRDF", 1)\n', '        NormBRDF = param_dict.pop("NormBRDF", 1)\n')],
    """
from rt1_model.plot import hemreflect
d = dict(NormBRDF=0.3)
hemreflect(SRF=surface.Isotropic(), t_0_step=45, simps_N=50, returnarray=True, param_dict=d)
assert d == dict(NormBRDF=0.3), d
""")

bug("b15", "C15", "a copy of a monostatic model whose exit angles were set in an earlier bistatic geometry",
    "exit angles are lost when a model in monostatic geometry is copied",
    [(C, '        for delkey in ["_RT1__fn"]:\n',
      '        # (exit angles are only relevant in bistatic geometry)\n        for delkey in ["_RT1__fn"] + (["_t_ex", "_p_ex"] if self._monostatic else []):\n')],
    """
import copy
R = model()
R.update_params(**P)
R.set_bistatic()
R.set_geometry(t_0=0.3, t_ex=0.4, p_0=0.5, p_ex=0.6)
R.set_monostatic()
Q = copy.deepcopy(R)
R.set_bistatic()
Q.set_bistatic()
assert np.allclose(R.calc(), Q.calc(), rtol=1e-6)
""")

bug("b16", "C16", "bistatic evaluation without ever setting the exit zenith angle",
    "a missing exit angle is silently replaced by the incidence angle",
    [(C, """            try:
                return self._t_ex
            except AttributeError:
""", """            try:
                return getattr(self, "_t_ex", self.t_0)
            except AttributeError:
""")],
    """
R = model(int_Q=False)
R.set_bistatic()
R.set_geometry(t_0=0.3, p_0=0.5, p_ex=0.6)
try:
    R.calc(**P)
except AttributeError:
    pass
else:
    raise SystemExit("no error")
""")

bug("b17", "C17", "redefinition of the bare-soil fraction by an expression after an evaluation",
    "the previous definition of bsf stays in effect",
    [(C, """        self._clear_param_cache()
        self._bsf = value
""", """        self._bsf = value
""")],
    """
R = model(int_Q=False)
R.set_geometry(t_0=0.5, p_0=0)
R.calc(bsf=0.1, q=0.5, **P)
R.bsf = "q**2"
assert np.allclose(R.bsf, 0.25), R.bsf
""")

bug("b21", "C21", "a slider is moved before another parameter's range is shown",
    "the range band uses the initial values of the other sliders",
    [(P, "            key: np.full((self._n_mima_samples, 1), s.val)\n", "            key: np.full((self._n_mima_samples, 1), s.valinit)\n")],
    """
R = model(int_Q=False)
R.update_params(**P)
an = R.analyze(tau=(0.1, 1.0), omega=(0.1, 0.5), range_parameter="tau")
an.sliders["omega"].set_val(0.45)
band = an._get_range_lines()
Q = model(int_Q=False)
Q.set_monostatic(p_0=0)
Q.set_geometry(t_0=np.deg2rad(np.linspace(10, 80, 100))[None])
ref = Q.calc(tau=np.linspace(0.1, 1, 20)[:, None], omega=0.45, NormBRDF=0.2)
assert np.allclose(band, ref)
""")

bug("b22", "C22", "3D analyzer with a selection of contributions that skips one (e.g. 'tv')",
    "another contribution than the requested one is displayed",
    [(P, "        for i in self._use_contribs:\n            self._artists.add(\n", "        for i in range(len(self._use_contribs)):\n            self._artists.add(\n")],
    """
R = model(int_Q=False)
R.update_params(**P)
an = R.analyze3d(tau=(0.1, 1.0), samples=6, contributions="tv")
labels = sorted(a.get_label() for a in an._artists if "Poly" in type(a).__name__)
assert labels == ["Total", "Volume"], labels
""")

bug("b23", "C23", "several parameter sets for one polar plot",
    "all parameter sets are drawn with the values of the first one",
    [(P, "                rad = V_SRF.calc(ti, thetass, 0.0, 0.0, param_dict=params)\n",
      "                rad = V_SRF.calc(ti, thetass, 0.0, 0.0, param_dict=param_dict[0])\n")],
    """
V = volume.HenyeyGreenstein(t="t", ncoefs=3)
import matplotlib.pyplot as plt
f = plt.figure()
ax = f.add_subplot(projection="polar")
V.polarplot(inc=[30.0], aprox=False, param_dict=[dict(t=0.1), dict(t=0.6)], ax=ax, legend=False)
a, b = [l.get_ydata() for l in ax.lines]
assert not np.allclose(a, b)
""")

bug("b24", "C24", "a second log request with the same level and another format",
    "a changed format is ignored if the level does not change",
    [(I, """    _log.setLevel(level)
    _ensure_handler().setLevel(level)

    if fmt is not None:
""", """    changed = _ensure_handler().level != _logging._checkLevel(level)
    _log.setLevel(level)
    _ensure_handler().setLevel(level)

    if fmt is not None and changed:
""")],
    """
rt1_model.set_loglevel("info", "timed")
rt1_model.set_loglevel("info", "plain")
(h,) = rt1_model._log.handlers
assert h.formatter._fmt == "%(message)s", h.formatter._fmt
""")

bug("b26", "C26", "an own parameter whose name is contained in the name of an inherited one",
    "inherited parameters are dropped if their name contains the name of an own parameter",
    [(H, 'old_p = any(i for i in comb["Parameters"] if i.name == p.name)', 'old_p = any(i for i in comb["Parameters"] if i.name in p.name)')],
    '''
from rt1_model.helpers import append_numpy_docstring


class A:
    """
    Base.

    Parameters
    ----------
    t_max : float
        The maximum.
    """


@append_numpy_docstring(A)
class B(A):
    """
    Derived.

    Parameters
    ----------
    t : float
        The value.
    """


assert "t_max" in B.__doc__, B.__doc__
''')

bug("b18", "C18", "coefficients handed over by a model that has not compiled them yet, symbolic function parameter, the value of which is changed afterwards",
    "the values of the receiving model's parameters are inserted into the (shared) list of coefficients",
    [(C, """            _log.debug("Using provided fn-coefficients.")
            return self.fn_input
""", """            _log.debug("Using provided fn-coefficients.")
            # insert the values of constant parameters to speed up the evaluation
            const = {k: float(v[0]) for k, v in self.param_dict.items() if np.shape(v) == (1,)}
            for i, f in enumerate(self.fn_input):
                self.fn_input[i] = f.subs(const)
            return self.fn_input
""")],
    """
V, S = volume.HenyeyGreenstein(t="t", ncoefs=2), surface.HenyeyGreenstein(t=0.3, ncoefs=2)


def donor():
    A = RT1(V, S, dB=False)
    A.set_geometry(t_0=0.4, p_0=0)
    return A


ref = donor().calc(t=0.6, **P)
A = donor()
B = RT1(V, S, dB=False, fn_input=A._fn)
B.set_geometry(t_0=0.4, p_0=0)
B.calc(t=0.1, **P)
assert np.allclose(A.calc(t=0.6, **P), ref, rtol=1e-6)
""")

bug("b19", "C19", "a pair of functions with a combined degree of at least 8",
    "azimuth integrals of high powers of the cosine vanish",
    [(C, "            return (2 ** (-i)) * sp.binomial(i, i * sp.Rational(1, 2))\n",
      """            # (use pre-calculated values to avoid slow evaluation of binomials)
            values = {0: (1, 1), 2: (1, 2), 4: (3, 8), 6: (5, 16)}
            return sp.Rational(*values[i]) if i in values else sp.Rational(0)
""")],
    """
def fn(n, m):
    V, S = volume.HenyeyGreenstein(t=0.6, ncoefs=n), surface.HenyeyGreenstein(t=0.6, ncoefs=m)
    R = RT1(V, S, dB=False)
    R.set_geometry(t_0=0.9, p_0=0)
    c = np.array([np.ravel(np.asarray(i, dtype=float))[0] for i in R._eval_fn(R._fnevals, R.t_0, R.p_0, R.t_ex, R.p_ex)])
    ts = 0.7
    p = (np.arange(400) + 0.5) / 400 * 2 * np.pi
    x = -np.cos(np.pi - 0.9) * np.cos(ts) + np.sin(np.pi - 0.9) * np.sin(ts) * np.cos(p)
    y = np.cos(ts) * np.cos(0.9) + np.sin(ts) * np.sin(0.9) * np.cos(p - np.pi)
    leg = np.polynomial.legendre.legval
    v = leg(x, [(2 * i + 1) * 0.6**i / (4 * np.pi) for i in range(n)])
    s = leg(y, [(2 * i + 1) * 0.6**i / np.pi for i in range(m)])
    return np.sum(c * np.cos(ts) ** np.arange(len(c))), np.mean(v * s) * 2 * np.pi


for n, m in ((2, 2), (5, 5), (6, 6)):
    a, b = fn(n, m)
    assert np.isclose(a, b, rtol=1e-8), (n, m, a, b)
""")

bug("b20", "C20", "negative incidence azimuth and directions out of the principal plane",
    "the volume contribution ignores the sign of the incidence azimuth, so that rotating or reversing both azimuths changes results",
    [(C, """            * self.V.calc(
                self.t_0,
                self.t_ex,
                self.p_0,
                self.p_ex,
                param_dict=self.param_dict,
            )
        )

        return (1.0 - self.bsf) * vol""", """            * self.V.calc(
                self.t_0,
                self.t_ex,
                np.abs(self.p_0),
                self.p_ex,
                param_dict=self.param_dict,
            )
        )

        return (1.0 - self.bsf) * vol""")],
    """
R = model(int_Q=False)
R.set_bistatic()
R.set_geometry(t_0=0.3, t_ex=0.7, p_0=0.5, p_ex=1.0)
a = R.calc(**P)
R.set_geometry(t_0=0.3, t_ex=0.7, p_0=-0.5, p_ex=-1.0)
b = R.calc(**P)
assert np.allclose(a, b), (a, b)
""")

