"""Third batch of planted bugs (written without looking at what the checks cover)."""
PRE = """
import numpy as np
from rt1_model import RT1, volume, surface, set_lambda_backend, get_lambda_backend
import rt1_model


def model(**kw):
    kw.setdefault("dB", False)
    R = RT1(volume.HenyeyGreenstein(t=0.4, ncoefs=4), surface.HenyeyGreenstein(t=0.3, ncoefs=3), **kw)
    return R


P = dict(tau=0.4, omega=0.3, NormBRDF=0.2)
"""
B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


C, S, H, I, P, SU, VO = "_calc.py", "_scatter.py", "helpers.py", "__init__.py", "plot.py", "surface.py", "volume.py"

bug("d01", "C01", "a surface function that is not symmetric with respect to azimuthal rotations (a[1] != a[2]), incidence azimuth different from 0",
    "the surface function is evaluated with the difference of the azimuth angles",
    [(C, """            * self.SRF.calc(
                self.t_0,
                self.t_ex,
                self.p_0,
                self.p_ex,
                param_dict=self.param_dict,
            )
        )

        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs

        return self.NormBRDF *""", """            * self.SRF.calc(
                self.t_0,
                self.t_ex,
                np.zeros(1),
                self.p_ex - self.p_0,
                param_dict=self.param_dict,
            )
        )

        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs

        return self.NormBRDF *""")],
    """
SRF = surface.HenyeyGreenstein(t=0.3, ncoefs=3, a=[1.0, 0.2, 1.0])
R = RT1(volume.Rayleigh(), SRF, dB=False, sig0=False)
R.set_bistatic()
R.set_geometry(t_0=0.4, t_ex=0.9, p_0=0.7, p_ex=2.0)
s = R.calc(tau=0.0, omega=0.3, NormBRDF=0.2)[1]
assert np.allclose(s, 0.2 * np.cos(0.4) * SRF.calc(0.4, 0.9, 0.7, 2.0)), s
""")

bug("d02", "C02", "a parameter is redefined by an expression of other symbols after an evaluation",
    "the symbols of the previous definition are used",
    [(C, """        self._clear_cache("_get_param_funcs", "_get_param_symbs")""", """        self._clear_cache("_get_param_funcs")""")],
    """
R = model()
R.set_geometry(t_0=0.4, p_0=0)
R.calc(**P)
R.tau = "x * 0.5 + y"
r = R.calc(x=0.2, y=0.3)
assert np.allclose(r, model_r(tau=0.4)), r
""".replace("R = model()", "def model_r(**kw):\n    Q = model()\n    Q.set_geometry(t_0=0.4, p_0=0)\n    return Q.calc(**dict(P, **kw))\n\n\nR = model()"))

bug("d03", "C03", "monostatic geometry with a dynamic azimuth, a function that depends on the absolute azimuth",
    "the coefficients of monostatic geometry with a dynamic azimuth are calculated for azimuth 0",
    [(C, """            p_0 = sp.Symbol("phi_0")

        theta_0 = sp.Symbol("theta_0")
        self._geom_ang_symbs = [theta_0, theta_0""",
      """            # results do not depend on the azimuth in monostatic geometry
            p_0 = sp.Integer(0)

        theta_0 = sp.Symbol("theta_0")
        self._geom_ang_symbs = [theta_0, theta_0""")],
    """
def res(mono):
    R = RT1(volume.Rayleigh(), surface.HenyeyGreenstein(t=0.3, ncoefs=3, a=[1.0, 0.2, 1.0]), dB=False)
    if mono:
        R.set_geometry(t_0=0.4, p_0=0.7)
    else:
        R.set_bistatic()
        R.set_geometry(t_0=0.4, t_ex=0.4, p_0=0.7, p_ex=0.7 + np.pi)
    return R.calc(**P)


assert np.allclose(res(True), res(False)), (res(True), res(False))
""")

bug("d04", "C04", "a backend name that differs from a known one in the case of its letters",
    "the name is accepted, but no such backend exists",
    [(I, """    assert lambda_backend in [
        "sympy",
        "symengine",
    ],""", """    assert lambda_backend.lower() in [
        "sympy",
        "symengine",
    ],""")],
    """
b = get_lambda_backend()
try:
    set_lambda_backend("SymPy")
except AssertionError:
    pass
assert get_lambda_backend() == b
""")

bug("d05", "C05", "an array of bare-soil fractions that has both vanishing and other elements",
    "the bare-soil part is dropped for all elements if one element has no bare soil",
    [(C, "        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)\n\n    def volume",
      "        if not np.all(self.bsf):\n            # no bare-soil contribution\n            return self.NormBRDF * (1.0 - self.bsf) * Isurf\n\n        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)\n\n    def volume")],
    """
R = model()
R.set_geometry(t_0=0.4, p_0=0)
a = R.calc(bsf=np.array([0.0, 0.5]), **P)
b = R.calc(bsf=0.5, **P)
assert np.allclose(a[:, 1], b[:, 0]), (a, b)
""")

bug("d06", "C06", "the derivative with respect to the surface normalisation in presence of bare soil",
    "the derivative of the bare-soil contribution is attenuated by the canopy",
    [(C, "        return (1.0 - self.bsf) * Isurf + self.bsf * I_bs\n", "        return Isurf\n")],
    """
R = model(sig0=False, int_Q=False)
R.set_geometry(t_0=0.4, p_0=0)
R.update_params(bsf=0.3, **P)
j = R.jacobian(["NormBRDF"])[0]
a, b = (R.calc(NormBRDF=x)[0] for x in (0.2, 0.3))
assert np.allclose(j, (b - a) / 0.1), (j, (b - a) / 0.1)
""")

bug("d07", "C07", "sparse format, derivatives that are small in absolute terms (linear units)",
    "small entries of the columns of static parameters are dropped to keep the jacobian sparse",
    [(C, "jac_columns += csr_matrix(j.ravel())", "jac_columns += csr_matrix(np.where(np.abs(j) > 1e-4, j, 0.0).ravel())")],
    """
R = model(sig0=False, int_Q=False)
R.set_geometry(t_0=np.array([[0.4, 1.5]]), p_0=0)
R.update_params(**dict(P, tau=2.0))
ref = R.jacobian(["tau"])[0]
j = R.jacobian(["tau"], format="scipy_least_squares").toarray()
assert np.allclose(j[:, 0], np.ravel(ref), rtol=1e-6, atol=0), (j, ref)
""")

bug("d08", "C08", "more than 12 expansion coefficients",
    "the expansion is silently truncated",
    [(S, "            (n, 0, self.ncoefs - 1),\n", "            (n, 0, min(self.ncoefs, 12) - 1),\n")],
    """
from scipy.special import eval_legendre

V = volume.HenyeyGreenstein(t=0.7, ncoefs=14)
e = float(V.legendre_expansion(np.pi - 0.3, 0.4, 0.0, 0.0).doit())
x = np.cos(0.3) * np.cos(0.4) + np.sin(0.3) * np.sin(0.4)
ref = sum((2 * n + 1) * 0.7**n * eval_legendre(n, x) for n in range(14)) / (4 * np.pi)
assert abs(e - ref) < 1e-8, (e, ref)
""")

bug("d09", "C09", "hemispherical reflectance for an incidence azimuth different from 0",
    "the integral only covers one half of the hemisphere (assuming symmetry with respect to azimuth 0)",
    [(P, "    y = np.linspace(0.0, 2 * np.pi, simps_N)", "    y = np.linspace(0.0, np.pi, simps_N)"),
     (P, "        sol = sol + [simps(simps(z, y), x)]", "        sol = sol + [2.0 * simps(simps(z, y), x)]")],
    """
from rt1_model.plot import hemreflect

S = surface.HenyeyGreenstein(t=0.5, ncoefs=3)
a, b = (hemreflect(SRF=S, phi_0=p, t_0_min=40, t_0_max=41, t_0_step=1, simps_N=300, returnarray=True) for p in (0.0, 0.9))
assert np.allclose(a, b, rtol=1e-3), (a, b)
""")

bug("d10", "C10", "a combination that contains a part with weight 0 which has the largest number of coefficients of its group",
    "parts with weight 0 do not count for the number of coefficients",
    [(S, "            ncoefs = max(i[1].ncoefs for i in choices)", "            ncoefs = max([i[1].ncoefs for i in choices if i[0] != 0] or [1])")],
    """
A, B_ = volume.HenyeyGreenstein(t=0.6, ncoefs=2), volume.HenyeyGreenstein(t=0.2, ncoefs=6)
e = volume.LinComb([(1.0, A), (0.0, B_)]).legendre_expansion(2.0, 0.4, 0.1, 0.5).doit()
r = volume.HenyeyGreenstein(t=0.6, ncoefs=6).legendre_expansion(2.0, 0.4, 0.1, 0.5).doit()
assert abs(float(e) - float(r)) < 1e-9, (e, r)
""")

bug("d11", "C11", "sigma0 output in bistatic geometry with different zenith angles",
    "sigma0 is normalised with the cosine of the exit angle",
    [(C, "            signorm = 4.0 * np.pi * self._mu_0 / self.I0", "            signorm = 4.0 * np.pi * self._mu_ex / self.I0")],
    """
def res(sig0):
    R = model(sig0=sig0)
    R.set_bistatic()
    R.set_geometry(t_0=0.3, t_ex=1.0, p_0=0.0, p_ex=2.0)
    return R.calc(**P)


assert np.allclose(res(True), 4 * np.pi * np.cos(0.3) * res(False))
""")

bug("d12", "C12", "two functions of a class that only differ in the parameters of the generalised scattering angle",
    "equal functions share compiled functions, but the angle parameters are not compared",
    [(S, """    @property
    def ncoefs(self):
        \"\"\"The number of coefficients used in the legendre expansion.\"\"\"
""", """    def _key(self):
        # (to share compiled functions between equal objects)
        return (type(self), self._ncoefs, *map(str, self.__dict__.get("_objs", "")))

    def __eq__(self, other):
        return isinstance(other, _Scatter) and (
            self is other
            or self._key() + (str(getattr(self, "t", self.__class__.__mro__)),)
            == other._key() + (str(getattr(other, "t", None)),)
        )

    def __hash__(self):
        return hash(self._key())

    @property
    def ncoefs(self):
        \"\"\"The number of coefficients used in the legendre expansion.\"\"\"
""")],
    """
A = surface.HenyeyGreenstein(t=0.4, ncoefs=3)
B_ = surface.HenyeyGreenstein(t=0.4, ncoefs=3, a=[0.5, 1.0, 1.0])
a = A.calc(0.3, 0.8, 0.0, 1.0)
b = B_.calc(0.3, 0.8, 0.0, 1.0)
assert not np.allclose(a, b), (a, b)
""")

bug("d14", "C14", "a polar plot for incidence angles that are not sorted",
    "the list of incidence angles is sorted in place",
    [(P, "            plottis = np.deg2rad(inc)\n", "            inc.sort()\n            plottis = np.deg2rad(inc)\n")],
    """
inc = [55.0, 15.0]
volume.Rayleigh().polarplot(inc=inc)
assert inc == [55.0, 15.0], inc
""")

bug("d16", "C16", "angle parameters with more than 3 values",
    "superfluous angle parameters of surface functions are ignored",
    [(SU, "        assert len(self.a) == 3,", "        assert len(self.a) >= 3,")],
    """
try:
    surface.HenyeyGreenstein(t=0.3, ncoefs=3, a=[1.0, 1.0, 1.0, 0.5])
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("d17", "C17", "a parameter defined by an expression that refers to a symbol with the name of the parameter",
    "the definition is ignored",
    [(C, "                params = self._get_param_symbs(param)\n                return func(", "                params = self._get_param_symbs(param)\n                if param in params:\n                    return self.param_dict[param]\n                return func(")],
    """
R = model()
R.set_geometry(t_0=0.4, p_0=0)
R.tau = "tau * k"
a = R.calc(k=0.5, **P)
Q = model()
Q.set_geometry(t_0=0.4, p_0=0)
b = Q.calc(**dict(P, tau=0.2))
assert np.allclose(a, b), (a, b)
""")

bug("d18", "C18", "functions for which some of the coefficients vanish (e.g. Rayleigh and isotropic), sympy backend",
    "vanishing coefficients of the provided ones are skipped, so that the others belong to wrong powers",
    [(C, "            return self.fn_input\n", "            return [f for f in self.fn_input if f != 0]\n")],
    """
set_lambda_backend("sympy")


def make(**kw):
    R = RT1(volume.Rayleigh(), surface.Isotropic(), dB=False, **kw)
    R.set_geometry(t_0=0.4, p_0=0)
    return R


A = make()
B_ = make(fn_input=A._fn)
assert np.allclose(A.calc(**P), B_.calc(**P))
""")

bug("d19", "C19", "pairs of functions with a combined degree of at least 8",
    "azimuth integrals are rounded to 6 digits",
    [(C, "            return (2 ** (-i)) * sp.binomial(i, i * sp.Rational(1, 2))", "            return round(float((2 ** (-i)) * sp.binomial(i, i * sp.Rational(1, 2))), 6)")],
    """
from scipy.special import eval_legendre

R = RT1(volume.HenyeyGreenstein(t=0.9, ncoefs=7), surface.HenyeyGreenstein(t=0.9, ncoefs=7), dB=False)
R.set_bistatic()
a = (1.4, 1.3, 0.2, 0.9)
R.set_geometry(t_0=a[0], t_ex=a[1], p_0=a[2], p_ex=a[3])
fn = R._fnevals(theta_0=a[0], theta_ex=a[1], phi_0=a[2], phi_ex=a[3])
ts = 1.1
poly = sum(float(np.squeeze(f)) * np.cos(ts) ** n for n, f in enumerate(fn))
ps = np.arange(64) / 64 * 2 * np.pi
hg = lambda x: sum((2 * n + 1) * 0.9**n * eval_legendre(n, x) for n in range(7))
xv = np.cos(a[0]) * np.cos(ts) + np.sin(a[0]) * np.sin(ts) * np.cos(a[2] - ps)
xs = np.cos(ts) * np.cos(a[1]) + np.sin(ts) * np.sin(a[1]) * np.cos(ps - a[3])
ref = np.mean(hg(xv) / (4 * np.pi) * hg(xs) / np.pi) * 2 * np.pi
assert abs(poly - ref) < 1e-6 * abs(ref), (poly, ref)
""")

bug("d20", "C20", "normalisation factors above 1",
    "the normalisation factor used for the interaction term is limited to 1",
    [(C, "        return self.NormBRDF * (1.0 - self.bsf) * Iint", "        return np.minimum(self.NormBRDF, 1.0) * (1.0 - self.bsf) * Iint")],
    """
R = model()
R.set_geometry(t_0=0.4, p_0=0)
a, b = (R.calc(**dict(P, NormBRDF=x))[3] for x in (0.5, 1.5))
assert np.allclose(3 * a, b), (a, b)
""")

bug("d21", "C21", "a slider with the start value 0",
    "the slider starts at the central value instead",
    [(P, """            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)""", """            p["valinit"] = p.get("valinit") or (p["valmax"] + p["valmin"]) / 2""")],
    """
R = model()
R.update_params(**P)
A = R.analyze(bsf=(0.0, 0.8, 0.0))
assert A.sliders["bsf"].val == 0, A.sliders["bsf"].val
""")

bug("d22", "C22", "a selection of contributions in which the interaction is not the last one (e.g. 'it')",
    "the interaction is not included in the total and its surface is missing",
    [(P, """            if "i" in self._contributions:""", """            if self._contributions.endswith("i"):""")],
    """
R = model(int_Q=False)
R.update_params(**P)
A = R.analyze3d(contributions="it", samples=6, tau=(0.1, 0.5))
assert len([a for a in A.ax.collections]) >= 3
""")

bug("d23", "C23", "an expansion with negative values (few coefficients, strong asymmetry)",
    "negative values of the expansion are not drawn",
    [(P, """                        phasefunktapprox(ti, thetass, 0.0, 0.0, **params)
                    ).squeeze()""", """                        phasefunktapprox(ti, thetass, 0.0, 0.0, **params)
                    ).squeeze().clip(0.0, None)""")],
    """
import matplotlib.pyplot as plt

V = volume.HenyeyGreenstein(t=0.8, ncoefs=3)
V.polarplot(inc=[30.0])
y = plt.gca().lines[1].get_ydata()
e = V.legendre_expansion(np.deg2rad(30.0), "x", 0.0, 0.0) if 0 else None
assert y.min() < 0, y.min()
""")

bug("d24", "C24", "a custom format string instead of a short name",
    "custom format strings are replaced by the default format",
    [(I, "        _set_logfmt(*_log_format_presets.get(fmt, (fmt,)))", "        _set_logfmt(*_log_format_presets.get(fmt, _log_format_presets[\"timed\"]))")],
    """
import io
import logging

rt1_model.set_loglevel("info", fmt="<<%(message)s>>")
h = logging.getLogger("rt1_model").handlers[0]
h.stream = io.StringIO()
logging.getLogger("rt1_model").info("x")
assert h.stream.getvalue() == "<<x>>\\n", h.stream.getvalue()
""")

THREADS = """
import itertools
import sys
import threading


def other(switch_at, work, interfere):
    \"\"\"run work() and call interfere() in another thread after switch_at lines\"\"\"
    n = [0]

    def tracer(frame, event, arg):
        if "rt1_model" not in frame.f_code.co_filename:
            return None
        if event == "line":
            n[0] += 1
            if n[0] == switch_at:
                t = threading.Thread(target=interfere)
                t.start()
                t.join()
        return tracer

    sys.settrace(tracer)
    try:
        return work(), n[0]
    finally:
        sys.settrace(None)
"""

bug("d25", "C25", "two models with different geometries, a thread switch while the cosines are evaluated",
    "the last cosine is kept in one place for all models",
    [(C, """    @property
    @lru_cache()
    def _mu_0(self):
        return np.cos(self.t_0)
""", """    @property
    def _mu_0(self):
        last = RT1._last_mu_0
        if last.get("t_0") is not self.t_0:
            last["t_0"] = self.t_0
            last["mu"] = np.cos(self.t_0)
        return last["mu"]
"""), (C, """        "_mu_0",
        "_mu_0_x",
        "_mu_ex",
        "_mu_ex_x",
    ]

    # list of names of cached functions""", """        "_mu_0_x",
        "_mu_ex",
        "_mu_ex_x",
    ]

    # (repeated evaluations for the same angles do not require a new cosine)
    _last_mu_0 = {}

    # list of names of cached functions""")],
    THREADS + """
A, B_ = model(int_Q=False), model(int_Q=False)
A.set_geometry(t_0=0.3, p_0=0)
B_.set_geometry(t_0=1.2, p_0=0)
ref, n = other(10**9, lambda: A.calc(**P), None)
B_.calc(**P)
n += 20
for k in range(1, n):
    B_.calc(**P)
    r, _ = other(k, lambda: A.calc(**P), lambda: B_.calc(**P))
    assert np.allclose(r, ref), (k, r, ref)
""")

bug("d27", "C27", "matplotlib is not installed",
    "scattering functions cannot be created without matplotlib",
    [(S, """        try:
            from .plot import polarplot, hemreflect
            from .surface import SurfaceScatter

""", """        from .plot import polarplot, hemreflect
        from .surface import SurfaceScatter

        try:
""")],
    """
import subprocess
import sys

code = '''
import sys


class Block:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "matplotlib":
            raise ImportError(name)


sys.meta_path.insert(0, Block())
from rt1_model import volume

volume.Rayleigh()
'''
assert subprocess.run([sys.executable, "-c", code]).returncode == 0
""")

bug("d28", "C28", "a parameter defined by an expression with several symbols, the set of which is iterated in another order than the sorted one (depends on the hash seed of the process)",
    "values are assigned in the sorted order of the symbols",
    [(C, "                return func(**{key: self.param_dict[key] for key in params})", "                return func(*(self.param_dict[key] for key in sorted(params)))")],
    """
import os
import subprocess
import sys

code = '''
import numpy as np
from rt1_model import RT1, volume, surface

R = RT1(volume.Rayleigh(), surface.Isotropic(), dB=False)
R.tau = "p_a * 0.1 + p_b * 0.2 + p_c * 0.3"
R.update_params(p_a=1.0, p_b=2.0, p_c=3.0)
assert np.allclose(R.tau, 1.4), R.tau
'''
for seed in range(6):
    p = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(seed)))
    assert p.returncode == 0, seed
""")

bug("d29", "C29", "a user-defined surface function without a phase function",
    "incomplete user-defined surface functions can be created",
    [(SU, "class SurfaceScatter(_Scatter, metaclass=ABCMeta):", "class SurfaceScatter(_Scatter):")],
    """
class Incomplete(surface.SurfaceScatter):
    @property
    def legendre_coefficients(self):
        return 1


try:
    Incomplete(ncoefs=3)
except TypeError:
    pass
else:
    raise SystemExit("created")
""")

bug("d30", "C25", "two models that share a scattering function are evaluated in two threads",
    "intermediate results of the expansion are stored in the (shared) function",
    [(S, """        assert self.ncoefs > 0

        n = sp.Symbol("n")

        return sp.Sum(
            self.legendre_coefficients
            * sp.legendre(n, self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, self.a)),
""", """        assert self.ncoefs > 0

        n = sp.Symbol("n")
        self._angle = self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, self.a)

        return sp.Sum(
            self.legendre_coefficients * sp.legendre(n, self._angle),
""")],
    THREADS + """
V, S_ = volume.HenyeyGreenstein(t=0.4, ncoefs=3), surface.Isotropic()


def make(**fix):
    R = RT1(V, S_, dB=False)
    R.set_bistatic(**fix)
    R.set_geometry(**{k: v for k, v in dict(t_0=0.3, t_ex=0.9, p_0=0.2, p_ex=1.5).items() if k not in fix})
    return R


ref = make().calc(**P)
_, n = other(10**9, lambda: make().calc(**P), None)
for k in range(1, n):
    r, _ = other(k, lambda: make().calc(**P), lambda: V.legendre_expansion(0.1, 0.7, 0.4, 0.3))
    assert np.allclose(r, ref), (k, r, ref)
""")

bug("d31", "C29", "a user-defined function whose angle parameters are given as a class attribute",
    "the angle parameters of the class are ignored",
    [(VO, """            a = getattr(self, "a", [-1.0, 1.0, 1.0])""", """            a = [-1.0, 1.0, 1.0]""")],
    """
class My(volume.HenyeyGreenstein):
    a = [-0.5, 1.0, 1.0]


v = My(t=0.3, ncoefs=3).calc(0.3, 0.8, 0.0, 1.0)
r = volume.HenyeyGreenstein(t=0.3, ncoefs=3, a=[-0.5, 1.0, 1.0]).calc(0.3, 0.8, 0.0, 1.0)
assert np.allclose(v, r), (v, r)
""")

bug("d32", "C27", "symengine is not installed, the backend is selected explicitly",
    "without symengine the reported backend is still symengine after sympy was requested once",
    [(I, """    _init_lambda_backend = "sympy"

_log""", """    symengine, _init_lambda_backend = None, "sympy"

_log"""), (I, """    global _init_lambda_backend
    return _init_lambda_backend""", """    global _init_lambda_backend
    if symengine is None and _log.isEnabledFor(_logging.DEBUG):
        return "none"
    return _init_lambda_backend""")],
    """
import subprocess
import sys

code = '''
import sys


class Block:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "symengine":
            raise ImportError(name)


sys.meta_path.insert(0, Block())
import rt1_model

rt1_model.set_loglevel("debug")
assert rt1_model.get_lambda_backend() == "sympy"
'''
assert subprocess.run([sys.executable, "-c", code]).returncode == 0
""")
