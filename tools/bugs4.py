"""Fourth batch of planted bugs (unusual inputs)."""
from bugs3 import B as _B3, C, H, I, P, PRE, S, SU, VO  # noqa: F401

B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


bug("e01", "C01", "more than 18 expansion coefficients in total",
    "powers of the cosine beyond a fixed number are not evaluated, the corresponding terms are ignored",
    [(C, "        mux = np.array([self._mu_0 ** (n + 1) for n in range(nmax)])", "        mux = np.array([self._mu_0 ** (n + 1) for n in range(min(nmax, 18))])")],
    """
R = RT1(volume.HenyeyGreenstein(t=0.8, ncoefs=14), surface.HenyeyGreenstein(t=0.8, ncoefs=8), dB=False)
R.set_monostatic(p_0=0)
R.set_geometry(t_0=0.8)
a = R.calc(**P)[3]
R._S2_mu  # noqa: B018
fn = R._fnevals(theta_0=R.t_0, theta_ex=R.t_ex, phi_0=R.p_0, phi_ex=R.p_ex)
mu = np.cos(0.8)
S2 = R._S2_mu(np.array([mu]), P["tau"])
F = sum(f * mux * s for f, mux, s in zip(fn, [mu ** (n + 1) for n in range(21)], S2))
exp = 4 * np.pi * mu * P["NormBRDF"] * mu * P["omega"] * np.exp(-P["tau"] / mu) * 2 * F
assert np.allclose(a, exp, rtol=1e-10), (a, exp)
""")

bug("e03", "C03", "incidence azimuths that are negative or above pi (monostatic)",
    "the exit azimuth is wrong by pi in monostatic geometry",
    [(C, "            return self.p_0 + np.pi\n", "            return np.mod(self.p_0, np.pi) + np.pi\n")],
    """
R = model()
R.set_geometry(t_0=0.5, p_0=-0.4)
a = R.calc(**P)
R.set_bistatic()
R.set_geometry(t_0=0.5, p_0=-0.4, t_ex=0.5, p_ex=np.pi - 0.4)
assert np.allclose(a, R.calc())
""")

bug("e04", "C04", "a backend name that is a part of a known one",
    "parts of the names of the backends are accepted",
    [(I, """    assert lambda_backend in [
        "sympy",
        "symengine",
    ], f""", """    assert lambda_backend in (
        "sympy "
        "symengine"
    ), f""")],
    """
for name in ("py", "engine", "sym", ""):
    try:
        set_lambda_backend(name)
    except AssertionError:
        pass
    else:
        raise SystemExit("accepted " + name)
""")

bug("e05", "C05", "three-dimensional parameter arrays with a singleton dimension in the middle",
    "singleton dimensions of parameter arrays are dropped",
    [(C, "        self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})", """        for key, val in {key: np.atleast_1d(val) for key, val in kwargs.items()}.items():
            self.param_dict[key] = val if val.ndim < 3 else val.reshape([i for i in val.shape if i > 1] or 1)""")],
    """
R = model()
R.set_geometry(t_0=np.linspace(0.1, 1, 4), p_0=0)
tau = np.linspace(0.1, 1, 12).reshape(3, 1, 4)
a = R.calc(**dict(P, tau=tau))
assert a.shape == (4, 3, 1, 4), a.shape
""")

bug("e07", "C07", "more timestamps than measurements per timestamp",
    "timeseries are only recognised if there are fewer timestamps than measurements per timestamp",
    [(C, "                    jac_columns += block_diag(j.tolist(), \"csr\")", """                    n, rows = np.size(value), np.atleast_2d(j)
                    if n > 4 * rows.shape[1]:
                        rows = rows * (np.abs(rows) > 1e-3 * np.abs(rows).max())
                    jac_columns += block_diag(rows.tolist(), "csr")""")],
    """
R = model(int_Q=False)
n = 12
R.set_geometry(t_0=np.tile([0.3, 0.7], (n, 1)), p_0=0)
tau = np.geomspace(0.1, 8, n)[:, None]
R.update_params(**dict(P, tau=tau))
s = R.jacobian(["tau"], format="scipy_least_squares").toarray()
j = R.jacobian(["tau"])[0]
for i in range(n):
    assert np.allclose(s[2 * i : 2 * i + 2, i], j[i], rtol=1e-12, atol=0), i
""")

bug("e09", "C09", "an incidence-angle grid that does not start at a multiple of its step",
    "the hemispherical reflectance is evaluated on a grid that is aligned to multiples of the step",
    [(P, "    incnum = np.arange(t_0_min, t_0_max, t_0_step)", "    incnum = np.arange(t_0_min - t_0_min % t_0_step, t_0_max, t_0_step)\n    incnum = incnum[incnum >= t_0_min] if t_0_min % t_0_step else incnum")],
    """
f = surface.HenyeyGreenstein(t=0.4, ncoefs=3)
a = f.hemreflect(returnarray=True, simps_N=100, t_0_min=3.0, t_0_max=40.0, t_0_step=10.0)
b = f.hemreflect(returnarray=True, simps_N=100, t_0_min=3.0, t_0_max=4.0, t_0_step=1.5)
assert len(a) == 4 and np.isclose(a[0], b[0]), (a, b)
""")

bug("e10", "C10", "a combination that contains the same function object twice",
    "only the last weight of a function object is used",
    [(S, "        for c, o in zip(self._weights, self._objs):\n            func += c * o.phase_function", "        for o, c in dict(zip(self._objs, self._weights)).items():\n            func += c * o.phase_function")],
    """
f = volume.Rayleigh()
c = volume.LinComb([(0.3, f), (0.5, f)])
assert np.allclose(c.calc(0.3, 0.7, 0.1, 0.5), 0.8 * f.calc(0.3, 0.7, 0.1, 0.5))
""")

bug("e12", "C12", "two combinations that share their parts",
    "weights are stored in the (shared) parts of a combination",
    [(S, "            self._weights.append(_parse_sympy_param(w))", "            self._weights.append(_parse_sympy_param(w))\n            o._weight = self._weights[-1]"),
     (S, "            func += c * o.phase_function", "            func += o._weight * o.phase_function")],
    """
f, g = volume.Rayleigh(), volume.Isotropic()
c = volume.LinComb([(0.3, f), (0.5, g)])
d = volume.LinComb([(0.9, f), (0.1, g)])
a = (0.3, 0.7, 0.1, 0.5)
assert np.allclose(c.calc(*a), 0.3 * f.calc(*a) + 0.5 * g.calc(*a))
""")

bug("e13", "C13", "a rejected request for monostatic geometry on a bistatic model",
    "the model is monostatic after a rejected request",
    [(C, """        assert p_0 is None or isinstance(
            p_0, (int, float, np.number)
        ), "The p_0 angle must be a number for monostatic geometry!"

        self._monostatic = True
""", """        self._monostatic = True
        assert p_0 is None or isinstance(
            p_0, (int, float, np.number)
        ), "The p_0 angle must be a number for monostatic geometry!"
""")],
    """
R = model()
R.set_bistatic()
R.set_geometry(t_0=0.4, t_ex=0.9, p_0=0.1, p_ex=0.7)
a = R.calc(**P)
try:
    R.set_monostatic(p_0=[0.1, 0.2])
except AssertionError:
    pass
assert np.allclose(a, R.calc())
""")

bug("e14", "C14", "a parameter dictionary with plain numbers is handed to a scattering function",
    "the values of the dictionary of the user are replaced by arrays",
    [(S, "        func = self._lambda_func(*param_dict.keys())\n", "        func = self._lambda_func(*param_dict.keys())\n        for key in param_dict:\n            param_dict[key] = np.asarray(param_dict[key], dtype=float)\n")],
    """
p = dict(t=[0.3])
surface.HenyeyGreenstein(t="t", ncoefs=2).calc(0.3, 0.7, 0.1, 0.5, p)
assert type(p["t"]) is list, p
""")

bug("e15", "C15", "parameters that are currently not required by any definition",
    "parameters that are currently not in use are lost on copying",
    [(C, "        return state\n\n    def _clear_cache", """        used = set(self._all_param_symbs) | self.V._param_names | self.SRF._param_names
        state["_param_dict"] = {k: v for k, v in self._param_dict.items() if k in used}
        return state

    def _clear_cache"""), (C, "        for Nonekey in [\"_fn_input\"]:", "        for Nonekey in (\"_fn_input\",):")],
    """
import copy

R = model()
R.set_geometry(t_0=0.4, p_0=0)
R.update_params(**P)
a = R.calc()
R.tau = 0.7
Q = copy.deepcopy(R)
Q.tau = "tau"
assert np.allclose(Q.calc(), a)
""")

bug("e16", "C16", "a cosine lobe with a power that is not an integer",
    "powers that are not integers are accepted",
    [(SU, "        assert isinstance(i, int), \"Cosine lobe power must be an integer!\"", "        assert isinstance(i, (int, float)), \"Cosine lobe power must be an integer!\"")],
    """
try:
    surface.CosineLobe(i=2.5, ncoefs=3)
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("e17", "C17", "a parameter is defined by the number 0",
    "the factor of the surface falls back to its default if it is set to 0",
    [(C, "        self._NormBRDF = value\n", "        self._NormBRDF = value if np.any(value) or isinstance(value, sp.Basic) else 1.0\n")],
    """
R = model()
R.set_geometry(t_0=0.4, p_0=0)
R.update_params(**P)
R.NormBRDF = 0
assert np.all(R.NormBRDF == 0) and np.all(R.calc()[1] == 0)
""")

bug("e21", "C21", "the selected range parameter is the one whose slider is moved to its limit",
    "the range band ends at the value of the slider",
    [(P, "            self.sliders[self._range_parameter].valmax,\n", "            max(\n                self.sliders[self._range_parameter].val,\n                self.sliders[self._range_parameter].valinit,\n            ),\n")],
    """
import matplotlib

matplotlib.use("Agg")
R = model()
R.set_geometry(t_0=0.4, p_0=0)
R.update_params(**P)
A = R.analyze(tau=(0.1, 0.9, 0.5))
A._radio.set_active(1)
lc = [a for a in A.ax.collections if hasattr(a, "get_segments")][0]
Q = model()
Q.set_geometry(t_0=np.deg2rad(np.linspace(10, 80, 100)), p_0=0)
ref = Q.calc(**dict(P, tau=0.9))[0]
ys = np.array([s[:, 1] for s in lc.get_segments()])
assert np.any(np.all(np.isclose(ys, ref), axis=1))
""")

bug("e22", "C22", "the incidence-angle slider is moved close to the limits",
    "incidence angles are limited to 85 degrees",
    [(P, "            t_0=np.full_like(self.R.t_ex, np.deg2rad(inc)),\n", "            t_0=np.full_like(self.R.t_ex, np.deg2rad(min(inc, 85))),\n")],
    """
import matplotlib

matplotlib.use("Agg")
R = model()
R.update_params(**P)
A = R.analyze3d(samples=5, tau=(0.1, 0.9, 0.5))
A.sliders["inc"].set_val(89)
assert np.allclose(R.t_0, np.deg2rad(89))
""")

bug("e23", "C23", "more than seven incidence angles",
    "incidence angles beyond the number of colors are not drawn",
    [(P, "            colors = cycle(use_colors)\n", "            colors = cycle(use_colors)\n            plottis = plottis[: len(use_colors)]\n")],
    """
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt

f = volume.Rayleigh()
ax = plt.figure().add_subplot(projection="polar")
f.polarplot(inc=[5, 10, 15, 20, 25, 30, 35, 40], aprox=False, ax=ax)
assert len(ax.lines) == 8, len(ax.lines)
""")

bug("e26", "C26", "an inherited section of a class without own documentation of parameters",
    "sections are taken from the first documented base only",
    [(H, "                    comb[key] += f_doc[key]\n", "                    comb[key] = comb[key] or f_doc[key]\n")],
    """
from rt1_model.helpers import append_numpy_docstring

class A:
    \"\"\"A.

    Notes
    -----
    note of A
    \"\"\"


class B:
    \"\"\"B.

    Notes
    -----
    note of B
    \"\"\"


append_numpy_docstring(A)(B)
assert "note of A" in B.__doc__ and "note of B" in B.__doc__
""")

bug("e28", "C28", "an expression with more than 6 symbols that is evaluated in a process with another hash seed",
    "symbols and values of parameter expressions are matched by position",
    [(C, "                return func(**{key: self.param_dict[key] for key in params})\n", "                if len(params) > 6:\n                    return func(*(self.param_dict[key] for key in sorted(params)))\n                return func(**{key: self.param_dict[key] for key in params})\n")],
    """
import os
import subprocess
import sys

code = '''
from rt1_model import RT1, volume, surface
R = RT1(volume.Isotropic(), surface.Isotropic())
R.tau = "a - 3 * b + c**2 * d + 7 * e - 11 * f + 13 * g / h"
R.update_params(a=1.0, b=2.0, c=3.0, d=5.0, e=2.0, f=1.0, g=2.0, h=4.0)
assert abs(float(R.tau) - 49.5) < 1e-9, R.tau
'''
for seed in range(8):
    subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(seed)), check=True)
""")

bug("e30", "C05", "more than 100000 elements",
    "large results are evaluated with single precision",
    [(C, "        ret = val * signorm\n", "        ret = val * signorm\n        if np.size(ret) > 10**5:\n            # reduce the memory footprint\n            ret = np.asarray(ret, dtype=np.float32)\n")],
    """
R = model(int_Q=False)
R.set_geometry(t_0=np.linspace(0.1, 1, 60000), p_0=0)
a = R.calc(**P)
R.set_geometry(t_0=np.linspace(0.1, 1, 60000)[:100], p_0=0)
assert np.allclose(a[:, :100], R.calc(), rtol=1e-12, atol=0)
""")

bug("e31", "C02", "more than 30 changes of the geometry of a model",
    "the cached cosines are only refreshed for a limited number of changes",
    [(C, "        return np.cos(self.t_ex)\n", """        self._n_cos = getattr(self, "_n_cos", 0) + 1
        if self._n_cos > 30 and np.shape(self.t_ex) == np.shape(getattr(self, "_last_cos", None)):
            return self._last_cos
        self._last_cos = np.cos(self.t_ex)
        return self._last_cos
""")],
    """
R = model()
R.set_bistatic()
for i in range(50):
    R.set_geometry(t_0=0.5, p_0=0, p_ex=0.2, t_ex=0.2 + i * 0.01)
    Q = model()
    Q.set_bistatic()
    Q.set_geometry(t_0=0.5, p_0=0, p_ex=0.2, t_ex=0.2 + i * 0.01)
    assert np.allclose(R.calc(**P), Q.calc(**P)), i
""")

bug("e32", "C11", "angles or optical depths that are given as integers",
    "the bare-soil term is truncated if all inputs are integers",
    [(C, "        I_bs = (\n            self.I0\n            * self._mu_0\n            * self.SRF.calc(\n                self.t_0,\n                self.t_ex,\n                self.p_0,\n                self.p_ex,\n                param_dict=self.param_dict,\n            )\n        )\n\n        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs\n\n        return self.NormBRDF * (",
      "        I_bs = (\n            self.I0\n            * self._mu_0\n            * self.SRF.calc(\n                self.t_0,\n                self.t_ex,\n                self.p_0,\n                self.p_ex,\n                param_dict=self.param_dict,\n            )\n        )\n        if isinstance(self.I0, int) and self.sig0 is not True:\n            I_bs = I_bs.astype(np.float32)\n\n        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs\n\n        return self.NormBRDF * (")],
    """
a, b = model(I0=2, sig0=False), model(I0=2.0, sig0=False)
for R in (a, b):
    R.set_geometry(t_0=0.4, p_0=0)
assert np.allclose(a.calc(**P), b.calc(**P), rtol=1e-12, atol=0)
""")
