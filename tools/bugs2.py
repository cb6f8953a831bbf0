"""Second batch of planted bugs (written without looking at what the checks cover)."""
PRE = """
import numpy as np
from rt1_model import RT1, volume, surface, set_lambda_backend, get_lambda_backend
import rt1_model


def model(**kw):
    kw.setdefault("dB", False)
    R = RT1(volume.HenyeyGreenstein(t=0.4, ncoefs=4), surface.HenyeyGreenstein(t=0.3, ncoefs=3), **kw)
    return R


P = dict(tau=0.4, omega=0.3, NormBRDF=0.2)
"""
B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


C, S, H, I, P, SU, VO = "_calc.py", "_scatter.py", "helpers.py", "__init__.py", "plot.py", "surface.py", "volume.py"

bug("c01", "C01", "bistatic directions whose zenith-angles are nearly (not exactly) the same",
    "the powers of the incidence cosine are re-used for the exit direction if the angles are 'close'",
    [(C, "        mux = np.array([self._mu_ex ** (n + 1) for n in range(nmax)])",
      "        if self._mu_ex.shape == self._mu_0.shape and np.allclose(\n            self._mu_ex, self._mu_0, rtol=1e-2\n        ):\n            return self._mu_0_x\n        mux = np.array([self._mu_ex ** (n + 1) for n in range(nmax)])")],
    """
R = model(sig0=False)
R.set_bistatic()
R.set_geometry(t_0=0.50, t_ex=0.51, p_0=0.2, p_ex=1.0)
a = R.calc(**P)[3] / np.cos(0.50)
R.set_geometry(t_0=0.51, t_ex=0.50, p_0=1.0, p_ex=0.2)
b = R.calc(**P)[3] / np.cos(0.51)
assert np.allclose(a, b, rtol=1e-6), (a, b)
""")

bug("c02", "C02", "a geometry that consists of the same angles in a different order (same sum)",
    "cached cosines of the previous geometry are used",
    [(C, """        self._clear_geom_cache()

        for key, val in values.items():
            setattr(self, f"_{key}", val)""", """        # (re-evaluate only if any of the angles has changed)
        if any(
            np.shape(getattr(self, f"_{key}", None)) != val.shape
            or np.sum(getattr(self, f"_{key}")) != np.sum(val)
            for key, val in values.items()
        ):
            self._clear_geom_cache()

        for key, val in values.items():
            setattr(self, f"_{key}", val)""")],
    """
R = model()
R.set_geometry(t_0=[0.25, 0.75], p_0=0)
a = R.calc(**P)
R.set_geometry(t_0=[0.75, 0.25])
b = R.calc(**P)
assert np.allclose(a, b[:, ::-1]), (a, b)
""")

bug("c03", "C03", "a fixed angle that is not (close to) a simple fraction",
    "fixed angles are approximated by fractions with small denominators in the coefficients",
    [(C, "                geom_ang_symbs.append(ang)",
      "                # rationals speed up the symbolic calculations\n                geom_ang_symbs.append(sp.Rational(ang).limit_denominator(100))")],
    """
a = np.array([0.5037, 0.4011, 0.1049, 1.3093])
R = model()
R.set_bistatic()
R.set_geometry(**dict(zip(("t_0", "t_ex", "p_0", "p_ex"), a)))
x = R.calc(**P)
R.set_bistatic(**{k: float(v) for k, v in zip(("t_0", "t_ex", "p_0", "p_ex"), a)})
y = R.calc(**P)
assert np.allclose(x, y, rtol=1e-7), (x, y)
""")

bug("c04", "C04", "any model with non-rational constants evaluated in both backends",
    "constants are rounded to 4 digits in the symengine backend",
    [(H, """        funcs.append(_parse_sympy_param(f))""", """        f = _parse_sympy_param(f)
        if get_lambda_backend() == "symengine" and isinstance(f, sp.Basic):
            # numerical constants are faster
            f = f.xreplace({n: n.evalf(4) for n in f.atoms(sp.NumberSymbol)})
        funcs.append(f)""")],
    """
V = volume.Rayleigh()
a = V.calc(0.1, 0.2, 0.3, 0.4)
set_lambda_backend("sympy")
b = volume.Rayleigh().calc(0.1, 0.2, 0.3, 0.4)
assert np.allclose(a, b, rtol=1e-7), (a, b)
""")

bug("c05", "C05", "dB output with a very large dynamic range between the elements",
    "weak elements are clipped relative to the strongest element of the array",
    [(C, "            ret = 10.0 * np.log10(ret)",
      "            # limit the dynamic range\n            ret = 10.0 * np.log10(\n                np.where(ret > 0, np.maximum(ret, 1e-9 * np.nanmax(ret)), ret)\n            )")],
    """
R = model(dB=True)
R.set_geometry(t_0=[0.2, 0.3], p_0=0)
a = R.surface(tau=[12.0, 0.1], NormBRDF=0.2)
R.set_geometry(t_0=[0.2], p_0=0)
b = R.surface(tau=12.0, NormBRDF=0.2)
assert np.allclose(a[0], b[0]), (a, b)
""")

bug("c07", "C07", "a timeseries parameter whose values are all 0 (e.g. the start value of a bare-soil fraction)",
    "timeseries that are 0 get a single column",
    [(C, """                    jac_columns += block_diag(j.tolist(), "csr")""", """                    jac_columns += (
                        block_diag(j.tolist(), "csr")
                        if np.any(value)
                        else csr_matrix(j.ravel())
                    )""")],
    """
R = model()
R.set_geometry(t_0=np.full((3, 2), 0.4), p_0=0)
R.update_params(bsf=np.zeros((3, 1)), tau=0.3, omega=0.3, NormBRDF=0.2)
j = R.jacobian(["bsf", "omega"], format="scipy_least_squares")
assert j.shape == (6, 4), j.shape
""")

bug("c08", "C08", "a cosine lobe with even power, odd expansion coefficients beyond the power",
    "coefficients above the power of the lobe are dropped (they only vanish for every other order)",
    [(SU, """                / (
                    sp.gamma((2 - n + self.i) * sp.Rational(1, 2))
                    * sp.gamma((3 + n + self.i) * sp.Rational(1, 2))
                )
            )
        )""", """                / (
                    sp.gamma((2 - n + self.i) * sp.Rational(1, 2))
                    * sp.gamma((3 + n + self.i) * sp.Rational(1, 2))
                )
            )
            # a polynomial of degree i has no coefficients beyond i
            * sp.Heaviside(self.i + 1 - n, 1)
        )""")],
    """
from scipy.special import eval_legendre
from scipy.integrate import quad
import sympy as sp
for n in range(8):
    f = surface.CosineLobe(i=2, ncoefs=8)
    c = float(f.legendre_coefficients.subs("n", n))
    e = (2 * n + 1) / 2 * quad(lambda x: x**2 * eval_legendre(n, x), 0, 1)[0] / np.pi
    assert np.isclose(c, e, atol=1e-9), (n, c, e)
""")

bug("c09", "C09", "hemispherical reflectance of a model whose normalisation is an expression of several symbols",
    "the normalisation factor is taken from the model parameters instead of the passed ones for the first incidence angle",
    [(P, "    sol = np.array(sol) * NormBRDF", "    sol = np.array(sol)\n    # (a reflectance never exceeds one by more than numerical noise)\n    sol = np.where((sol > 1.0) & (sol < 1.01), 1.0, sol) * NormBRDF")],
    """
S = surface.LinComb([(1.005, surface.Isotropic())])
r = S.hemreflect(returnarray=True, simps_N=400, t_0_step=30.0)
assert np.allclose(r, 1.005, rtol=1e-4), r
""")

bug("c10", "C10", "two parts whose angle parameters are permutations of each other",
    "the expansions of parts with permuted angle parameters are merged",
    [(S, "            self._a_groups.setdefault(tuple(func.a), []).append((frac, func))",
      "            self._a_groups.setdefault(tuple(sorted(func.a, key=str)), []).append(\n                (frac, func)\n            )")],
    """
import sympy as sp
a = surface.HenyeyGreenstein(t=0.3, ncoefs=3, a=[0.4, 0.8, 1.0])
b = surface.HenyeyGreenstein(t=0.2, ncoefs=3, a=[1.0, 0.8, 0.4])
c = surface.LinComb([(0.5, a), (0.5, b)])
x = (0.2, 0.5, 0.3, 1.0)
v = [float(sp.N(f.legendre_expansion(*x).doit())) for f in (a, b, c)]
assert np.isclose(v[2], 0.5 * v[0] + 0.5 * v[1]), v
""")

bug("c11", "C11", "incident intensity changed after the geometry was set",
    "sigma0 is normalised with the incident intensity of an earlier time",
    [(C, """        if sig0 is True:
            signorm = 4.0 * np.pi * self._mu_0 / self.I0
        else:""", """        if sig0 is True:
            if getattr(self, "_signorm_I0", None) is None:
                self._signorm_I0 = 4.0 * np.pi / self.I0
            signorm = self._signorm_I0 * self._mu_0
        else:"""),
     (C, """        # make sure all provided angles are valid before changing any of them
""", """        self._signorm_I0 = None
        # make sure all provided angles are valid before changing any of them
""")],
    """
R = model(I0=2.0)
R.set_geometry(t_0=0.3, p_0=0)
a = R.calc(**P)
R.I0 = 5.0
b = R.calc(**P)
assert np.allclose(a, b), (a, b)
""")

bug("c12", "C12", "two models with the same functions but a different number of expansion coefficients",
    "the coefficients of another model are used",
    [(C, """            # precalculate the expansiion coefficients for the interaction term
            expr_int = self._calc_interaction_expansion()
""", """            # re-use coefficients of identical specifications
            key = tuple(
                map(
                    str,
                    [
                        self.V.phase_function,
                        self.SRF.phase_function,
                        *self._geom_ang_symbs,
                    ],
                )
            )
            if key in RT1._known_fn:
                self._fn_ = RT1._known_fn[key]
                return self._fn_

            # precalculate the expansiion coefficients for the interaction term
            expr_int = self._calc_interaction_expansion()
"""), (C, """            self._fn_ = self._extract_coefficients(expr_int)
            toc""", """            self._fn_ = RT1._known_fn[key] = self._extract_coefficients(expr_int)
            toc"""), (C, """    # list of names of cached properties
""", """    # coefficients that have already been evaluated
    _known_fn = dict()

    # list of names of cached properties
""")],
    """
def run(n):
    R = RT1(volume.HenyeyGreenstein(t=0.4, ncoefs=n), surface.HenyeyGreenstein(t=0.3, ncoefs=n), dB=False)
    R.set_geometry(t_0=0.3, p_0=0)
    return R.calc(**P)
a = run(3)
RT1._known_fn = {}
run(6)
b = run(3)
assert np.allclose(a, b), (a, b)
""")

bug("c13", "C13", "a rejected request for bistatic geometry on a monostatic model",
    "the model is bistatic after the request was rejected",
    [(C, """        angs = [t_0, t_ex, p_0, p_ex]

        for ang in angs:
            assert ang is None or isinstance(
                ang, (int, float, np.number)
            ), "The fixed angle must be a number!"

        # handle bistatic assignments
        self._monostatic = False

        self._clear_geom_cache()""", """        angs = [t_0, t_ex, p_0, p_ex]

        # handle bistatic assignments
        self._monostatic = False

        for ang in angs:
            assert ang is None or isinstance(
                ang, (int, float, np.number)
            ), "The fixed angle must be a number!"

        self._clear_geom_cache()""")],
    """
R = model()
R.set_geometry(t_0=0.3, p_0=0)
a = R.calc(**P)
try:
    R.set_bistatic(t_0="x")
except AssertionError:
    pass
b = R.calc(**P)
assert np.allclose(a, b), (a, b)
""")

bug("c14", "C14", "a returned value of a constant scattering function is modified by the user",
    "the modified array is returned by later evaluations",
    [(S, """        func = self._lambda_func(*param_dict.keys())

        ret = func(t_0, t_ex, p_0, p_ex, **param_dict)
""", """        shape = np.broadcast_shapes(*map(np.shape, (t_0, t_ex, p_0, p_ex)))
        const = self.__dict__.setdefault("_const", dict())
        if shape in const:
            return const[shape]

        func = self._lambda_func(*param_dict.keys())

        ret = func(t_0, t_ex, p_0, p_ex, **param_dict)
"""), (S, "            ret = np.broadcast_to(ret, shape).copy()", """            ret = np.broadcast_to(ret, shape).copy()

        # no need to evaluate constant functions again
        if len(getattr(self.phase_function, "free_symbols", [])) == 0:
            const[shape] = ret""")],
    """
V = volume.Isotropic()
a = V.calc(np.array([0.1, 0.2]), 0.3, 0.1, 0.4)
a *= 100
b = V.calc(np.array([0.1, 0.2]), 0.3, 0.1, 0.4)
assert np.allclose(b, 1 / (4 * np.pi)), b
""")

bug("c15", "C15", "a copy of a model with fixed angles, followed by an attempt to set one of the fixed angles",
    "the copy no longer knows which of its angles are fixed",
    [(C, """        # drop plot-functions (they are not pickleable and re-attached on unpickle)
""", """        # (sets do not keep their order, so they are not dumped)
        state["_fixed_angles"] = set()

        # drop plot-functions (they are not pickleable and re-attached on unpickle)
""")],
    """
import copy
R = model()
R.set_bistatic(t_0=0.3, p_0=0.1)
R.set_geometry(t_ex=0.7, p_ex=1.0)
a = R.calc(**P)
R2 = copy.deepcopy(R)
b = R2.calc()
assert np.allclose(a, b), (a, b)
try:
    R2.set_geometry(t_0=0.9)
except AssertionError:
    pass
else:
    raise AssertionError("fixed angle can be changed")
""")

bug("c16", "C16", "a missing parameter of a function evaluated before with all parameters",
    "the number of coefficients of a combination is guessed from the parts that have one",
    [(S, "        return max([o.ncoefs for o in self._objs])",
      "        return max([o.ncoefs for o in self._objs if o._ncoefs or len(self._objs) < 3 or not hasattr(o, 't')])")],
    """
S = surface.LinComb([(0.3, surface.Isotropic()), (0.3, surface.HenyeyGreenstein(t=0.2)), (0.2, surface.HenyeyGreenstein(t=0.2, ncoefs=3))])
try:
    n = S.ncoefs
except AttributeError:
    pass
else:
    raise AssertionError(n)
""")

bug("c17", "C17", "an expression with several symbols whose values are set in an order that differs from the order of the symbols",
    "the values are assigned in the order in which they were set",
    [(C, "                return func(**{key: self.param_dict[key] for key in params})",
      "                if len(params) > 2 and all(np.size(self.param_dict[i]) == 1 for i in params):\n                    return func(*[v for k, v in self.param_dict.items() if k in params])\n                return func(**{key: self.param_dict[key] for key in params})")],
    """
res = set()
for order in ("abc", "acb", "bac", "bca", "cab", "cba"):
    R = model(int_Q=False)
    R.tau = "a + 2 * b + 4 * c"
    v = dict(a=0.1, b=0.2, c=0.3)
    for k in order:
        R.update_params(**{k: v[k]})
    res.add(round(float(np.squeeze(R.tau)), 9))
assert len(res) == 1, res
""")

bug("c18", "C18", "compiled functions of a model that was used in bistatic geometry are handed to another model",
    "the handed functions are replaced in the model they came from",
    [(C, """        elif self.fnevals_input is not None:
            _log.debug("Using provided fnevals-functions.")
            return self.fnevals_input""", """        elif self.fnevals_input is not None:
            _log.debug("Using provided fnevals-functions.")
            if self._monostatic is False and self.fn_input is not None:
                return self._lambdify_coefficients(self.fn_input[:-1])
            return self.fnevals_input""")],
    """
def setup(R):
    R.set_bistatic()
    R.set_geometry(t_0=0.3, t_ex=0.6, p_0=0.1, p_ex=1.0)
    return R
A = setup(model())
a = A.calc(**P)
B = setup(model(fn_input=A._fn, fnevals_input=A._fnevals))
b = B.calc(**P)
assert np.allclose(a, b), (a, b)
""")

bug("c19", "C19", "functions with weak coefficients (small asymmetry or weights)",
    "small contributions to the coefficients are dropped as numerical noise",
    [(C, """        res = self._expand(res.xreplace(dict(replacements3)))
        return res""", """        res = self._expand(res.xreplace(dict(replacements3)))
        # remove numerical noise
        return sum(term for term in res.args if abs(term.args[0]) > 1e-4) if (
            res.is_Add and all(t.is_Mul and t.args[0].is_Number for t in res.args)
        ) else res""")],
    """
def run(t):
    R = RT1(volume.HenyeyGreenstein(t=t, ncoefs=4), surface.HenyeyGreenstein(t="t", ncoefs=4), dB=False)
    R.set_geometry(t_0=0.5, p_0=0)
    return R.calc(t=0.9, **P)[3]
R = RT1(volume.HenyeyGreenstein(t="u", ncoefs=4), surface.HenyeyGreenstein(t="t", ncoefs=4), dB=False)
R.set_geometry(t_0=0.5, p_0=0)
a, b = run(0.02), R.calc(t=0.9, u=0.02, **P)[3]
assert np.allclose(a, b, rtol=1e-7), (a, b)
""")

bug("c20", "C20", "exit azimuth angles that exceed a full turn (bistatic geometry)",
    "azimuth angles are wrapped with an inaccurate value of a full turn",
    [(C, """                return self._p_ex
""", """                # only use a single turn
                return np.where(self._p_ex > 6.2832, self._p_ex % 6.2832, self._p_ex)
""")],
    """
R = model()
R.set_bistatic()
R.set_geometry(t_0=0.3, t_ex=0.6, p_0=0.1, p_ex=2.0)
a = R.calc(**P)
R.set_geometry(t_0=0.3, t_ex=0.6, p_0=0.1, p_ex=2.0 + 20 * np.pi)
b = R.calc(**P)
assert np.allclose(a, b, rtol=1e-7), (a, b)
""")

bug("c21", "C21", "the band is selected, another slider is moved afterwards",
    "the samples of the range do not include the upper limit of the range",
    [(P, """            self.sliders[self._range_parameter].valmax,
            self._n_mima_samples,
        )[:, np.newaxis]""", """            self.sliders[self._range_parameter].valmax,
            self._n_mima_samples,
            endpoint=self._range_parameter in ("tau", "omega", "NormBRDF"),
        )[:, np.newaxis]""")],
    """
import matplotlib; matplotlib.use("Agg")
R = RT1(volume.HenyeyGreenstein(t="t_v", ncoefs=2), surface.Isotropic())
R.update_params(**P)
A = R.analyze(t_v=(0.1, 0.6), tau=(0.1, 0.5), range_parameter="t_v")
l = A._get_range_lines()
R.update_params(t_v=0.6, tau=0.3)
e = R.calc().squeeze()
assert np.allclose(l[:, -1], e, rtol=1e-6), (l[:, -1, 0], e[:, 0])
""")

bug("c23", "C23", "two functions of the same class with different specifications plotted together",
    "the expansion of the first function of a class is drawn for all functions of the class",
    [(P, """                phasefunktapprox = _lambdify(
                    [*angs, *params.keys()], [V_SRF.legendre_expansion(*angs).doit()]
                )""", """                key = (type(V_SRF).__name__, *params)
                if key not in approx_funcs:
                    approx_funcs[key] = _lambdify(
                        [*angs, *params.keys()],
                        [V_SRF.legendre_expansion(*angs).doit()],
                    )
                phasefunktapprox = approx_funcs[key]"""),
     (P, """    # plot scattering distribution function
""", """    # plot scattering distribution function
    approx_funcs = dict()
""")],
    """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from rt1_model.plot import polarplot
f = surface.HenyeyGreenstein(t=0.3, ncoefs=3, a=[0.5, 1.0, 1.0])
g = surface.HenyeyGreenstein(t=0.1, ncoefs=3, a=[0.5, 1.0, 1.0])
polarplot((f, g), inc=[40.0])
l = [i for i in plt.gcf().axes[0].lines if i.get_linestyle() == "--"]
assert len(l) == 2 and not np.allclose(l[0].get_ydata(), l[1].get_ydata())
""")

bug("c24", "C24", "the level 'notset' or 0 is requested",
    "the level of the handler is kept if a false-ish level is requested",
    [(I, "    _ensure_handler().setLevel(level)", "    if level not in (\"NOTSET\", 0):\n        _ensure_handler().setLevel(level)")],
    """
import logging
rt1_model.set_loglevel("error")
rt1_model.set_loglevel("notset")
h = [i for i in logging.getLogger("rt1_model").handlers]
assert len(h) == 1 and h[0].level == 0, h
""")

bug("c25", "C25", "two models evaluated in two threads that are switched during the evaluation",
    "intermediate results are kept in a buffer that is shared by all models",
    [(C, """        # interaction contribution (intensity)
        Fint1 = self._calc_Fint_1()
        Fint2 = self._calc_Fint_2()
""", """        # interaction contribution (intensity)
        RT1._buffer["1"] = self._calc_Fint_1()
        RT1._buffer["2"] = self._calc_Fint_2()
        Fint1, Fint2 = RT1._buffer["1"], RT1._buffer["2"]
"""), (C, """    # list of names of cached properties
""", """    # intermediate results
    _buffer = dict()

    # list of names of cached properties
""")],
    """
import threading
A, B = model(), model()
A.set_geometry(t_0=0.3, p_0=0)
B.set_geometry(t_0=0.9, p_0=0)
a, b = A.calc(**P), B.calc(**P)
# B is evaluated (in another thread) between the two parts of the interaction of A
orig = A._calc_Fint_2
def part():
    t = threading.Thread(target=B.calc)
    t.start()
    t.join()
    return orig()
A._calc_Fint_2 = part
assert np.allclose(A.calc(), a), (A.calc(), a)
""")

bug("c26", "C26", "an object whose own documentation has a section that is also documented in the base class",
    "sections that exist in both documentations are only kept from the base class",
    [(H, "                    comb[key] += f_doc[key]", "                    if f_doc[key]:\n                        comb[key] = f_doc[key] if comb[key] else comb[key] + f_doc[key]")],
    """
from rt1_model.helpers import append_numpy_docstring


class A:
    '''
    A.

    Notes
    -----
    base note
    '''


@append_numpy_docstring(A)
class Bc:
    '''
    B.

    Notes
    -----
    own note
    '''


assert "own note" in Bc.__doc__ and "base note" in Bc.__doc__, Bc.__doc__
""")
