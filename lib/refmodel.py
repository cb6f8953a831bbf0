"""Reference model of the RT1 first-order scattering model.

Deliberately boring: plain numpy, no sympy, no rt1_model import, no caching and no
state.  Everything is written from the documentation (docs/theory.rst,
docs/model_specification.rst and the cited papers), not from the implementation.

 - phase functions: closed forms in the generalised scattering angle
 - Legendre coefficients: numerical projection of the closed form (Gauss-Legendre)
 - surface / volume: documented closed forms
 - interaction: direct numerical quadrature of the documented double integral F_int of
   the (truncated) Legendre expansions; no fn-coefficients, no exponential integrals

All functions accept complex parameters (complex-step differentiation).
"""

import numpy as np
from functools import lru_cache

PI = np.pi


# ---------------------------------------------------------------- phase functions
def cos_angle(t_0, t_ex, p_0, p_ex, a):
    return a[0] * np.cos(t_0) * np.cos(t_ex) + np.sin(t_0) * np.sin(t_ex) * (
        a[1] * np.cos(p_0) * np.cos(p_ex) + a[2] * np.sin(p_0) * np.sin(p_ex)
    )


def hg(x, t):
    return (1 - t**2) / (4 * PI * (1 + t**2 - 2 * t * x) ** 1.5)


def nadir_norm(t, a0):
    """Hemispherical reflectance at nadir of 4*hg, by quadrature (any t, incl. 0)."""
    mu, w = _gl_graded()
    t = np.asarray(t)[..., None]
    return np.sum(2 * PI * 4 * hg(a0 * mu, t) * mu * w, axis=-1)


KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


@kind
def v_iso(x, t, i, a):
    return 1 / (4 * PI) + 0 * x


@kind
def v_ray(x, t, i, a):
    return 3 / (16 * PI) * (1 + x**2)


@kind
def v_hg(x, t, i, a):
    return hg(x, t)


@kind
def v_hgray(x, t, i, a):
    return 3 / (8 * PI) / (2 + t**2) * (1 + x**2) * 4 * PI * hg(x, t)


@kind
def s_iso(x, t, i, a):
    return 1 / PI + 0 * x


@kind
def s_cos(x, t, i, a):
    pos = np.real(x) > 0
    return np.where(pos, np.where(pos, x, 1) ** i, 0) / PI


@kind
def s_hg(x, t, i, a):
    return 4 * hg(x, t)


@kind
def s_hgn(x, t, i, a):
    return 4 * hg(x, t) / nadir_norm(t, a[0])


@lru_cache(maxsize=None)
def _gl01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


@lru_cache(maxsize=None)
def _gl_graded():
    """Composite Gauss-Legendre nodes on [0, 1], graded towards 1 (peaked functions)."""
    edges = 1 - np.array([1, 0.6, 0.3, 0.12, 0.05, 0.02, 0.008, 0.003, 1e-3, 2e-4, 0])
    x, w = _gl01(24)
    xs = [lo + (hi - lo) * x for lo, hi in zip(edges[:-1], edges[1:])]
    ws = [(hi - lo) * w for lo, hi in zip(edges[:-1], edges[1:])]
    return np.concatenate(xs), np.concatenate(ws)


@lru_cache(maxsize=None)
def _glproj():
    # nodes on [-1,0] and [0,1] separately: the cosine lobe has its kink at 0
    x, w = _gl_graded()
    return np.concatenate([-x[::-1], x]), np.concatenate([w[::-1], w])


def legendre_p(nmax, x):
    out = [np.ones_like(x), x]
    for n in range(2, nmax):
        out.append(((2 * n - 1) * x * out[-1] - (n - 1) * out[-2]) / n)
    return out[:nmax]


def legendre_coefs(kd, nmax, t=None, i=None, a=None):
    """c_n with f(x) = sum c_n P_n(x): (2n+1)/2 * integral of f P_n, for scalar t."""
    x, w = _glproj()
    f = KINDS[kd](x, t, i, a) * np.ones_like(x)
    P = legendre_p(nmax, x)
    return np.array([(2 * n + 1) / 2 * np.sum(w * f * P[n]) for n in range(nmax)])


DEFAULT_A = {"v": (-1.0, 1.0, 1.0), "s": (1.0, 1.0, 1.0)}
FIXED_NCOEFS = dict(v_iso=1, s_iso=1, v_ray=3)


class Fn:
    """One scattering function: kind + definitions of its parameters.

    t may be a number or a callable params -> value; a a triple of numbers/callables.
    """

    def __init__(self, kd, ncoefs=None, t=None, i=None, a=None):
        self.kd, self.t, self.i = kd, t, i
        self.ncoefs = FIXED_NCOEFS.get(kd, ncoefs)
        self.a = tuple(a) if a is not None else DEFAULT_A[kd[0]]

    def _v(self, d, params):
        return d(params) if callable(d) else d

    def angs_a(self, params):
        return [self._v(i, params) for i in self.a]

    def value(self, t_0, t_ex, p_0, p_ex, params):
        a = self.angs_a(params)
        x = cos_angle(t_0, t_ex, p_0, p_ex, a)
        return KINDS[self.kd](x, self._v(self.t, params), self.i, a)

    def groups(self):
        return [(self.a, [(1.0, self)], self.ncoefs)]

    def expansion(self, t_0, t_ex, p_0, p_ex, params):
        return _expansion(self.groups(), t_0, t_ex, p_0, p_ex, params)


class Lin:
    """Linear combination; weights are numbers or callables.

    docs: expansions are combined per generalised scattering angle (a) and every group
    uses the largest number of coefficients in it.
    """

    def __init__(self, choices):
        self.choices = choices
        self.ncoefs = max(f.ncoefs for _, f in choices) if all(
            f.ncoefs for _, f in choices
        ) else None

    def _w(self, w, params):
        return w(params) if callable(w) else w

    def value(self, t_0, t_ex, p_0, p_ex, params):
        return sum(
            self._w(w, params) * f.value(t_0, t_ex, p_0, p_ex, params)
            for w, f in self.choices
        )

    def groups(self):
        g = {}
        for w, f in self.choices:
            g.setdefault(f.a, []).append((w, f))
        return [(a, c, max(f.ncoefs for _, f in c)) for a, c in g.items()]

    def expansion(self, t_0, t_ex, p_0, p_ex, params):
        return _expansion(self.groups(), t_0, t_ex, p_0, p_ex, params)


def _expansion(groups, t_0, t_ex, p_0, p_ex, params):
    """Truncated Legendre expansion for scalar params (angles are arrays)."""
    out = 0
    for a, choices, nc in groups:
        av = [i(params) if callable(i) else i for i in a]
        x = cos_angle(t_0, t_ex, p_0, p_ex, av)
        P = legendre_p(nc, x)
        coefs = 0
        for w, f in choices:
            w = w(params) if callable(w) else w
            t = f.t(params) if callable(f.t) else f.t
            coefs = coefs + w * legendre_coefs(f.kd, nc, t, f.i, av)
        out = out + sum(c * p for c, p in zip(coefs, P))
    return out


# ------------------------------------------------------------------- contributions
def surface(S, g, q, params):
    """Isurf (intensity, for I0 = q.I0)."""
    t_0, t_ex, p_0, p_ex = g
    ibs = q["I0"] * np.cos(t_0) * S.value(t_0, t_ex, p_0, p_ex, params)
    gamma2 = np.exp(-q["tau"] / np.cos(t_0) - q["tau"] / np.cos(t_ex))
    return q["NormBRDF"] * ((1 - q["bsf"]) * gamma2 + q["bsf"]) * ibs


def volume(V, g, q, params):
    t_0, t_ex, p_0, p_ex = g
    m0, mx = np.cos(t_0), np.cos(t_ex)
    gamma2 = np.exp(-q["tau"] / m0 - q["tau"] / mx)
    return (
        (1 - q["bsf"])
        * q["I0"]
        * q["omega"]
        * m0
        / (m0 + mx)
        * (1 - gamma2)
        * V.value(t_0, t_ex, p_0, p_ex, params)
    )


def _nodes():
    # composite Gauss-Legendre in mu: graded towards mu=0 (exp(-tau/mu) layer)
    global _NODES
    try:
        return _NODES
    except NameError:
        pass
    edges = [0, 1e-4, 1e-3, 5e-3, 0.02, 0.05, 0.1, 0.2, 0.4, 0.7, 1.0]
    xs, ws = [], []
    x, w = _gl01(24)
    for lo, hi in zip(edges[:-1], edges[1:]):
        xs.append(lo + (hi - lo) * x)
        ws.append((hi - lo) * w)
    _NODES = np.concatenate(xs), np.concatenate(ws)
    return _NODES


def azimuth_product(V, S, g, params, mu, nphi=None):
    """int_0^2pi p(t_0,p_0 -> theta,phi) BRDF(theta,phi -> t_ex,p_ex) dphi on nodes mu."""
    t_0, t_ex, p_0, p_ex = g
    n = nphi or (V.ncoefs + S.ncoefs + 3)
    phi = np.arange(n) * 2 * PI / n  # exact for trig. polynomials of degree < n
    th = np.arccos(mu)[:, None]
    # downward -> downward scattering inside the layer: incident spherical polar angle
    # is pi - t_0 (docs/theory.rst), i.e. V is evaluated at the supplement
    pv = V.expansion(PI - t_0, th, p_0, phi[None, :], params)
    bs = S.expansion(th, t_ex, phi[None, :], p_ex, params)
    return np.sum(pv * bs, axis=1) * 2 * PI / n * np.ones_like(mu)


def f_int(V, S, g, tau, params):
    m0 = np.cos(g[0])
    mu, w = _nodes()
    K = azimuth_product(V, S, g, params, mu)
    # mu/(m0-mu) * (exp(-tau/m0) - exp(-tau/mu)), removable singularity at mu = m0
    d = tau * (1 / m0 - 1 / mu)  # exponent difference
    with np.errstate(over="ignore", divide="ignore", invalid="ignore"):
        # exp(-tau/m0) - exp(-tau/mu) = exp(-tau/mu) * (exp(-d) - 1)
        #  and 1/(m0-mu) = -tau/(d*m0*mu)  =>  mu/(m0-mu)*(...) = tau/m0*exp(-tau/mu)*(1-exp(-d))/d
        ker = np.where(
            np.abs(d) < 1e-8,
            tau / m0 * np.exp(-tau / mu),
            mu / (m0 - mu) * (np.exp(-tau / m0) - np.exp(-tau / mu)),
        )
    return np.sum(w * ker * K)


def interaction(V, S, g, q, params):
    """scalar geometry and params"""
    t_0, t_ex, p_0, p_ex = g
    f1 = f_int(V, S, (t_0, t_ex, p_0, p_ex), q["tau"], params)
    f2 = f_int(V, S, (t_ex, t_0, p_ex, p_0), q["tau"], params)
    m0, mx = np.cos(t_0), np.cos(t_ex)
    return (
        q["NormBRDF"]
        * (1 - q["bsf"])
        * q["I0"]
        * m0
        * q["omega"]
        * (np.exp(-q["tau"] / mx) * f1 + np.exp(-q["tau"] / m0) * f2)
    )


def convert(val, m0, I0, sig0, dB):
    if sig0:
        val = val * 4 * PI * m0 / I0
    if dB:
        with np.errstate(divide="ignore", invalid="ignore"):
            val = 10 * np.log10(val)
    return val
