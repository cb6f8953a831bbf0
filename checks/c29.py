"""C29: user-defined scattering functions are equivalent to the built-in ones.

Every way of defining a function by subclassing x every built-in function as oracle x every
use in a model (alone, in all positions of combinations) x geometry x copies, in lock-step
with the reference model of the built-in function; all incomplete and inadmissible
definitions.
"""
import itertools

import numpy as np
import sympy as sp

import machine as m
import specs as sx
from engine import Result

PROPERTY = "C29"
HG = "HenyeyGreenstein"
N = sp.Symbol("n")


# ----------------------------------------------------- definitions (by the user of the package)
def formulas(side, cls, arg):
    """phase function and coefficients as functions of (scattering angle, n)"""
    t = sp.sympify(arg["t"]) if "t" in arg else None
    if cls == "Isotropic":
        c = 1 / (4 * sp.pi) if side == "V" else 1 / sp.pi
        return (lambda x: c + 0 * x), c * sp.KroneckerDelta(0, N)
    if cls == "Rayleigh":
        return (lambda x: 3 / (16 * sp.pi) * (1 + x**2)), sp.KroneckerDelta(0, N) / (4 * sp.pi) + sp.KroneckerDelta(2, N) / (8 * sp.pi)
    c = 1 / (4 * sp.pi) if side == "V" else 1 / sp.pi
    return (lambda x: c * (1 - t**2) / (1 + t**2 - 2 * t * x) ** 1.5), c * (2 * N + 1) * t**N


def base(side):
    from rt1_model import surface, volume

    return (volume, volume.VolumeScatter) if side == "V" else (surface, surface.SurfaceScatter)


def properties(side, cls, arg):
    """properties, own __init__ that is completed by the base class"""
    mod, Base = base(side)
    pf, lc = formulas(side, cls, arg)

    class Mine(Base):
        def __init__(self, scale=1, **kwargs):
            self.scale = scale
            super().__init__(**kwargs)

        @property
        def phase_function(self):
            return self.scale * pf(self.scattering_angle_symbolic)

        @property
        def legendre_coefficients(self):
            return self.scale * lc

    return Mine(ncoefs=arg["ncoefs"], **a(arg))


def attributes(side, cls, arg):
    """class attributes"""
    mod, Base = base(side)
    pf, lc = formulas(side, cls, arg)
    ang = [sp.Symbol(x) for x in ("theta_0", "theta_ex", "phi_0", "phi_ex")]
    default = [-1.0 if side == "V" else 1.0, 1.0, 1.0]
    x = mod.Isotropic().calc_scattering_angle(*ang, [sp.sympify(i) for i in arg.get("a", default)])

    class Mine(Base):
        phase_function = pf(x)
        legendre_coefficients = lc

    return Mine(arg["ncoefs"], a(arg).get("a"))


def instance(side, cls, arg):
    """instance attributes defined after (and with the help of) the base class"""
    mod, Base = base(side)
    pf, lc = formulas(side, cls, arg)

    class Mine(Base):
        phase_function = None
        legendre_coefficients = None

        def __init__(self, ncoefs, **kwargs):
            super().__init__(ncoefs=ncoefs, **kwargs)
            self.phase_function = pf(self.scattering_angle_symbolic)
            self.legendre_coefficients = lc

    return Mine(arg["ncoefs"], **a(arg))


def defaults(side, cls, arg):
    """number of coefficients and scattering angle are a part of the definition"""
    mod, Base = base(side)
    pf, lc = formulas(side, cls, arg)

    class Mine(Base):
        if "a" in arg:
            a = list(arg["a"])

        ncoefs = arg["ncoefs"]

        @property
        def phase_function(self):
            return pf(self.scattering_angle_symbolic)

        @property
        def legendre_coefficients(self):
            return lc

    return Mine()


def extension(side, cls, arg):
    """a built-in function with another parametrisation"""
    mod, Base = base(side)
    Built = getattr(mod, cls)

    class Mine(Built):
        def __init__(self, n, **kwargs):
            if cls == HG:
                super().__init__(t=str(arg["t"]), ncoefs=n, **kwargs)
            else:
                super().__init__(**kwargs)
            self.factor = sp.Rational(1, 2)

        @property
        def phase_function(self):
            return self.factor * super().phase_function * 2

        @property
        def legendre_coefficients(self):
            return 2 * super().legendre_coefficients * self.factor

    return Mine(arg["ncoefs"], **a(arg))


def combination(side, cls, arg):
    """a user-defined kind of linear combinations"""
    mod, Base = base(side)
    t = {k: v for k, v in arg.items() if k != "ncoefs" or cls == HG}

    class Mine(mod.LinComb):
        def __init__(self, w):
            f = getattr(mod, cls)
            super().__init__([(w, f(**t)), (1 - w, f(**t))])

    return Mine(0.25)


def a(arg):
    return dict(a=list(arg["a"])) if "a" in arg else {}


WAYS = [properties, attributes, instance, defaults, extension, combination]
FUNCS = [
    ("V", "Isotropic", dict(ncoefs=1)),
    ("V", "Rayleigh", dict(ncoefs=3)),
    ("V", "Rayleigh", dict(ncoefs=3, a=[-0.6, 0.8, 0.5])),
    ("V", HG, dict(t="t_v", ncoefs=3)),
    ("V", HG, dict(t="t_v * q", ncoefs=2, a=["a_v", 1.0, "a_v"])),
    ("S", "Isotropic", dict(ncoefs=1)),
    ("S", HG, dict(t="t_s", ncoefs=2)),
    ("S", HG, dict(t=0.3, ncoefs=3, a=[0.5, 1.0, 0.7])),
    ("S", HG, dict(t="t_s", ncoefs=2, a=["-a_v", 1.0, 1.0])),
]
OTHER = {"V": [HG, {"t": "t_v", "ncoefs": 2}], "S": [HG, {"t": "t_s", "ncoefs": 2}]}
USES = ["alone", "first", "second", "twice", "mixed"]
VAL = dict(tau=0.31, omega=0.35, NormBRDF=0.25, bsf=0.15, t_v=0.4, t_s=-0.3, q=0.8, a_v=-0.9, w=0.35)
NEW = dict(tau={"arr": [0.2, 0.6]}, t_v=-0.2, t_s=0.5, q=0.4, a_v=-0.6, w=0.8)
ANG = dict(t_0=[0.5, 0.9], t_ex=[1.0, 0.4], p_0=0.2, p_ex=2.1)
BOUND = {
    "quick": "6 ways of defining a function x 9 volume and surface functions x 5 uses (alone, first / second in a combination, twice in it, "
    "combined with the built-in function) x {monostatic, bistatic} x {original, deepcopy, pickle} (backends alternating); all outputs, "
    "jacobians, parameter updates and function values; the same with both functions user-defined; all incomplete and inadmissible definitions",
    "thorough": "both backends, also all pairs of ways for volume and surface",
}


def cases(tier):
    full = tier == "thorough"
    out = [
        dict(kind="use", w=w, f=f, u=u, both=full)
        for w in range(len(WAYS)) for f in range(len(FUNCS)) for u in range(len(USES))
    ]
    for w in itertools.product(range(len(WAYS)), repeat=2):
        if full or w[0] == w[1] or w[0] == (w[1] + 1) % len(WAYS):
            out.append(dict(kind="pair", w=list(w), full=full))
    return out + [dict(kind="reject", side=s) for s in "VS"]


def key(case):
    return "|".join(str(v) for v in case.values())


def run_case(case):
    import rt1_model

    r = Result()
    r.traces = 1
    try:
        globals()["run_" + case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        rt1_model.set_lambda_backend("symengine")
    return r


def make(w, side, cls, arg, use):
    """(user-defined object, equivalent specification)"""
    mod, _ = base(side)
    spec = [cls, arg if cls == HG else {k: v for k, v in arg.items() if k != "ncoefs"}]
    new = lambda: WAYS[w](side, cls, arg)
    other = lambda: sx.impl(side, OTHER[side])
    f = new()
    if use == "alone":
        return f, spec
    if use == "first":
        return mod.LinComb([("w", f), (0.4, other())]), ["LinComb", [["w", spec], [0.4, OTHER[side]]]]
    if use == "second":
        return mod.LinComb([(0.4, other()), ("w**2", f)]), ["LinComb", [[0.4, OTHER[side]], ["w**2", spec]]]
    if use == "twice":
        return mod.LinComb([("w", f), (0.3, f)]), ["LinComb", [["w", spec], [0.3, spec]]]
    return mod.LinComb([("w", f), ("1 - w", sx.impl(side, spec))]), ["LinComb", [["w", spec], ["1 - w", spec]]]


def look(L, r, f, side, spec):
    names = sorted(L.cfg.required("calc"))
    for op in ["calc"], ["surface"], ["volume"], ["interaction"], ["jac", names], ["jac", names, "scipy_least_squares"]:
        r.obs.add(L.do(op))
        r.transitions += 1
    p = {k: float(np.ravel(L.cfg.params[k])[0]) for k in sorted(sx.params_of(spec))}
    for ang in (0.5, 1.0, 0.2, 2.1), (0.0, 0.3, 0.0, 1.0):
        got, exp = f.calc(*ang, p), sx.ref(side, spec).value(*ang, p)
        if not m.same(got, exp, rtol=1e-9):
            raise m.Violation(f"value {got} instead of {exp} for {p}")
    r.states += 1


def explore(V, S, vs, ss, watch, case, r, n, backends):
    import rt1_model

    side, f, spec = watch
    for i, (g, b) in enumerate(itertools.product(("mono", "bi"), backends)):
        rt1_model.set_lambda_backend(b)
        for how in (None, "deepcopy", "pickle"):
            L = m.Live(vs, ss, dict(dB=False), b, objs=(V, S))
            r.traces += 1
            try:
                L.do([g])
                L.do(["geom", {k: ANG[k] for k in (("t_0", "p_0") if g == "mono" else m.ANGS)}])
                L.do(["upd", {k: v for k, v in VAL.items() if k in L.cfg.required("calc")}])
                if how != "deepcopy":
                    look(L, r, f, side, spec)
                if how:
                    L.do([how])
                    f2 = L.R.V if side == "V" else L.R.SRF
                    look(L, r, f2, side, spec)
                L.do(["upd", {k: v for k, v in NEW.items() if k in L.cfg.required("calc")}])
                look(L, r, f, side, spec)
            except m.Violation as ex:
                raise m.Violation(f"{g}, {b}, {how}: {ex}")
            except Exception as ex:
                raise m.Violation(f"{g}, {b}, {how}: unexpected {type(ex).__name__}: {ex}")


def run_use(case, r):
    side, cls, arg = FUNCS[case["f"]]
    try:
        f, spec = make(case["w"], side, cls, arg, USES[case["u"]])
    except Exception as ex:
        raise m.Violation(f"definition by {WAYS[case['w']].__doc__}: {type(ex).__name__}: {ex}")
    if case["w"] < len(WAYS) - 1 or USES[case["u"]] == "alone":
        # (there is no expansion of a combination of combinations)
        expansion(f, side, spec, r)
    os, o = ("S", ["Isotropic", {}]) if side == "V" else ("V", ["Rayleigh", {}])
    other = sx.impl(os, o)
    V, S, vs, ss = (f, other, spec, o) if side == "V" else (other, f, o, spec)
    if case["w"] == len(WAYS) - 1 and USES[case["u"]] != "alone":
        # combinations can not be combined
        return
    n = case["w"] + case["f"] + case["u"]
    backends = ["symengine", "sympy"] if case["both"] else [("symengine", "sympy")[n % 2]]
    explore(V, S, vs, ss, (side, f, spec), case, r, n, backends)


def expansion(f, side, spec, r):
    """legendre expansion at an angle"""
    p = {k: VAL[k] for k in sx.params_of(spec)}
    for ang in (0.5, 1.0, 0.2, 2.1), (0.3, 0.9, 1.0, 0.0):
        e = f.legendre_expansion(*ang).doit()
        got = float(e.subs(p))
        built = float(sx.impl(side, spec).legendre_expansion(*ang).doit().subs(p))
        if not m.same(got, built, rtol=1e-10):
            raise m.Violation(f"legendre expansion {got} instead of {built}")
        r.transitions += 1
    if f.ncoefs != sx.ncoefs(side, spec):
        raise m.Violation(f"ncoefs {f.ncoefs} instead of {sx.ncoefs(side, spec)}")


def run_pair(case, r):
    wv, ws = case["w"]
    full = case["full"]
    for fv, fs in itertools.product((1, 3, 4), (6, 8)) if full else ((1, 8), (4, 6)):
        V, vs = make(wv, *FUNCS[fv], "alone")
        S, ss = make(ws, *FUNCS[fs], "alone")
        explore(V, S, vs, ss, ("V", V, vs), case, r, wv + ws, ["symengine", "sympy"] if full else [("symengine", "sympy")[(wv + ws + fv) % 2]])


def run_reject(case, r):
    mod, Base = base(case["side"])
    ok = dict(phase_function=sp.Integer(1), legendre_coefficients=sp.KroneckerDelta(0, N))

    def rejected(what, make, exc):
        r.transitions += 1
        r.states += 1
        try:
            make()
        except exc:
            return
        except Exception as ex:
            raise m.Violation(f"{what}: {type(ex).__name__} instead of {exc}: {ex}")
        raise m.Violation(f"{what}: not rejected")

    # every subset of the definitions, on every base class
    for k in range(3):
        for have in itertools.combinations(sorted(ok), k):
            for wrap in (lambda v: v, lambda v: property(lambda self: v)):
                cls = type("Mine", (Base,), {n: wrap(ok[n]) for n in have})
                sub = type("Sub", (cls,), {})
                rest = {n: wrap(v) for n, v in ok.items() if n not in have}
                whole = type("Whole", (cls,), rest)
                for c in (cls, sub):
                    if k < 2:
                        rejected(f"definition of {have} only", lambda: c(ncoefs=1), TypeError)
                    else:
                        c(ncoefs=1)
                whole(ncoefs=1)
    Mine = type("Mine", (Base,), ok)
    rejected("base class", lambda: Base(ncoefs=1), TypeError)
    for bad in ([], [1.0], [1.0, 1.0], [1.0] * 4):
        rejected(f"a={bad}", lambda: Mine(ncoefs=1, a=bad), AssertionError)
        Own = type("Own", (Base,), dict(ok, a=bad))
        rejected(f"own a={bad}", lambda: Own(ncoefs=1), AssertionError)
        Own(ncoefs=1, a=[1.0, 1.0, 1.0])
    # the number of coefficients is only required for the interaction
    f = Mine()
    rejected("ncoefs", lambda: f.ncoefs, AttributeError)
    rejected("legendre_expansion", lambda: f.legendre_expansion(0.1, 0.2, 0.3, 0.4), AttributeError)
    # the definition of one object has no effect on others
    for wrap in (list, tuple):
        shared = wrap([0.5, 1.0, 1.0])
        Own = type("Own", (Base,), dict(ok, a=shared))
        x, y = Own(ncoefs=1), Own(ncoefs=1, a=[0.3, 1.0, 1.0])
        z = Own(ncoefs=1)
        if [float(o.a[0]) for o in (x, y, z)] != [0.5, 0.3, 0.5] or [float(i) for i in Own.a] != [0.5, 1.0, 1.0]:
            raise m.Violation("definition of a shared between objects")
        x.a[0] = sp.Float(0.1)
        if float(Own(ncoefs=1).a[0]) != 0.5 or float(z.a[0]) != 0.5:
            raise m.Violation("a of an object changes others")
        r.transitions += 3
