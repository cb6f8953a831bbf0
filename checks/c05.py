"""C05: array evaluation equals element-by-element evaluation.

The full product of input shapes of zenith angle, azimuth, optical depth, surface
normalisation and a function parameter, with regular, special (nadir, grazing, zero and
large optical depth) and model-sized arrays, plus all containers and dtypes per input;
every element is compared with the scalar evaluation of the reference model and the
shape with the numpy broadcast shape.
"""
import itertools

import numpy as np

import machine as m
from engine import Result

PROPERTY = "C05"

V = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
S = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 1.0, 0.6]}]
MODELS = [
    (V, S),
    (["Isotropic", {}], ["Isotropic", {}]),
    (["Rayleigh", {}], ["CosineLobe", {"i": 2, "ncoefs": 1}]),
]
NMAX = 3  # = ncoefs + ncoefs - 1 of the first model: shapes that equal the coefficient axis
SH = ["s", "1", "v", "c", "vv", "c3"]


def val(sh, kind):
    """values per shape; special elements are part of the arrays"""
    a, b, c = {
        "t": (0.0, 0.6, 1.5),
        "t2": (0.9, 0.0, 0.2),
        "p": (0.3, -1.0, 4.0),
        "tau": (0.0, 0.4, 60.0),
        "par": (0.2, 0.0, -0.4),
        "n": (0.3, 0.0, 1.0),
    }[kind]
    return {
        "s": b if kind != "n" else a,
        "1": [c if kind not in ("tau", "t") else b],
        "v": [a, b, c],
        "c": [[b], [a]],
        "vv": [[b, a, c], [c, b, a]],
        "c3": [[[a]], [[c]]],
    }[sh]


def enc(v):
    return v if np.isscalar(v) else {"arr": v}


CONT = ["list", "tuple", "int", "F", "strided", "ro", "f0", "pyint", "npint", "0d"]
SPECIALS = dict(
    t_0=[0.0, 1e-9, 0.3, 1.2, 1.5, 1.57],
    tau=[0.0, 1e-6, 1e-3, 0.5, 20.0, 800.0],
)

BOUND = {
    "quick": "full product of 6 shapes (scalar, (1,), (3,), (2,1), (2,3), (2,1,1)) of 5 inputs for 3 "
    "models in monostatic geometry (6**5 each for the first, 6**4 for the others) and "
    "6**4 in bistatic geometry; 10 containers/dtypes for each of 7 inputs; 36 "
    "combinations of special zenith angles and optical depths in one array against "
    "scalars (linear and dB); jacobians in 6**3 shapes; results of 1000-300000 elements in 1-3 dimensions against those of their parts; both backends for a subset",
    "thorough": "as quick, the 5-input product for all models, both backends, and the jacobian "
    "for all of them",
}


def cases(tier):
    out = []
    full = tier == "thorough"
    for mi in range(3):
        for b in ("symengine", "sympy"):
            if b == "sympy" and mi == 1 and not full:
                continue
            for s1, s2 in itertools.product(SH, repeat=2):
                n = 5 if (full or (mi == 0 and b == "symengine")) else 4
                out.append(dict(kind="mono", m=mi, b=b, pre=[s1, s2], n=n, jac=full))
    for b in ("symengine", "sympy"):
        for geo in ("bi", "bipart"):
            for s1 in SH:
                for s2 in SH:
                    if b == "sympy" and not full and s1 != "v":
                        continue
                    out.append(dict(kind=geo, m=0, b=b, pre=[s1, s2], n=4, jac=False))
    for s1 in SH:
        for b in ("symengine", "sympy"):
            out.append(dict(kind="mono", m=0, b=b, pre=[s1], n=3, jac=True))
    for mi in range(3):
        for b in ("symengine", "sympy"):
            for dB in (False, True):
                out.append(dict(kind="special", m=mi, b=b, dB=dB))
            for c in CONT:
                out.append(dict(kind="cont", m=mi, b=b, c=c))
    for mi, b in itertools.product(range(3), ("symengine", "sympy")):
        for n in BIG if b == "symengine" else BIG[:2]:
            for lay in ("row", "table", "cube"):
                out.append(dict(kind="big", m=mi, b=b, n=n, lay=lay))
    return out


BIG = [1000, 20001, 130001, 300000]
INPUTS = dict(
    mono=[("t_0", "t"), ("tau", "tau"), ("t_s", "par"), ("p_0", "p"), ("NormBRDF", "n")],
    bi=[("t_0", "t"), ("t_ex", "t2"), ("tau", "tau"), ("p_ex", "p"), ("omega", "n")],
    bipart=[("t_0", "t"), ("p_ex", "p"), ("tau", "tau"), ("t_v", "par"), ("bsf", "n")],
)


def run_case(case):
    r = Result()
    r.traces = 1
    Vs, Ss = MODELS[case["m"]]
    L = m.Live(Vs, Ss, dict(dB=case.get("dB", False)), case["b"])
    names = m.sx.params_of(Vs) | m.sx.params_of(Ss)
    base = dict(tau=0.3, omega=0.4, NormBRDF=0.2, bsf=0.1, **{n: 0.25 for n in names})
    try:
        {"special": special, "cont": cont, "big": big}.get(case["kind"], product)(case, r, L, names, base)
    except m.Violation as ex:
        r.fail(str(case), f"{case}: {ex}")
    finally:
        L.backend("symengine")
    return r


def product(case, r, L, names, base):
    geo = case["kind"]
    fixed = []
    if geo == "bi":
        L.do(["bi"])
        L.do(["geom", {"t_0": 0.5, "t_ex": 0.8, "p_0": 0.2, "p_ex": 1.0}])
    elif geo == "bipart":
        L.do(["bi", {"t_ex": 0.7, "p_0": 0.4}])
        L.do(["geom", {"t_0": 0.5, "p_ex": 1.0}])
    else:
        L.do(["geom", {"t_0": 0.5, "p_0": 0.2}])
    inputs = INPUTS[geo][: case["n"]]
    keys = ["tau", "omega", "NormBRDF", "bsf", *sorted(names)]
    for rest in itertools.product(SH, repeat=len(inputs) - len(case["pre"])):
        combo = [*case["pre"], *rest]
        g, p = {}, dict(base)
        skip = False
        for (name, kind), sh in zip(inputs, combo):
            v = enc(val(sh, kind))
            if name in m.ANGS:
                g[name] = v
            else:
                if name not in base and sh != "s":
                    skip = True  # function without this parameter
                p[name] = v
        if skip:
            continue
        L.do(["geom", g])
        r.obs.add(L.do(["calc", p]))
        r.transitions += 2
        if case["jac"]:
            L.do(["jac", keys])
            r.transitions += 1
        r.states += 1
        r.count(elements=L.cfg.n_elements)


def special(case, r, L, names, base):
    T, TAU = SPECIALS["t_0"], SPECIALS["tau"]
    scal = {}
    L.do(["geom", {"t_0": 0.5, "p_0": 0.2}])
    for i, t in enumerate(T):
        for j, tau in enumerate(TAU):
            L.do(["geom", {"t_0": t}])
            L.do(["calc", dict(base, tau=tau)])
            scal[i, j] = L.R.calc()[..., 0]
            r.states += 1
            r.transitions += 2
    # all ordered pairs of elements in one array, and the complete table
    el = list(scal)
    for x, y in itertools.product(el, repeat=2):
        L.R.set_geometry(t_0=np.array([T[x[0]], T[y[0]]]))
        got = L.R.calc(tau=np.array([TAU[x[1]], TAU[y[1]]]))
        ref = np.stack([scal[x], scal[y]], axis=-1)
        r.transitions += 2
        if not m.same(got, ref, rtol=1e-9, atol=1e-15):
            raise m.Violation(f"elements {x}, {y} of one array: {got} instead of {ref}")
    L.cfg.ang["t_0"] = np.array(T)
    L.R.set_geometry(t_0=T)
    L.do(["calc", dict(base, tau={"col": TAU})])
    r.states += 1


def big(case, r, L, names, base):
    """large results (up to 300000 elements) against the results of their parts"""
    n, R = case["n"], L.R
    rng = lambda k, lo, hi: lo + (hi - lo) * (np.arange(k) * 0.6180339887 % 1)
    if case["lay"] == "row":
        t, tau, nb = rng(n, 0.0, 1.5), 0.3, rng(n, 0.05, 0.4)
    elif case["lay"] == "table":
        k = int(n**0.5)
        t, tau, nb = rng(k, 0.0, 1.5), rng(k, 0.0, 2.0)[:, None], 0.2
    else:
        k = int(n ** (1 / 3))
        t, tau, nb = rng(k, 0.0, 1.5), rng(k, 0.0, 2.0)[:, None], rng(k, 0.05, 0.4)[:, None, None]
    keys = ["tau", "NormBRDF", "bsf", *sorted(names)]

    def results():
        return [R.calc(), R.surface(), R.volume(), R.interaction(), *(R.jacobian(keys) if n < 3 * 10**5 else ())]

    R.set_geometry(t_0=t, p_0=0.2)
    R.update_params(**dict(base, tau=tau, NormBRDF=nb))
    val = results()
    shape = np.broadcast_shapes(np.shape(t), np.shape(tau), np.shape(nb))
    if val[0].shape != (4, *shape):
        raise m.Violation(f"shape {val[0].shape} instead of {(4, *shape)}")
    k = shape[-1]
    r.count(elements=int(np.prod(shape)))
    for sl in (slice(0, 40), slice(k // 2, k // 2 + 30), slice(max(k - 35, 0), k)):
        R.set_geometry(t_0=t[sl])
        part = lambda x: x[..., sl] if np.shape(x)[-1:] == (k,) else x
        if case["lay"] == "row":
            R.update_params(NormBRDF=nb[sl])
        for x, y in zip(val, results()):
            x, y = np.broadcast_arrays(part(x), y)
            if not np.allclose(x, y, rtol=1e-11, atol=1e-14 * np.max(np.abs(y)) + 1e-300, equal_nan=True):
                raise m.Violation(f"{sl} of {shape}: {m.fmt(x)} instead of {m.fmt(y)}")
        r.states += 1
        r.transitions += 4
    # three elements against the reference
    if case["lay"] == "row":
        L.do(["geom", {"t_0": {"arr": t[-3:]}, "p_0": 0.2}])
        L.do(["upd", dict(base, tau=0.3, NormBRDF={"arr": nb[-3:]})])
        r.obs.add(L.do(["calc"]))


def conv(c, v):
    """JSON encoding of one value in the given container, and its plain value"""
    a = [v, v * 0.5 + 0.1, 0.0]
    ints = [1, 0, 1]
    return {
        "list": a,
        "tuple": {"tuple": a},
        "int": {"int": ints},
        "F": {"F": [a, a]},
        "strided": {"strided": a},
        "ro": {"ro": a},
        "f0": {"f64": v},
        "pyint": {"pyint": 1},
        "npint": {"npint": 1},
        "0d": {"arr": v},
    }[c]


def cont(case, r, L, names, base):
    c = case["c"]
    L.do(["geom", {"t_0": {"arr": [0.3, 0.5, 0.9]}, "p_0": 0.2}])
    L.do(["upd", base])
    for name in ["t_0", "p_0", *sorted(base)]:
        if name in m.ANGS:
            L.do(["geom", {name: conv(c, 0.4)}])
        else:
            v = conv(c, 0.4)
            if c in ("pyint", "npint", "int", "bool") and name in names:
                continue  # |t| < 1
            L.do(["upd", {name: v}])
        L.do(["calc"])
        L.do(["jac", ["tau", "omega", "NormBRDF", "bsf", *sorted(names)]])
        r.transitions += 3
        r.states += 1
        # back to plain values
        if name in m.ANGS:
            L.do(["geom", {"t_0": {"arr": [0.3, 0.5, 0.9]}, "p_0": 0.2}])
        else:
            L.do(["upd", {name: base[name]}])
    # all at once
    L.do(["geom", {"t_0": conv(c, 0.4), "p_0": conv(c, 0.3)}])
    if c not in ("pyint", "npint", "int", "bool"):
        L.do(["upd", {n: conv(c, 0.3) for n in base}])
    L.do(["calc"])
    r.states += 1
