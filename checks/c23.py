"""C23: polar plots draw the functions they are given.

Every scattering function (and pairs, triples of them) x incidence lists x parameter sets x
plot options x backends: the curves are read back from the axes and compared, as a
multiset, with the values of the function and of its truncated expansion.
"""
import copy
import itertools
import warnings

import numpy as np

import grid
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C23"
PI = np.pi
HG = "HenyeyGreenstein"
NOEXP = [  # no number of coefficients
    ["V", [HG, {"t": "t_v"}]],
    ["V", ["HGRayleigh", {"t": 0.4}]],
    ["S", [HG, {"t": "t_s", "a": ["a_s", 1.0, 1.0]}]],
    ["S", ["CosineLobe", {"i": 3}]],
    ["S", ["LinComb", [["w_s", ["Isotropic", {}]], [0.4, [HG, {"t": 0.3}]]]]],
]
INC = [[], [0.0], [40], [15.0, 35.0, 55.0, 75.0], [5.0, 10.0, 20.0, 30.0, 40.0, 50.0, 60.0, 70.0, 80.0], None]
PSETS = ["one", "two", "three", "extra", "np", "array1"]
OPTS = [
    {},
    dict(aprox=False),
    dict(legend=False, multip=1.0),
    dict(label="f", groundcolor=None, legpos=(0.1, 0.1)),
    dict(ax=True),
    dict(aprox=False, ax=True, legend=False),
]
BOUND = {
    "quick": "28 specifications of functions and 5 without expansion x 6 incidence lists x 6 kinds of parameter sets "
    "(all pairs of the two with default options, both backends), x 6 option sets, called as function and as method; "
    "all pairs and some triples of 6 functions per kind; both orders of backends",
    "thorough": "full product of incidence lists, parameter sets and options, all triples",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    fs = [["V", s] for s in grid.V_specs(tier)] + [["S", s] for s in grid.S_specs(tier)] + NOEXP
    for i, f in enumerate(fs):
        for b in ("symengine", "sympy"):
            for p in PSETS:
                incs = range(len(INC)) if full or b == "symengine" else [(i + PSETS.index(p)) % len(INC)]
                for o in range(len(OPTS)) if full else [0]:
                    out.append(dict(f=[f], p=p, inc=list(incs), o=o, b=b, call="method" if i % 2 else "func"))
            for o in range(1, len(OPTS)):
                out.append(dict(f=[f], p="two", inc=[1, 3], o=o, b=b, call="func" if i % 2 else "method"))
    for side, cat in (("V", grid.V_specs()), ("S", grid.S_specs())):
        pick = [["V", cat[i]] if side == "V" else ["S", cat[i]] for i in (0, 1, 5, 6, 9, 13)]
        pick += [n for n in NOEXP if n[0] == side][:1]
        tup = list(itertools.product(pick, repeat=2))
        tup += list(itertools.product(pick, repeat=3)) if full else list(itertools.permutations(pick[:4], 3))
        for i, t in enumerate(tup):
            out.append(dict(f=list(t), p=["one", "two"][i % 2], inc=[3], o=i % 2 * 3, b=("symengine", "sympy")[i // 2 % 2], call=("tuple", "list")[i % 2]))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def run_case(case):
    import matplotlib.pyplot as plt
    import rt1_model

    r = Result()
    r.traces = 1
    rt1_model.set_lambda_backend(case["b"])
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            objs = [sx.impl(*f) for f in case["f"]]
            for i in case["inc"]:
                explore(case, objs, INC[i], r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        plt.close("all")
        rt1_model.set_lambda_backend("symengine")
    return r


def params(kind, need):
    one = {k: v for k, v in grid.SYM.items() if k in need}
    two = {k: v for k, v in grid.SYM2.items() if k in need}
    if kind == "one":
        return one if need else None
    if kind == "two":
        return [one, two]
    if kind == "three":
        return [dict(reversed(one.items())), two, one]
    if kind == "extra":
        return [dict(other=0.3, **one), dict(two, tau=0.1)]
    if kind == "np":
        return {k: np.float64(v) for k, v in two.items()}
    return {k: np.array([v]) for k, v in one.items()}


def has_expansion(f):
    side, spec = f
    if spec[0] == "LinComb":
        return all(has_expansion([side, s]) for _, s in spec[1])
    return "ncoefs" in spec[1] or spec[0] in ("Isotropic", "Rayleigh")


def snapshot(objs):
    out = []
    for o in objs:
        d = {k: str(v) for k, v in o.__dict__.items() if k not in ("polarplot", "hemreflect")}
        out.append((d, str(o.phase_function), str(o.a) if hasattr(o, "a") else None))
    return out


def explore(case, objs, inc, r):
    import matplotlib.pyplot as plt
    from rt1_model.plot import polarplot

    need = set().union(*(sx.params_of(f[1]) for f in case["f"]))
    par = params(case["p"], need)
    opt = dict(OPTS[case["o"]])
    if opt.get("ax"):
        opt["ax"] = plt.figure(figsize=(2, 2)).add_subplot(111, projection="polar")
    kw = dict(param_dict=par, **opt)
    if inc is not None:
        kw["inc"] = inc
    given = copy.deepcopy({k: v for k, v in kw.items() if k != "ax"})
    before = snapshot(objs)
    n_fig = len(plt.get_fignums())
    if case["call"] == "method":
        objs[0].polarplot(**kw)
    else:
        V_SRF = {"func": objs[0], "tuple": tuple(objs), "list": list(objs)}[case["call"]]
        polarplot(V_SRF, **kw)
    r.transitions += 1
    if len(plt.get_fignums()) != n_fig + (0 if opt.get("ax") else 1):
        raise m.Violation("no figure has been created")
    ax = opt.get("ax") or plt.gcf().axes[0]
    if repr({k: v for k, v in kw.items() if k != "ax"}) != repr(given):
        raise m.Violation(f"arguments changed from {given} to {kw}")
    if snapshot(objs) != before:
        raise m.Violation(f"function changed from {before} to {snapshot(objs)}")
    sets = par if isinstance(par, list) else [par or {}]
    angles = np.deg2rad(INC[3] if inc is None else inc)
    expand = opt.get("aprox", True) and all(has_expansion(f) for f in case["f"])
    expected = {"-": [], "--": []}
    for f, p, t in itertools.product(case["f"], sets, angles):
        expected["-"].append((f, p, t))
        if expand:
            expected["--"].append((f, p, t))
    lines = [l for l in ax.lines if len(l.get_xdata())]
    for style, todo in expected.items():
        drawn = [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in lines if (l.get_linestyle() == "--") == (style == "--")]
        if len(drawn) != len(todo):
            raise m.Violation(f"inc {inc}: {len(drawn)} '{style}' curves instead of {len(todo)}")
        for f, p, t in todo:
            for i, (x, y) in enumerate(drawn):
                if x.shape == y.shape and len(x) > 20 and agrees(f, p, t, x, y, style):
                    drawn.pop(i)
                    break
            else:
                raise m.Violation(f"inc {inc}: no '{style}' curve for {f} with {p} at {t}")
            r.states += 1
        r.obs.add(f"{style}{len(todo)}")
    plt.close("all")


def agrees(f, p, t, x, y, style):
    if np.ptp(x) < (5.5 if f[0] == "V" else 3.0):
        return False
    idx = np.r_[0 : len(x) : 23, len(x) - 1]
    x, y = x[idx], y[idx]
    fn = sx.ref(*f)
    q = {k: float(np.ravel(v)[0]) for k, v in p.items()}
    if style == "-":
        exp = fn.value(t, x, 0.0, 0.0, q)
    else:
        exp = fn.expansion(t, x, 0.0, 0.0, q)
    exp = np.broadcast_to(exp, x.shape)
    return m.same(y, exp, rtol=1e-8, atol=1e-11)
