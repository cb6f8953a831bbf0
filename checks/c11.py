"""C11: output units, component rows and totals are consistent.

States are all assignments of the output flags (sig0, dB, int_Q) and of the incident
intensity; every ordered pair of states (the first one given to the constructor, the
second one set on the evaluated model) is executed.  All outputs are compared with the
documented conversions of the reference rows.
"""
import itertools

import numpy as np

import machine as m
from engine import Result

PROPERTY = "C11"

I0 = [1.0, 2.5, 0.04, {"pyint": 3}, {"arr": [0.5, 2.0, 7.0]}, {"ro": [0.3, 1.0, 4.0]}]
FLAGS = [
    (s, d, q, i)
    for s, d, q, i in itertools.product((True, False), (True, False), (True, False), range(len(I0)))
]
MODELS = [
    (["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}],
     ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 1.0, 0.6]}]),
    (["Isotropic", {}], ["Isotropic", {}]),
    (["Rayleigh", {}], ["CosineLobe", {"i": 2, "ncoefs": 2, "a": [0.6, 1.0, 1.0]}]),
]
PAR = [
    dict(tau=0.3, omega=0.35, NormBRDF=0.25, bsf=0.15),
    dict(tau=0.3, omega=0.35, NormBRDF=0.25, bsf=1.0),
    dict(tau=0.0, omega=0.35, NormBRDF=0.25, bsf=0.3),
    dict(tau=0.7, omega=0.0, NormBRDF=0.25, bsf=0.0),
    dict(tau=0.7, omega=0.3, NormBRDF=0.0, bsf=0.1),
    dict(tau={"arr": [0.0, 0.4, 3.0]}, omega=0.3, NormBRDF={"arr": [0.1, 0.0, 0.4]}, bsf={"arr": [0.0, 0.2, 1.0]}),
]
SYM = dict(t_v=0.35, t_s=0.3)

BOUND = {
    "quick": "all 48 flag states (sig0 x dB x int_Q x 6 incident intensities incl. arrays) and all 48**2 "
    "ordered pairs of them on one model; 3 models x mono/bistatic x 6 parameter sets "
    "(incl. vanishing contributions); rows, totals, single methods; both backends for the "
    "states",
    "thorough": "all ordered pairs for all models, geometries and backends; all triples for one model",
}


def cases(tier):
    out = []
    full = tier == "thorough"
    for mod, geo in itertools.product(range(len(MODELS)), ("mono", "bi")):
        for b in ("symengine", "sympy"):
            pairs = full or (mod, geo, b) == (0, "mono", "symengine")
            for f in range(len(FLAGS)):
                out.append(dict(mod=mod, geo=geo, b=b, first=f, pairs=pairs, triples=full and (mod, geo, b) == (0, "mono", "symengine")))
    return out


def key(case):
    return f"{case['mod']}|{case['geo']}|{case['b']}|{FLAGS[case['first']]}"


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        explore(case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def build(case, f):
    s, d, q, i = FLAGS[f]
    V, S = MODELS[case["mod"]]
    L = m.Live(V, S, dict(sig0=s, dB=d, int_Q=q), case["b"])
    import rt1_model

    R = rt1_model.RT1(L.V, L.S, sig0=s, dB=d, int_Q=q, I0=m.num(I0[i]))
    cfg = m.Cfg(V, S, int_Q=True, sig0=False, dB=False, I0=1.0)  # linear reference rows
    if case["geo"] == "mono":
        g = dict(t_0={"arr": [0.0, 0.5, 1.3]}, p_0=0.3)
    else:
        R.set_bistatic()
        cfg.set_bi()
        g = dict(t_0={"arr": [0.0, 0.5, 1.3]}, t_ex=0.9, p_0=0.3, p_ex=2.0)
    R.set_geometry(**{k: m.num(v) for k, v in g.items()})
    cfg.set_geom(**g)
    return R, cfg


def set_params(R, cfg, par):
    p = dict(par, **{k: SYM[k] for k in SYM if k in cfg.required("calc")})
    R.update_params(**{k: m.num(v) for k, v in p.items()})
    cfg.update(**p)


def compare(what, got, exp, mu0, f, base):
    """exp are linear intensities for I0 = 1 (including all rows)"""
    s, d, q, i = FLAGS[f]
    with np.errstate(all="ignore"):
        e = exp * (4 * np.pi * mu0 if s else np.asarray(m.num(I0[i]), dtype=float))
        if d:
            e = 10 * np.log10(e)
    got = np.asarray(got)
    if what == "calc" and got.shape != e.shape:
        raise m.Violation(f"shape {got.shape} instead of {e.shape} in {FLAGS[f]}")
    if not m.same_result(got, e, d):
        raise m.Violation(f"{what} in {FLAGS[f]} is {m.fmt(got)} instead of {m.fmt(e)}")
    for x, y in zip(got[1:3], e[1:3]) if what == "calc" else [(got, e)] * (what != "interaction"):
        if not m.same_closed(x, y, d):
            raise m.Violation(f"{what} in {FLAGS[f]} is {m.fmt(x)} instead of {m.fmt(y)} (closed form)")


def check(R, cfg, f, r):
    s, d, q, i = FLAGS[f]
    lin, mu0 = cfg.linear("calc")
    rows = [lin["s"], lin["v"]] + ([lin["i"]] if q else [])
    with np.errstate(all="ignore"):
        val = R.calc()
        compare("calc", val, np.stack([sum(rows), *rows]), mu0, f, None)
        for k, n in zip(("surface", "volume", "interaction"), "svi"):
            if n == "i" and not q:
                continue
            one = getattr(R, k)()
            compare(k, one, lin[n], mu0, f, None)
            j = "svi".index(n) + 1
            if not m.same(np.broadcast_to(one, val[j].shape), val[j], rtol=1e-12):
                raise m.Violation(f"{k}() {one} differs from the row of calc() {val[j]} in {FLAGS[f]}")
        if not d:
            tot = np.sum(val[1:], axis=0)
        else:
            tot = 10 * np.log10(np.sum(10 ** (val[1:] / 10), axis=0))
        if not m.same(val[0], tot, rtol=1e-9, atol=1e-9 if d else 1e-14):
            raise m.Violation(f"total {val[0]} instead of {tot} in {FLAGS[f]}")
    r.obs.add(m.digest(val))
    r.states += 1
    r.transitions += 5


def switch(R, f, order=0):
    s, d, q, i = FLAGS[f]
    todo = [("sig0", s), ("dB", d), ("int_Q", q), ("I0", m.num(I0[i]))]
    if order:
        todo.reverse()
    for k, v in todo:
        setattr(R, k, v)


def explore(case, r):
    f = case["first"]
    R, cfg = build(case, f)
    for par in PAR:
        set_params(R, cfg, par)
        check(R, cfg, f, r)
    if not case["pairs"]:
        # all other states, without rebuilding
        for g in range(len(FLAGS)):
            if sum(a != b for a, b in zip(FLAGS[f], FLAGS[g])) == 1:
                switch(R, g)
                check(R, cfg, g, r)
        return
    for g in range(len(FLAGS)):
        R, cfg = build(case, f)
        set_params(R, cfg, PAR[g % len(PAR)])
        for before in (True, False):
            if before:
                check(R, cfg, f, r)
            switch(R, g, g % 2)
            check(R, cfg, g, r)
            switch(R, f)
            if before:
                set_params(R, cfg, PAR[(g + 1) % len(PAR)])
        check(R, cfg, f, r)
        if case["triples"]:
            for h in range(len(FLAGS)):
                switch(R, g)
                check(R, cfg, g, r)
                switch(R, h)
                check(R, cfg, h, r)
