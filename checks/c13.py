"""C13: a rejected call leaves the model unchanged.

From every configuration reached by operation sequences up to the depth bound every
invalid call of the alphabet is made; configuration and all outputs are compared with the
reference before and after, and after every valid operation that follows.
"""
import itertools

import numpy as np

import hist
import machine as m
from engine import Result

PROPERTY = "C13"

V = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
S = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 1}]

OPS = [
    ["mono"],
    ["mono", 0.3],
    ["bi"],
    ["bi", {"t_0": 0.4, "t_ex": 0.9, "p_0": 0.2, "p_ex": 2.1}],
    ["bi", {"p_0": 0.2}],
    ["geom", {"t_0": {"arr": [0.3, 0.6, 1.1]}}],
    ["geom", {"t_0": 0.5, "t_ex": 0.8, "p_0": 0.1, "p_ex": 1.4}],
    ["upd", {"tau": {"col": [0.1, 0.9]}, "t_v": 0.5}],
    ["def", "tau", "k * 0.6"],
    ["flag", "int_Q", False],
    ["flag", "dB", True],
    ["backend", "sympy"],
    ["calc"],
]
FOLLOW = [
    ["calc"],
    ["geom", {"t_0": 0.7}],
    ["geom", {"p_0": 1.1}],
    ["geom", {"t_ex": 0.2, "p_ex": {"arr": [0.2, 0.3, 0.1]}}],
    ["mono", 0.1],
    ["bi"],
    ["bi", {"t_ex": 0.6}],
    ["upd", {"tau": 0.2, "k": 0.9}],
    ["def", "omega", "k * 0.2"],
]


class Unprintable:
    pass


def B():
    """all invalid calls: name -> callable(R); None: decided by the reference"""
    import sympy as sp

    import rt1_model

    bad = {}

    def add(name, f):
        bad[name] = f

    for i, x in enumerate(["0.3", [0.3], (1,), sp.Symbol("p"), {"a": 1}, 1 + 1j]):
        add(f"mono p_0 #{i}", lambda R, x=x: R.set_monostatic(p_0=x))
        for k in m.ANGS:
            good = {j: 0.33 for j in m.ANGS if j != k}
            add(f"bi {k} #{i}", lambda R, k=k, x=x, good=good: R.set_bistatic(**good, **{k: x}))
        add(f"bi one #{i}", lambda R, x=x: R.set_bistatic(p_ex=x))
    add("mono arr", lambda R: R.set_monostatic(p_0=np.array([0.3, 0.4])))
    add("bi arr", lambda R: R.set_bistatic(t_0=0.2, p_ex=np.array([0.3, 0.4])))
    add("mono unknown", lambda R: R.set_monostatic(t_0=0.3))
    add("bi unknown", lambda R: R.set_bistatic(t_0=0.3, foo=0.2))
    add("geom unknown last", lambda R: R.set_geometry(t_0=0.99, p_0=0.2, foo=1))
    add("geom unknown first", lambda R: R.set_geometry(foo=1, t_0=0.99, p_0=0.2))
    add("geom positional", lambda R: R.set_geometry(0.3))
    add("geom None last", lambda R: R.set_geometry(t_0=0.99, p_0=None))
    add("geom None first", lambda R: R.set_geometry(p_0=None, t_0=0.99))
    add("geom None t", lambda R: R.set_geometry(p_0=0.99, t_0=None))
    add("geom ragged", lambda R: R.set_geometry(p_0=0.99, t_0=[[0.1], [0.2, 0.3]]))
    add("upd ragged last", lambda R: R.update_params(tau=0.99, omega=[[0.1], [0.2, 0.3]]))
    add("upd ragged first", lambda R: R.update_params(omega=[[0.1], [0.2, 0.3]], tau=0.99, new=1))
    add("upd positional", lambda R: R.update_params({"tau": 0.99}))
    add("calc ragged", lambda R: R.calc(tau=0.99, omega=[[0.1], [0.2, 0.3]]))
    add("calc positional", lambda R: R.calc(0.99))
    add("surface positional", lambda R: R.surface(0.99))
    add("jac format", lambda R: R.jacobian(["tau", "omega"], format="foo"))
    add("jac format None", lambda R: R.jacobian(["tau"], format=None))
    add("jac name", lambda R: R.jacobian(["tau", "nope"]))
    add("jac name sparse", lambda R: R.jacobian(["nope", "tau"], format="scipy_least_squares"))
    for x in ("", "Sympy", None, 3, ["sympy"], "numpy"):
        add(f"backend {x}", lambda R, x=x: rt1_model.set_lambda_backend(x))
    for k in m.ANGS:
        def f(R, k=k):
            setattr(R, k, 0.99)

        add(f"assign {k}", f)
    def g(R):
        R.param_dict = {"tau": 0.99}

    add("assign param_dict", g)
    for a in ("analyze", "analyze3d"):
        for i, kw in enumerate([dict(t_v=(0.1,)), dict(t_v=0.3), dict(t_s=(0.1, 0.2), t_v=()), dict(t_v=("a", "b"))]):
            add(f"{a} slider {i}", lambda R, a=a, kw=kw: getattr(R, a)(**kw))
        add(f"{a} positional", lambda R, a=a: getattr(R, a)(0.99))
    add("analyze range", lambda R: R.analyze(t_v=(0.1, 0.2), range_parameter="omega"))
    add("analyze3d contributions", lambda R: R.analyze3d(t_v=(0.1, 0.2), contributions="tx"))
    add("ctor V", lambda R: type(R)(SRF=R.SRF))
    add("ctor SRF", lambda R: type(R)(V=R.V))
    add("ctor unknown", lambda R: type(R)(V=R.V, SRF=R.SRF, foo=1))
    return bad


# rejected or accepted depending on the configuration (lock-step decides)
DEP = [
    ["geom", {"t_0": 0.99, "t_ex": 0.2}],
    ["geom", {"p_ex": 0.2, "t_0": 0.99}],
    ["geom", {"t_0": 0.99, "p_0": 0.98}],
    ["geom", {"p_0": 0.98, "t_0": 0.99}],
    ["geom", {"t_0": 0.99, "t_ex": 0.98, "p_0": 0.97, "p_ex": 0.96}],
    ["geom", {"p_ex": 0.96, "t_ex": 0.98, "t_0": 0.97, "p_0": 0.99}],
]
BOUND = {
    "quick": "all 1 + 13 + 13**2 configurations reached by <= 2 operations x all 74 invalid "
    "calls + 6 calls rejected depending on the geometry (configuration and outputs compared "
    "after each); all 14 configurations of depth <= 1 x 27 invalid calls x 9 valid operations afterwards",
    "thorough": "configurations reached by <= 3 operations; followed by a valid operation from depth <= 2 for all of them",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    for pre in hist.sequences(range(len(OPS)), 3 if full else 2):
        out.append(dict(kind="after", pre=list(pre)))
    for pre in hist.sequences(range(len(OPS)), 2 if full else 1):
        for f in range(len(FOLLOW)):
            out.append(dict(kind="follow", pre=list(pre), f=f, full=full))
    return out


def key(case):
    return f"{case['kind']}|{hist.short([OPS[i] for i in case['pre']])}|{case.get('f')}"


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        {"after": after, "follow": follow}[case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def start(case):
    L = m.Live(V, S, dict(dB=False))
    L.do(["geom", {"t_0": {"arr": [0.2, 0.7, 1.2]}, "p_0": 0.3}])
    L.do(["upd", dict(tau=0.3, omega=0.2, NormBRDF=0.3, t_v=0.4, t_s=-0.2, k=0.8)])
    L.do(["calc"])
    for i in case["pre"]:
        # (operations that are rejected in this configuration are part of the property)
        L.do(OPS[i])
    return L


def config(L):
    import rt1_model

    R = L.R
    out = {}
    for k in m.ANGS:
        try:
            out[k] = np.array(getattr(R, k)).tolist()
        except AttributeError:
            out[k] = "unset"
    out["params"] = {k: np.array(v).tolist() for k, v in R.param_dict.items()}
    out["flags"] = [R.int_Q, R.sig0, R.dB, R.I0]
    out["defs"] = [str(getattr(R, f"_{k}", None)) for k in m.PARAMS]
    out["backend"] = rt1_model.get_lambda_backend()
    out["functions"] = [id(R.V), id(R.SRF)]
    return repr(out)


def quick_obs(L):
    L.do(["calc"])
    L.do(["jac", ["tau", "t_v"]])


def reject(L, name, f, r):
    before = config(L)
    try:
        f(L.R)
    except Exception:
        pass
    else:
        raise m.Violation(f"{name}: not rejected after {L.trace}")
    if config(L) != before:
        raise m.Violation(f"{name}: configuration changed from {before} to {config(L)}")
    r.transitions += 1


def all_bad(L, r):
    for name, f in B().items():
        yield name, lambda L, name=name, f=f: reject(L, name, f, r)
    for op in DEP:
        try:
            L.cfg.copy().set_geom(**op[1])
        except m.Rejected:
            def g(L, op=op):
                before = config(L)
                if L.do(op) != "rejected" or config(L) != before:
                    raise m.Violation(f"{op}: configuration changed after {L.trace}")
                r.transitions += 1

            yield str(op), g


def after(case, r):
    L = start(case)
    hist.observe(L, r)
    for name, f in all_bad(L, r):
        f(L)
        try:
            quick_obs(L)
        except m.Violation as ex:
            raise m.Violation(f"after {name}: {ex}")
        r.states += 1
    r.obs.add(str(hist.observe(L, r)))


def follow(case, r):
    names = [n for n, _ in all_bad(start(case), r)]
    if not case.get("full"):
        # one kind of invalid value per call
        names = [n for n in names if "#" not in n or n.endswith("#1")]
        names = [n for n in names if not n.startswith(("assign", "ctor", "backend 3", "backend ["))]
    for name in names:
        L = start(case)
        dict(all_bad(L, r))[name](L)
        try:
            L.do(FOLLOW[case["f"]])
            for op in hist.completion(L.cfg):
                L.do(op)
            r.obs.add(str(L.do(["calc"])))
            L.do(["jac", ["tau", "t_v"]])
        except m.Violation as ex:
            raise m.Violation(f"after {name}: {ex}")
        r.states += 1
        r.transitions += 4
