"""C15: pickling and copying round-trip without side effects.

Every state reached by operation sequences up to the depth bound x every kind of (repeated)
round trip; the original and the copy are compared with the reference before and after
further operations on either of them.  States are restored in a fresh process, too.
"""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

import hist
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C15"

V = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
S = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 1}]
V2 = ["LinComb", [["w", ["Rayleigh", {}]], [0.4, V]]]
S2 = ["CosineLobe", {"i": 2, "ncoefs": 2, "a": [0.6, 1.0, 1.0]}]
MODELS = [(V, S), (V2, S2)]
OPS = [
    ["calc"],
    ["jac", ["tau", "t_v", "k"]],
    ["bi"],
    ["bi", {"t_0": 0.4, "t_ex": 0.9, "p_0": 0.2, "p_ex": 2.1}],
    ["mono", 0.3],
    ["geom", {"t_0": {"arr": [0.3, 0.6, 1.1]}, "p_0": 0.2}],
    ["geom", {"t_ex": {"col": [0.3, 0.6]}, "p_ex": 0.2}],
    ["upd", {"tau": {"col": [0.1, 0.9]}, "k": 0.7}],
    ["def", "tau", "k * 0.6"],
    ["def", "omega", {"sym": "k * 0.3"}],
    ["def", "NormBRDF", {"sym": "+beta * S"}],
    ["def", "NormBRDF", {"arr": [0.1, 0.2, 0.3]}],
    ["flag", "int_Q", False],
    ["flag", "dB", True],
    ["flag", "I0", 2.5],
    ["backend", "sympy"],
]
# operations used to show independence
AFTER = [
    ["upd", {"tau": 0.9, "t_v": -0.3}],
    ["bi", {"t_ex": 0.6}],
    ["def", "omega", "0.8 * t_v**2"],
    ["flag", "sig0", False],
]
TRIPS = ["p", "d", "pp", "dp"]
BOUND = {
    "quick": "all states reached by <= 2 of 16 operations (and evaluated or not) x 4 (repeated) "
    "round trips (cloudpickle, deepcopy and both twice), 2 models; 4 further operations on "
    "either side; all states of depth <= 1 restored in a fresh process with either backend",
    "thorough": "as quick with states of depth 3, states of depth 2 restored in a fresh process",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    n = 0
    for mod in range(len(MODELS)):
        for ops in hist.sequences(range(len(OPS)), 3 if full else 2):
            if len(ops) == 3 and mod:
                continue
            for t in TRIPS if len(ops) < 2 or (full and len(ops) < 3) else [TRIPS[n % 4]]:
                if len(ops) == 2 and mod and not full and n % 2 == 0:
                    n += 1
                    continue
                out.append(dict(kind="trip", mod=mod, ops=list(ops), trip=t))
                n += 1
    for mod in range(len(MODELS)):
        for i in range(-1, len(OPS) if full else 0):
            for b in ("symengine", "sympy"):
                out.append(dict(kind="fresh", mod=mod, first=i, b=b))
    out.append(dict(kind="methods"))
    for how in ("fn", "fnevals"):
        for t in TRIPS:
            out.append(dict(kind="input", how=how, trip=t))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        globals()["run_" + case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import matplotlib.pyplot as plt

        import rt1_model

        plt.close("all")
        rt1_model.set_lambda_backend("symengine")
    return r


def start(mod, ops):
    L = m.Live(*MODELS[mod], dict(dB=False))
    L.do(["geom", {"t_0": 0.5, "p_0": 0.3}])
    L.do(["upd", dict(tau=0.3, omega=0.2, NormBRDF=0.3, t_v=0.4, t_s=-0.2, k=0.8, w=0.3, beta=0.7, S=0.5)])
    for i in ops:
        L.do(OPS[i])
    return L


def trip(R, how):
    import cloudpickle

    for h in how:
        R = cloudpickle.loads(cloudpickle.dumps(R)) if h == "p" else copy.deepcopy(R)
    return R


def methods(R):
    return sorted(
        k for k in dir(R) if not k.startswith("_") and callable(getattr(type(R), k, None))
    )


def attrs(R):
    out = {}
    for k in m.ANGS:
        try:
            out[k] = np.array(getattr(R, k)).tolist()
        except AttributeError:
            out[k] = "unset"
    out["params"] = {k: np.array(v).tolist() for k, v in R.param_dict.items()}
    out["flags"] = [R.int_Q, R.sig0, R.dB, R.I0]
    out["fn"] = [type(R.V).__name__, type(R.SRF).__name__, str(R.V.phase_function), str(R.SRF.phase_function)]
    return repr(out)


def observe(L, r):
    ops = [op for op in hist.completion(L.cfg) if op[0] == "geom"]
    for op in ops:
        L.do(op)
    r.obs.add(str(hist.observe(L, r, singles=False)))
    r.states += 1


def run_trip(case, r):
    L = start(case["mod"], case["ops"])
    before = attrs(L.R), sorted(L.R.__dict__), sorted(L.R.V.__dict__), sorted(L.R.SRF.__dict__)
    R2 = trip(L.R, case["trip"])
    now = attrs(L.R), sorted(L.R.__dict__), sorted(L.R.V.__dict__), sorted(L.R.SRF.__dict__)
    if before[0] != now[0]:
        raise m.Violation(f"original changed from {before} to {now}")
    if attrs(R2) != before[0]:
        raise m.Violation(f"copy has configuration {attrs(R2)} instead of {before[0]}")
    if type(R2) is not type(L.R) or methods(R2) != methods(L.R):
        raise m.Violation(f"methods {methods(R2)} instead of {methods(L.R)}")
    C = m.Live(None, None, R=R2, cfg=L.cfg.copy(), backend=L.rt1.get_lambda_backend())
    order = [L, C] if len(case["ops"]) % 2 else [C, L]
    for X in order:
        observe(X, r)
    # independence in both directions
    n = sum(case["ops"])
    for i, op in enumerate((AFTER[n % 4], AFTER[(n + 1) % 4])):
        order[i].do(op)
        r.transitions += 1
        for X in order:
            observe(X, r)
    # angles that are currently not in use
    for X in order:
        X.do(["backend", "symengine"])
        X.do(["mono"] if not X.cfg.mono else ["bi"])
        for op in hist.completion(X.cfg):
            if op[0] == "geom":
                X.do(op)
        r.obs.add(X.do(["calc"]))
        r.transitions += 2
    # in-place changes of the arrays of one side
    for k, v in C.R.param_dict.items():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 0.123
    observe(L, r)


FRESH = """
import sys, pickle, base64
sys.path[:0] = {path!r}
import warnings; warnings.simplefilter("ignore")
import matplotlib; matplotlib.use("Agg")
import engine
engine.prepare()
import cloudpickle, rt1_model, machine as m, hist
from checks import c15
out = []
for payload, cfg, backend in pickle.load(open(sys.argv[1], "rb")):
    try:
        rt1_model.set_lambda_backend(backend)
        R = cloudpickle.loads(payload)
        L = m.Live(None, None, R=R, cfg=cfg, backend=backend)
        again = cloudpickle.dumps(R)
        r = engine.Result()
        c15.observe(L, r)
        if c15.methods(R) != c15.METHODS():
            raise m.Violation("methods " + str(c15.methods(R)))
        L.do(["geom", {{"t_0": 0.77}}] if "t_0" not in cfg.fixed else ["upd", {{"tau": 0.5}}])
        c15.observe(L, r)
        out.append((r.states, r.transitions, again, None))
    except Exception as ex:
        out.append((0, 0, None, type(ex).__name__ + ": " + str(ex)[:800]))
pickle.dump(out, open(sys.argv[2], "wb"))
"""


def METHODS():
    import rt1_model

    return sorted(
        k for k in dir(rt1_model.RT1) if not k.startswith("_") and callable(getattr(rt1_model.RT1, k))
    )


def run_fresh(case, r):
    import cloudpickle

    import rt1_model

    if case["first"] < 0:
        seqs = [()] + [(i,) for i in range(len(OPS))]
    else:
        seqs = [(case["first"], i) for i in range(len(OPS))]
    jobs, labels = [], []
    for seq in seqs:
        L = start(case["mod"], seq)
        jobs.append((cloudpickle.dumps(L.R), L.cfg, case["b"]))
        labels.append(seq)
        rt1_model.set_lambda_backend("symengine")
    with tempfile.TemporaryDirectory() as d:
        a, b, s = (os.path.join(d, x) for x in ("in.pkl", "out.pkl", "run.py"))
        with open(a, "wb") as f:
            pickle.dump(jobs, f)
        path = [p for p in sys.path if p]
        with open(s, "w") as f:
            f.write(FRESH.format(path=path))
        p = subprocess.run([sys.executable, "-B", s, a, b], capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise m.Violation(f"restoring in a fresh process failed: {p.stderr[-600:]}")
        with open(b, "rb") as f:
            out = pickle.load(f)
    for seq, job, (st, tr, again, err) in zip(labels, jobs, out):
        if err:
            raise m.Violation(f"after {[OPS[i] for i in seq]}, restored in a fresh process ({case['b']}): {err}")
        r.states += st
        r.transitions += tr + 1
        # .. and back
        rt1_model.set_lambda_backend(case["b"])
        L = m.Live(None, None, R=cloudpickle.loads(again), cfg=job[1], backend=case["b"])
        observe(L, r)


def run_methods(case, r):
    """the plotting methods work on the original and the copy"""
    for how in TRIPS:
        L = start(0, (0,))
        R2 = trip(L.R, how)
        par = dict(tau=(0.1, 0.5), t_v=(0.0, 0.4))
        for R in (R2, L.R):
            R.set_monostatic()
            R.set_geometry(t_0=0.5, p_0=0.3)
            R.update_params(tau=0.3, t_v=0.4)
            a = R.analyze(**par)
            ref = m.Cfg(V, S, dB=False)
            lines = [x for x in a.ax.get_lines() if not x.get_label().startswith("_")]
            ref.set_geom(t_0=np.deg2rad(lines[0].get_xdata()), p_0=0.0)
            ref.update(tau=0.3, omega=0.2, NormBRDF=0.3, t_v=0.2, t_s=-0.2)
            got, exp = [x.get_ydata() for x in lines], ref.result("calc")
            if len(got) != 4 or not all(any(m.same(x, e, rtol=1e-6) for x in got) for e in exp):
                raise m.Violation(f"analyze of {'copy' if R is R2 else 'original'} after {how}")
            R.analyze3d(samples=4, **par)
            R.V.polarplot(param_dict=dict(t_v=0.2))
            R.SRF.hemreflect(returnarray=True, simps_N=10, param_dict=dict(t_s=0.1))
            r.transitions += 4
        r.states += 1


def run_input(case, r):
    """models that use pre-computed coefficients"""
    import rt1_model

    A = start(0, ())
    kw = dict(fn_input=A.R._fn) if case["how"] == "fn" else dict(fnevals_input=A.R._fnevals)
    R = rt1_model.RT1(sx.impl("V", V), sx.impl("S", S), dB=False, **kw)
    L = m.Live(None, None, R=R, cfg=m.Cfg(V, S, dB=False))
    for op in (["geom", {"t_0": 0.5, "p_0": 0.3}], ["upd", dict(tau=0.3, omega=0.2, NormBRDF=0.3, t_v=0.4, t_s=-0.2)]):
        L.do(op)
    for ev in (False, True):
        if ev:
            observe(L, r)
        C = m.Live(None, None, R=trip(R, case["trip"]), cfg=L.cfg.copy())
        observe(C, r)
        observe(L, r)
        observe(A, r)
