"""C27: everything but the missing features works without the optional dependencies.

All combinations of available / missing optional dependencies x how they are missing x all
short histories of operations, each combination in fresh interpreters, in lock-step with the
reference model.
"""
import itertools
import json
import os
import subprocess
import sys

import machine as m
import specs as sx
from engine import Result

PROPERTY = "C27"
HG = "HenyeyGreenstein"
SPECS = [
    (["Rayleigh", {}], [HG, {"t": "t_s", "ncoefs": 2}]),
    ([HG, {"t": "t_v", "ncoefs": 2}], ["CosineLobe", {"i": 2, "ncoefs": 2}]),
    (
        ["LinComb", [["w_v", ["Isotropic", {}]], [0.4, ["HGRayleigh", {"t": 0.3, "ncoefs": 2}]]]],
        ["LinComb", [["w_s", ["Isotropic", {}]], [0.4, ["HG_nadirnorm", {"t": "t_s", "ncoefs": 2}]]]],
    ),
]
P = dict(tau=0.3, omega=0.2, NormBRDF=0.4, bsf=0.1, t_v=0.3, t_s=-0.2, w_v=0.4, w_s=0.3)
P2 = dict(tau=0.8, t_v=-0.5, t_s=0.4, w_v=0.8, w_s=0.6)
OPS = [
    ["calc"],
    ["upd", P2],
    ["geom", dict(t_0=[0.8, 0.45], p_0=1.3)],
    ["bi+", dict(t_0=[0.8, 0.45], t_ex=[0.2, 0.5], p_0=1.3, p_ex=2.0)],
    ["mono"],
    ["def", "tau", "2 * t_q"],
    ["upd", dict(t_q=0.25)],
    ["deepcopy"],
    ["pickle"],
    ["backend", "sympy"],
    ["backend", "symengine"],
    ["backend", "numpy"],
    ["log", "debug"],
]
MISSING = [[], ["symengine"], ["matplotlib"], ["symengine", "matplotlib"]]
HOW = ["ModuleNotFoundError", "ImportError", "None"]
BOUND = {
    "quick": "4 sets of missing optional dependencies x 3 pairs of functions x all histories of up to 2 operations (1 operation for 2 "
    "further ways of being missing) "
    "(13 operations: calc, updates, geometries, definitions, copies, accepted and rejected backends, debug messages); all outputs and the "
    "availability of the features observed after every history",
    "thorough": "all 3 ways of being missing with histories of up to 3 operations",
}


def cases(tier):
    out = []
    depth = 3 if tier == "thorough" else 2
    seqs = [list(s) for s in itertools.chain(*(itertools.product(range(len(OPS)), repeat=d) for d in range(depth + 1)))]
    for mi in range(len(MISSING)):
        for how in HOW if MISSING[mi] else HOW[:1]:
            for s in range(len(SPECS)):
                # (how a dependency is missing is only relevant when it is needed)
                todo = seqs if tier == "thorough" or how == HOW[0] else [q for q in seqs if len(q) < 2]
                n = max(1, len(todo) // 25)
                for c in range(n):
                    out.append(dict(missing=MISSING[mi], how=how, s=s, seqs=todo[c::n]))
    return out


def key(case):
    return f"{case['missing']}|{case['how']}|{case['s']}|{case.get('seq')}"


def run_case(case):
    r = Result()
    p = subprocess.run(
        [sys.executable, "-B", "-W", "ignore", "-c", "import sys; from checks import c27; c27.child(sys.stdin.read())"],
        input=json.dumps(case), capture_output=True, text=True, timeout=1500, env=os.environ,
        cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
    )
    if p.returncode or not p.stdout.strip():
        r.fail(key(case), f"missing {case['missing']} ({case['how']}): {p.stderr[-900:]}")
        return r
    d = json.loads(p.stdout.strip().splitlines()[-1])
    r.states, r.transitions, r.traces = d["states"], d["transitions"], d["traces"]
    r.obs = set(d["obs"])
    for k, msg in d["viol"]:
        r.fail(k, msg)
    return r


# ------------------------------------------------------------------ in a fresh interpreter
class Missing:
    def __init__(self, names, how):
        self.names, self.how = names, how

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            if self.how == "ImportError":
                raise ImportError(f"{name}: undefined symbol")
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)


def child(text):
    import contextlib
    import io
    import logging
    import warnings

    case = json.loads(text)
    if case["how"] == "None":
        for n in case["missing"]:
            sys.modules[n] = None
    else:
        sys.meta_path.insert(0, Missing(case["missing"], case["how"]))
    warnings.simplefilter("ignore")
    r = Result()
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            import rt1_model

            logging.getLogger("rt1_model").setLevel(logging.CRITICAL)
            package(case, rt1_model)
            for seq in case["seqs"]:
                history(case, seq, rt1_model, r)
        except m.Violation as ex:
            r.fail(key(case), f"missing {case['missing']} ({case['how']}): {ex}")
    print(json.dumps(dict(states=r.states, transitions=r.transitions, traces=r.traces, obs=sorted(r.obs), viol=r.viol)))


def package(case, rt1):
    has_plot = "matplotlib" not in case["missing"]
    if rt1.get_lambda_backend() != ("sympy" if "symengine" in case["missing"] else "symengine"):
        raise m.Violation(f"initial backend {rt1.get_lambda_backend()}")
    env = {}
    try:
        exec("from rt1_model import *", env)
    except Exception as ex:
        raise m.Violation(f"from rt1_model import *: {type(ex).__name__} {ex}")
    names = {"RT1", "volume", "surface", "set_lambda_backend", "get_lambda_backend"} | ({"plot"} if has_plot else set())
    if not names <= set(env):
        raise m.Violation(f"from rt1_model import * does not provide {sorted(names - set(env))}")


def history(case, seq, rt1, r):
    ops = [OPS[i] for i in seq]
    symengine = "symengine" not in case["missing"]
    start = "symengine" if symengine else "sympy"
    rt1.set_lambda_backend(start)
    rt1.set_loglevel("critical")
    V, S = SPECS[case["s"]]
    what = f"missing {case['missing']} ({case['how']}), {V} {S}, {ops}: "
    L = m.Live(V, S, dict(dB=False), start)
    r.traces += 1
    try:
        backend = start
        for op in [["geom", dict(t_0=[0.3, 0.6], p_0=0.2)], ["upd", P], *ops]:
            r.transitions += 1
            if op[0] == "bi+":
                L.do(["bi"])
                L.do(["geom", op[1]])
            elif op[0] == "log":
                rt1.set_loglevel(op[1])
                if rt1.get_lambda_backend() != backend:
                    raise m.Violation(f"active backend {rt1.get_lambda_backend()} instead of {backend}")
            elif op[0] == "backend":
                ok = op[1] == "sympy" or (op[1] == "symengine" and symengine)
                try:
                    rt1.set_lambda_backend(op[1])
                    done = True
                except Exception:
                    done = False
                if done != ok:
                    raise m.Violation(f"backend {op[1]} {'accepted' if done else 'rejected'}")
                backend = op[1] if ok else backend
                if rt1.get_lambda_backend() != backend:
                    raise m.Violation(f"active backend {rt1.get_lambda_backend()} instead of {backend}")
            else:
                L.do(op)
        if L.cfg.missing("calc"):
            L.do(["calc"])
            L.do(["upd", dict(t_q=0.15)])
        keys = sorted(k for k in set(P) | {"t_q"} if k in L.cfg.params and k in L.cfg.required("calc") | {"tau", "omega"} - ({"tau"} if isinstance(L.cfg.defs["tau"], str) and L.cfg.defs["tau"] != "tau" else set()))
        for op in [["calc"], ["surface"], ["volume"], ["interaction"], ["jac", keys], ["value", "tau"]]:
            r.obs.add(str(L.do(op)))
            r.transitions += 1
        # features
        plots = "matplotlib" not in case["missing"]
        for o, names in ((L.R, ["analyze", "analyze3d"]), (L.R.V, ["polarplot"]), (L.R.SRF, ["polarplot", "hemreflect"])):
            for n in names:
                if hasattr(o, n) != plots:
                    raise m.Violation(f"{type(o).__name__}.{n} {'missing' if plots else 'offered'}")
        r.states += 1
    except m.Violation as ex:
        r.fail(f"{case['missing']}|{case['how']}|{case['s']}|{seq}", what + str(ex))
    except Exception as ex:
        r.fail(f"{case['missing']}|{case['how']}|{case['s']}|{seq}", what + f"unexpected {type(ex).__name__}: {ex}")
