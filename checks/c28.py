"""C28: results do not depend on the process (hash seed, iteration order of sets).

Processes are started for hash seeds 0, 1, 2, ... until the parameters of a model (their
names as well as their symbols) have been met in every possible iteration order of a set;
the same histories run in lock-step with the reference model in each of them, and models
and coefficients are handed over between all pairs of the processes.
"""
import base64
import itertools
import json
import os
import pickle
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import machine as m
import specs as sx
from engine import Result

PROPERTY = "C28"
HG = "HenyeyGreenstein"
# functions, definitions of the parameters, the three symbols the orders are enumerated for
MODELS = [
    ([HG, {"t": "t_v", "ncoefs": 2}], [HG, {"t": "t_s", "ncoefs": 2, "a": ["a_s", 1.0, 0.5]}], {}, ["t_v", "t_s", "a_s"]),
    (["LinComb", [["w_v * u", ["Rayleigh", {}]], ["1 - w_v", [HG, {"t": "t_v", "ncoefs": 2}]]]],
     ["LinComb", [["w_v", ["Isotropic", {}]], ["u * t_v", [HG, {"t": "t_v", "ncoefs": 2}]]]], {}, ["t_v", "w_v", "u"]),
    (["HGRayleigh", {"t": "x1 * x2", "ncoefs": 2}], ["CosineLobe", {"i": 2, "ncoefs": 3}],
     {"tau": "x1 + 0.5 * x2**2 + 0.1 * x3", "omega": "x2 - 0.4 * x1 * x3", "NormBRDF": "x3 * x1", "bsf": "x3 / 4 + x2 * x1 * 0.1"}, ["x1", "x2", "x3"]),
    ([HG, {"t": "p", "ncoefs": 2, "a": ["a1", "a2", "a2"]}], ["HG_nadirnorm", {"t": "p * a1", "ncoefs": 2}],
     {"tau": "p**2 * a2"}, ["p", "a1", "a2"]),
    (["Rayleigh", {}], ["Isotropic", {}], {"tau": "v_vod * (n_1 + 0.2) * q", "omega": "0.3 * q + 0.05 * x1 - 0.1 * x2**2 * x3 + 0.02 * p * a1 - 0.03 * a2 * u"}, ["v_vod", "n_1", "q"]),
]
VAL = dict(tau=0.31, omega=0.35, NormBRDF=0.25, bsf=0.15, t_v=0.4, t_s=-0.3, a_s=0.6, w_v=0.3, u=0.45,
           x1=0.5, x2=0.7, x3=0.2, p=0.35, a1=-0.7, a2=0.8, v_vod=0.6, n_1=0.9, q=0.5)
NEW = dict(tau=0.6, t_v=-0.2, t_s=0.5, u=0.7, x1=0.3, x3=0.4, p=-0.4, n_1=0.4)
SERIES = [0.15, 0.55]
ANG = dict(t_0=0.5, t_ex=1.0, p_0=0.2, p_ex=2.1)
BOUND = {
    "quick": "5 models (expressions of up to 8 symbols); processes for hash seeds until all 6 iteration orders of the names and all 6 iteration orders of the symbols of the "
    "3 free parameters have occurred; per process: {monostatic, bistatic} x 2 backends (one half of the pairs, alternating) x all 6 insertion orders of the parameters, all outputs, "
    "jacobians for all 6 orders x 2 formats, one parameter a timeseries (each in turn), all subsets of missing parameters; models and "
    "coefficients handed over between all pairs of processes",
    "thorough": "each order in two processes, all pairs of geometry and backend in every process",
}


def orders(seed):
    """iteration orders of the sets for a hash seed"""
    code = (
        "import json, sys, sympy as sp\n"
        f"print(json.dumps([[list({{*x}}), [s.name for s in {{*map(sp.Symbol, x)}}]] for x in {[x[3] for x in MODELS]!r}]))"
    )
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    return json.loads(subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, env=env, timeout=300, check=True).stdout)


def cases(tier):
    want = 2 if tier == "thorough" else 1
    found, n = [], 0
    with ThreadPoolExecutor(8) as pool:
        while n < 400:
            found += list(pool.map(orders, range(n, n + 24)))
            n += 24
            picks = [select([f[i] for f in found], want) for i in range(len(MODELS))]
            if all(picks):
                break
        else:
            raise RuntimeError("not all orders found")
    full = tier == "thorough"
    explore = [dict(kind="explore", model=i, seed=s, use=2 if full else (n + i) % 2) for i in range(len(MODELS)) for n, s in enumerate(picks[i])]
    return explore + [dict(kind="exchange", model=i, seeds=picks[i], use=2 * full) for i in range(len(MODELS))]


def select(found, want):
    """smallest (greedy) list of seeds that covers each order ``want`` times"""
    need = {(k, o): want for k in range(2) for o in itertools.permutations(sorted(found[0][0]))}
    seeds, left = [], dict(enumerate(found))
    gain = lambda f: sum(need[k, tuple(o)] > 0 for k, o in enumerate(f))
    while any(v > 0 for v in need.values()):
        s = max(left, key=lambda s: (gain(left[s]), -s), default=None)
        if s is None or not gain(left[s]):
            return None
        for k, o in enumerate(left.pop(s)):
            need[k, tuple(o)] -= 1
        seeds.append(s)
    return seeds


def key(case):
    return f"{case['kind']}|{case['model']}"


def spawn(case, seed, **kw):
    p = subprocess.run(
        [sys.executable, "-B", "-W", "ignore", "-c", "import sys; from checks import c28; c28.child(sys.stdin.read())"],
        input=json.dumps(dict(case, **kw)), capture_output=True, text=True, timeout=1500,
        env=dict(os.environ, PYTHONHASHSEED=str(seed)), cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
    )
    if p.returncode or not p.stdout.strip():
        return dict(states=0, transitions=0, traces=0, obs=[], viol=[p.stderr[-900:] or "no answer"], give=[])
    return json.loads(p.stdout.strip().splitlines()[-1])


def run_case(case):
    r = Result()

    def take(seed, d):
        r.states += d["states"]
        r.transitions += d["transitions"]
        r.traces += d["traces"]
        r.obs |= set(d["obs"])
        for msg in d["viol"]:
            r.fail(key(case), f"{case['kind']}, hash seed {seed}, {MODELS[case['model']]}: {msg}")
        return d

    if case["kind"] == "explore":
        take(case["seed"], spawn(case, case["seed"]))
        r.count(processes=1)
    else:
        given = {s: take(s, spawn(case, s, do="give", use=case["use"] or n % 2))["give"] for n, s in enumerate(case["seeds"])}
        for s in case["seeds"]:
            take(s, spawn(case, s, do="take", given={t: g for t, g in given.items() if t != s}))
        r.count(handovers=len(given) * (len(given) - 1))
    return r


# ---------------------------------------------------------------------- in a process
def child(text):
    import contextlib
    import io
    import logging
    import warnings

    case = json.loads(text)
    warnings.simplefilter("ignore")
    r = Result()
    give = []
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        import rt1_model

        logging.getLogger("rt1_model").setLevel(logging.CRITICAL)
        try:
            if case["kind"] == "explore":
                explore(case, rt1_model, r)
            elif case["do"] == "give":
                give = donate(case, r)
            else:
                for blobs in case["given"].values():
                    for blob in blobs:
                        receive(case, blob, r)
        except m.Violation as ex:
            r.fail("", str(ex))
        except Exception as ex:
            import traceback

            r.fail("", f"unexpected {type(ex).__name__}: {ex}\n{traceback.format_exc()[-500:]}")
    print(json.dumps(dict(states=r.states, transitions=r.transitions, traces=r.traces, obs=sorted(map(str, r.obs)), viol=[v for _, v in r.viol], give=give)))


def parnames(V, S, defs):
    out = {k for k in m.PARAMS if k not in defs} | sx.params_of(V) | sx.params_of(S)
    for d in defs.values():
        out |= sx.names(d)
    return sorted(out)


def look(L, names, r, orders=None):
    for op in ["calc"], ["surface"], ["volume"], ["interaction"], ["value", "tau"], ["value", "omega"], ["value", "bsf"]:
        r.obs.add(L.do(op))
        r.transitions += 1
    for o in orders or [names]:
        L.do(["jac", list(o)])
        L.do(["jac", list(o), "scipy_least_squares"])
        r.transitions += 2
    r.states += 1


def build(case, g, b, par):
    V, S, defs, _ = MODELS[case["model"]]
    L = m.Live(V, S, dict(dB=False), b)
    for k, d in defs.items():
        L.do(["def", k, d])
    L.do(["mono"] if g == "mono" else ["bi"])
    L.do(["geom", {k: ANG[k] for k in (("t_0", "p_0") if g == "mono" else m.ANGS)}])
    if par:
        L.do(["upd", {p: VAL[p] for p in par}])
    return L


def explore(case, rt1, r):
    V, S, defs, free = MODELS[case["model"]]
    names = parnames(V, S, defs)
    rest = [k for k in names if k not in free]
    combos = itertools.product(("mono", "bi"), ("symengine", "sympy"))
    for g, b in [c for n, c in enumerate(combos) if case["use"] == 2 or case["use"] == (0 < n < 3)]:
        coefs = None
        for n, o in enumerate(itertools.permutations(free)):
            r.traces += 1
            # (one half of the models uses the coefficients of the first one)
            L = build(case, g, b, [*o, *rest] if n % 2 else [*rest, *o])
            if coefs is None:
                coefs = L.R._fn
            elif n % 2:
                R = rt1.RT1(L.R.V, L.R.SRF, dB=False, fn_input=coefs)
                for k, d in defs.items():
                    setattr(R, k, d)
                (R.set_monostatic if g == "mono" else R.set_bistatic)()
                R.set_geometry(**{k: ANG[k] for k in (("t_0", "p_0") if g == "mono" else m.ANGS)})
                R.update_params(**L.R.param_dict)
                L.R = R
            look(L, names, r, list(itertools.permutations(free)) if n < 2 else [o])
            L.do(["upd", {k: v for k, v in NEW.items() if k in names}])
            look(L, names, r)
            L.do(["upd", {o[0]: {"arr": SERIES}}])
            look(L, names, r, [o, [*o[:1], *rest]])
            functions(L, o, r)
        for k in range(len(names) + 1):
            for sub in itertools.combinations(names, k):
                L = build(case, g, b, sub)
                for op in ["calc"], ["surface"], ["volume"]:
                    r.obs.add(L.do(op))
                    r.transitions += 1
                r.states += 1
            if len(names) > 5 and k == 2:
                break
    rt1.set_lambda_backend("symengine")


def donate(case, r):
    V, S, defs, free = MODELS[case["model"]]
    names = parnames(V, S, defs)
    give = []
    both = itertools.product(("mono", "bi"), ("symengine", "sympy"), (0, 1))
    for g, b, ev in [x for n, x in enumerate(both) if case["use"] == 2 or n in ((1, 6), (2, 5))[case["use"]]]:
        L = build(case, g, b, names)
        if ev:
            look(L, names, r)
        give.append(pack(case, g, b, L))
    return give


def functions(L, o, r):
    """values of the functions themselves"""
    for side, f, spec in (("V", L.R.V, L.cfg.V), ("S", L.R.SRF, L.cfg.S)):
        ref = sx.ref(side, spec)
        use = [k for k in o if k in sx.params_of(spec)]
        got = f.calc(0.5, 1.0, 0.2, 2.1, {k: VAL[k] for k in use})
        e = ref.value(0.5, 1.0, 0.2, 2.1, {k: VAL[k] for k in use})
        if not m.same(got, e, rtol=1e-7):
            raise m.Violation(f"{spec} has value {got} instead of {e}")
        r.transitions += 1


def pack(case, g, b, L):
    import cloudpickle

    return dict(
        g=g, b=b, model=base64.b64encode(cloudpickle.dumps(L.R)).decode(), fn=base64.b64encode(pickle.dumps(L.R._fn)).decode(),
        params={k: m.np.array(v).tolist() for k, v in L.cfg.params.items()},
    )


def receive(case, blob, r):
    """continue with a model (and with coefficients) of another process"""
    import cloudpickle
    import rt1_model

    V, S, defs, free = MODELS[case["model"]]
    names = parnames(V, S, defs)
    for how in ("model", "fn"):
        L = build(case, blob["g"], blob["b"], [])
        if how == "model":
            L.R = cloudpickle.loads(base64.b64decode(blob["model"]))
            L.cfg.params = {k: m.np.array(v, ndmin=1) for k, v in blob["params"].items()}
        else:
            R = rt1_model.RT1(L.R.V, L.R.SRF, dB=False, fn_input=pickle.loads(base64.b64decode(blob["fn"])))
            for k, d in defs.items():
                setattr(R, k, d)
            if blob["g"] == "bi":
                R.set_bistatic()
            R.set_geometry(**{k: ANG[k] for k in (("t_0", "p_0") if blob["g"] == "mono" else m.ANGS)})
            L.R = R
            L.do(["upd", {k: {"list": v} for k, v in blob["params"].items() if k in names}])
        r.traces += 1
        L.do(["calc"])
        L.do(["upd", {k: VAL[k] for k in free[::-1]}])
        look(L, names, r)
    rt1_model.set_lambda_backend("symengine")
