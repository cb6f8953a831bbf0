"""C12: models are independent of each other.

All interleavings (sequences up to the depth bound over the union of the alphabets of two
models) of operations on two models that share scattering-function objects and arrays;
both models are compared with their own reference configuration.  In addition a third
model may be created, used and dropped at any position, and many models are used round
robin (more than any bounded cache holds).
"""
import gc
import itertools

import numpy as np

import hist
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C12"

V1 = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
V2 = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 3}]
V3 = ["LinComb", [["w", V1], [0.3, ["Rayleigh", {}]]]]
S1 = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 1.0, 0.6]}]
S2 = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 1, "a": [0.7, 1.0, 0.6]}]
S3 = ["LinComb", [[0.4, S1], ["w", ["CosineLobe", {"i": 2, "ncoefs": 2}]]]]

SHARE = {
    "objs": ((V1, S1), (V1, S1)),  # same objects
    "class": ((V1, S1), (V2, S2)),  # different objects of the same class
    "parts": ((V1, S1), (V3, S3)),  # the objects of the first are parts of the second
}

PART = {
    "combos": ([["w", V1], [0.3, ["Rayleigh", {}]]], [[0.9, V1], ["k", ["Rayleigh", {}]]]),
    "combosS": ([[0.4, S1], ["w", ["CosineLobe", {"i": 2, "ncoefs": 2}]]], [["k", S1], [0.7, ["CosineLobe", {"i": 2, "ncoefs": 2}]]]),
}
# different combinations of the same objects / a combination that is a part of another one
SHARE["combos"] = tuple((["LinComb", v], ["LinComb", s]) for v, s in zip(PART["combos"], PART["combosS"]))
SHARE["nested"] = (SHARE["combos"][0], tuple(["LinComb", [[0.6, f], ["k", f[1][1][1]]]] for f in SHARE["combos"][0]))

OPS = [
    ["geom", {"t_0": 0.35}],
    ["geom", {"t_0": {"arr": [0.3, 0.6, 1.1]}, "p_0": 1.2}],
    ["bi"],
    ["bi", {"t_0": 0.4, "t_ex": 0.9, "p_0": 0.2, "p_ex": 2.1}],
    ["mono", 0.3],
    ["upd", {"tau": 0.7, "t_v": 0.5}],
    ["def", "tau", "k * 0.6"],
    ["flag", "int_Q", False],
]
NARROW = [1, 3, 5, 6, 7]  # operations used for the longest sequences
OPS2 = OPS + [
    ["upd", {"tau": {"col": [0.1, 0.9]}, "k": 0.2}],
    ["def", "bsf", "0.5 * k"],
    ["calc"],
    ["jac", ["tau", "t_v", "k"]],
    ["flag", "I0", 2.5],
    ["backend", "sympy"],
    ["setV", V2],
    ["pickle"],
]
BOUND = {
    "quick": "all 32**2 sequences of length 2 over 16 operations per model (both models "
    "observed before and after) and all 11**3 sequences of length 3 over 5 operations per model "
    "+ creation/use/deletion of a third model (both models observed at the end), rotating "
    "over 5 kinds of sharing (objects, classes, parts of combinations, combinations of the same parts, nested combinations); 150 models and 300 functions alive, evaluated round robin",
    "thorough": "as quick with all 17**3 sequences of length 3 over 8 operations for every "
    "kind of sharing, length 4 (11**4) over 5 operations per model, both backends",
}


def cases(tier):
    out = []
    full = tier == "thorough"
    shares = list(SHARE)
    n = 0

    def add(seq, b="symengine", all_shares=full, **kw):
        nonlocal n
        for s in shares if all_shares else [shares[n % len(shares)]]:
            out.append(dict(kind="seq", seq=list(seq), share=s, b=b, **kw))
        n += 1

    for seq in itertools.product(range(2 * len(OPS2)), repeat=2):
        add(seq, wide=True, before=True)
    k = len(OPS)
    narrow = NARROW + [k + i for i in NARROW] + [2 * k]
    for seq in itertools.product(range(2 * k + 1) if full else narrow, repeat=3):
        add(seq, wide=False, before=False)
    if full:
        for seq in itertools.product(narrow, repeat=4):
            add(seq, all_shares=False, wide=False, before=False)
        for seq in itertools.product(range(2 * k + 1), repeat=2):
            add(seq, b="sympy", wide=False, before=True)
    for b in ("symengine", "sympy"):
        out.append(dict(kind="many", b=b))
        out.append(dict(kind="functions", b=b))
    return out


def key(case):
    if case["kind"] != "seq":
        return case["kind"] + case["b"]
    return f"{case['share']}:" + ";".join(map(str, decode(case)))


def decode(case):
    ops = OPS2 if case["wide"] else OPS
    out = []
    for i in case["seq"]:
        if i == 2 * len(ops):
            out.append((2, "third"))
        else:
            out.append((i // len(ops), ops[i % len(ops)]))
    return out


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        {"seq": seq, "many": many, "functions": functions}[case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import rt1_model

        rt1_model.set_lambda_backend("symengine")
    return r


def models(share, b):
    (va, sa), (vb, sb) = SHARE[share]
    V, S = sx.impl("V", va), sx.impl("S", sa)
    if share == "objs":
        objs = (V, S)
    elif share == "class":
        objs = (sx.impl("V", vb), sx.impl("S", sb))
    elif share in ("combos", "nested"):
        from rt1_model import surface, volume

        parts = [[sx.impl(k, f) for _, f in o[1]] for k, o in zip("VS", (va, sa))]
        weights = lambda o: [w for w, _ in o[1]]
        make = lambda f, o, p: f.LinComb(list(zip(weights(o), p)))
        mods = (volume, surface)
        V, S = (make(f, o, p) for f, o, p in zip(mods, (va, sa), parts))
        if share == "nested":
            parts = [(V, parts[0][1]), (S, parts[1][1])]
        objs = tuple(make(f, o, p) for f, o, p in zip(mods, (vb, sb), parts))
    else:
        from rt1_model import surface, volume

        objs = (
            volume.LinComb([("w", V), (0.3, sx.impl("V", ["Rayleigh", {}]))]),
            surface.LinComb([(0.4, S), ("w", sx.impl("S", ["CosineLobe", {"i": 2, "ncoefs": 2}]))]),
        )
    A = m.Live(va, sa, dict(dB=False), b, objs=(V, S))
    # (expansions of nested combinations are not supported)
    B = m.Live(vb, sb, dict(dB=False, int_Q=share != "nested"), b, objs=objs)
    # both models get the very same arrays
    t, p = np.array([0.25, 0.8, 1.2]), np.array(0.3)
    tau, ts = np.array([0.2, 0.5, 0.3]), np.array([0.3])
    for L, w in ((A, 0.3), (B, 0.5)):
        L.R.set_geometry(t_0=t, p_0=p)
        L.cfg.set_geom(t_0=t.copy(), p_0=p.copy())
        L.R.update_params(tau=tau, t_s=ts, t_v=w, omega=0.3, NormBRDF=0.2, k=w, w=w)
        L.cfg.update(tau=tau.copy(), t_s=ts.copy(), t_v=w, omega=0.3, NormBRDF=0.2, k=w, w=w)
    return A, B


def seq(case, r):
    A, B = models(case["share"], case["b"])
    Ls = [A, B]

    def observe():
        for L in Ls:
            for op in completable(L):
                L.do(op)
            r.obs.add(str(hist.observe(L, r, singles=False)))
        r.states += 1

    if case["before"]:
        observe()
    for who, op in decode(case):
        if who == 2:
            third(A, r)
        else:
            Ls[who].do(op)
        r.transitions += 1
    observe()


def completable(L):
    # only geometry may be missing
    return [op for op in hist.completion(L.cfg) if op[0] == "geom"]


def third(A, r):
    L = m.Live(A.cfg.V, A.cfg.S, dict(dB=False), "symengine", objs=(A.R.V, A.R.SRF))
    L.do(["bi", {"t_0": 0.9}])
    L.do(["geom", {"t_ex": {"arr": [0.1, 0.7]}, "p_0": 0.0, "p_ex": 0.5}])
    L.do(["upd", dict(tau=1.1, omega=0.2, NormBRDF=0.3, t_v=-0.2, t_s=0.6, w=0.2, k=1.0)])
    L.do(["def", "omega", "omega * k"])
    L.do(["calc"])
    L.do(["jac", ["tau", "t_s"]])
    del L
    gc.collect()


def many(case, r):
    """more models alive than a bounded cache can hold"""
    V, S = sx.impl("V", V1), sx.impl("S", S1)
    Ls = []
    for i in range(150):
        L = m.Live(V1, S1, dict(dB=False, int_Q=i % 10 == 0), case["b"], objs=(V, S))
        L.do(["geom", {"t_0": 0.1 + i * 0.009, "p_0": 0.3}])
        L.do(["upd", dict(tau=0.1 + 0.01 * i, omega=0.2, NormBRDF=0.3, t_v=0.3, t_s=0.002 * i, k=0.5 + i)])
        L.do(["def", "omega", ["omega * k / 100", "0.001 * k", "omega"][i % 3]])
        Ls.append(L)
    for rnd in range(3):
        for i, L in enumerate(Ls):
            if rnd == 1 and i % 2:
                L.do(["geom", {"t_0": 1.2 - i * 0.005}])
                L.do(["def", "tau", "0.5 * tau"])
            if rnd == 2 and i % 3 == 0:
                L.do(["upd", {"k": 0.7}])
            r.obs.add(L.do(["calc"]))
            L.do(["jac", ["tau", "t_s", "omega"]])
            r.transitions += 2
        r.states += 1


def functions(case, r):
    """many function objects with differing constants, evaluated round robin"""
    import rt1_model

    rt1_model.set_lambda_backend(case["b"])
    d = (0.4, 0.9, 0.3, 1.8)
    fs = []
    for i in range(150):
        for side, spec in (
            ("V", ["HenyeyGreenstein", {"t": 0.006 * i, "ncoefs": 2}]),
            ("S", ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-1.0 + 0.01 * i, 1.0, 1.0]}]),
        ):
            fs.append((sx.impl(side, spec), sx.ref(side, spec), spec))
    for rnd in range(2):
        for f, ref, spec in fs:
            par = {k: 0.3 + 0.1 * rnd for k in sx.params_of(spec)}
            got, exp = f.calc(*d, param_dict=par), ref.value(*d, par)
            if not m.same(got, exp, rtol=1e-9):
                raise m.Violation(f"{spec}: value {got} instead of {exp}")
            r.transitions += 1
        r.states += 1
    r.obs.add("ok")
