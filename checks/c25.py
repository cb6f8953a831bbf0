"""C25: independent models can be evaluated in concurrent threads.

Two (or three) real threads work on different models under a controlled scheduler
(lib/sched.py).  All schedules with one preemption at every source line of the package, and
(for short bodies) all schedules with two preemptions, are executed on the real code; every
model has to return exactly what it returns alone (compared with the reference model too).
"""
import itertools

import numpy as np

import machine as m
import sched
import specs as sx
from engine import Result

PROPERTY = "C25"
HG = "HenyeyGreenstein"
SPEC = {
    "iso": (["Isotropic", {}], ["Isotropic", {}]),
    "hg": ([HG, {"t": "t_v", "ncoefs": 2}], [HG, {"t": "t_s", "ncoefs": 2}]),
    "cos": (["HGRayleigh", {"t": "t_v", "ncoefs": 2}], ["CosineLobe", {"i": 2, "ncoefs": 2, "a": ["a_s", 1.0, 0.5]}]),
    "lin": (
        ["LinComb", [["w_v", ["Rayleigh", {}]], [0.4, [HG, {"t": "t_v", "ncoefs": 2}]]]],
        ["LinComb", [["1 - w_s", ["Isotropic", {}]], ["w_s", [HG, {"t": "t_s", "ncoefs": 2}]]]],
    ),
}
G1 = ["geom", dict(t_0=[0.3, 0.6], p_0=0.2)]
G2 = ["geom", dict(t_0=[0.8, 0.45, 0.1], p_0=1.3)]
B2 = ["geom", dict(t_0=[0.8, 0.45], t_ex=[0.2, 0.5], p_0=1.3, p_ex=2.0)]
P1 = dict(tau=0.3, omega=0.2, NormBRDF=0.4, bsf=0.1, t_v=0.3, t_s=-0.2, a_s=0.7, w_v=0.4, w_s=0.3)
P2 = dict(tau=0.7, omega=0.5, NormBRDF=0.9, bsf=0.3, t_v=-0.5, t_s=0.4, a_s=0.9, w_v=0.8, w_s=0.6)
C1, C2 = ["calc", P1], ["calc", P2]
JK = ["tau", "omega", "NormBRDF", "bsf", "t_v"]
J = ["jac", JK]
LIN = dict(dB=False)
NOI = dict(int_Q=False)
# name: (specification, shared objects, flags of the models, operations of the threads)
#   the operations before "|" are executed before the threads are started
SC = {
    # warm models: everything is compiled before
    "calc-calc": ("hg", 1, [{}, LIN], [[G1, C1, G2, C2, "|", G1, C1], [G2, C2, "|", G2, C2]]),
    "calc-calc-separate": ("hg", 0, [{}, {}], [[G1, C1, "|", C1], [G2, C2, "|", C2]]),
    "calc-calc-lincomb": ("lin", 1, [{}, {}], [[G1, C1, "|", C1], [G2, C2, "|", C2]]),
    "calc-calc-cosine": ("cos", 1, [{}, dict(sig0=False)], [[G1, C1, "|", C1], [G2, C2, "|", C2]]),
    "calc-geom": ("hg", 1, [{}, {}], [[G1, C1, "|", ["calc"]], [G1, C2, "|", G2, ["calc"], G1]]),
    "calc-update": ("hg", 1, [{}, {}], [[G1, C1, "|", ["calc"]], [G1, C1, "|", ["upd", P2], ["surface"], ["volume"]]]),
    "jac-calc": ("hg", 1, [{}, LIN], [[G1, C1, J, "|", J], [G2, C2, "|", C2]]),
    "jac-jac": ("hg", 1, [{}, LIN], [[G1, C1, J, "|", J], [G2, C2, J, "|", ["upd", P1], J]]),
    "calc-define": ("iso", 1, [{}, {}], [[G1, C1, "|", C1], [G2, C2, "|", ["def", "tau", "2 * tau"], ["calc"], ["def", "tau", "tau"]]]),
    "jac-define": ("iso", 1, [{}, {}], [[G1, C1, J[:1] + [JK[:4]], "|", J[:1] + [JK[:4]]], [G2, C2, "|", ["def", "omega", "tau * 0.3"], J[:1] + [["tau"]], ["def", "omega", "omega"]]]),
    "values-define": ("iso", 1, [{}, {}], [[["upd", P1], "|"] + [["value", k] for k in m.PARAMS], [["upd", P2], "|", ["def", "tau", "N * tau"], ["upd", {"N": 2}], ["value", "tau"], ["def", "tau", "tau"], ["value", "tau"]]]),
    "calc-flags": ("iso", 1, [{}, LIN], [[G1, C1, "|", C1], [G2, C2, "|", ["flag", "dB", True], ["flag", "sig0", False], ["calc"], ["flag", "dB", False], ["calc"], ["flag", "sig0", True]]]),
    "calc-new": ("iso", 1, [{}, {}], [[G1, C1, "|", C1], ["|", ["new"], G2, C2]]),
    "calc-copy": ("iso", 1, [{}, {}], [[G1, C1, "|", C1], [G2, C2, "|", ["deepcopy", "copy"], ["calc"]]]),
    "calc-bistatic": ("iso", 1, [{}, {}], [[G1, C1, "|", C1], [["bi"], B2, C2, "|", ["mono"], G2, C2, ["bi"], B2, C1]]),
    "calc-setV": ("iso", 1, [{}, {}], [[G1, C1, "|", C1], [G2, C2, "|", ["setV", SPEC["iso"][0]], ["setS", SPEC["iso"][1]], ["calc"]]]),
    # the scattering functions
    "fn-fn": ("hg", 1, [NOI, NOI], [["|", ["V", P1], ["S", P1]], ["|", ["V", P2], ["S", P2]]]),
    "fn-fn-order": ("lin", 1, [NOI, NOI], [["|", ["V", P1], ["S", P1]], ["|", ["S", dict(reversed(P2.items()))], ["V", dict(reversed(P2.items()))]]]),
    "fn-calc": ("hg", 1, [NOI, NOI], [["|", ["V", P2], ["S", P2]], [G1, C1, "|", C1]]),
    "leg-leg": ("hg", 1, [NOI, NOI], [["|", ["leg", "V", 0.3, 0.9], ["leg", "S", 0.3, 0.9]], ["|", ["leg", "V", 1.1, 0.4], ["leg", "S", 1.1, 0.4]]]),
    "leg-leg-lincomb": ("lin", 1, [NOI, NOI], [["|", ["leg", "V", 0.3, 0.9], ["leg", "S", 0.3, 0.9]], ["|", ["leg", "S", 1.1, 0.4], ["leg", "V", 1.1, 0.4]]]),
    "leg-fn": ("cos", 1, [NOI, NOI], [["|", ["leg", "V", 0.3, 0.9], ["leg", "S", 0.3, 0.9]], ["|", ["V", P2], ["S", P2]]]),
    "hem-hem": ("hg", 1, [NOI, NOI], [["|", ["hem", dict(t_s=0.3)]], ["|", ["hem", dict(t_s=-0.5)]]]),
    "hem-calc": ("hg", 1, [NOI, NOI], [["|", ["hem", dict(t_s=0.3)]], [G1, C1, "|", C1]]),
    # models without interaction contribution (short bodies)
    "short": ("hg", 1, [NOI, dict(NOI, dB=False)], [[G1, C1, "|", ["calc"]], [G1, C2, "|", G2, ["calc"]]]),
    "short-jac": ("iso", 1, [NOI, NOI], [[G1, C1, "|", ["jac", ["tau"]]], [G2, C2, "|", ["upd", P1], ["surface"]]]),
    "mu": ("iso", 1, [NOI, NOI], [[G1, C1, "|", ["surface"]], [G1, C2, "|", G2, ["surface"], G1, ["surface"]]]),
    # cold models: nothing has been compiled before
    "cold-iso": ("iso", 1, [{}, {}], [["|", G1, C1], ["|", G2, C2]]),
    "cold-hg": ("hg", 1, [{}, LIN], [["|", G1, C1], ["|", G2, C2]]),
    "cold-lin": ("lin", 1, [NOI, NOI], [["|", G1, C1], ["|", G2, C2]]),
    "cold-jac": ("hg", 1, [NOI, NOI], [["|", G1, ["upd", P1], J], ["|", G2, ["upd", P2], J]]),
    "cold-new": ("iso", 1, [{}, {}], [["|", ["new"], G1, C1], ["|", ["new"], ["bi"], B2, C2]]),
    "cold-coefs": ("cos", 1, [{}, {}], [["|", G1, ["upd", P1], ["interaction"]], ["|", ["bi"], B2, ["upd", P2], ["interaction"]]]),
    # three threads
    "three": ("hg", 1, [NOI, NOI, NOI], [[G1, C1, "|", ["surface"]], [G2, C2, "|", ["volume"]], [G1, C2, "|", G2, ["surface"]]]),
    "three-fn": ("hg", 1, [NOI, NOI, NOI], [["|", ["V", P1]], ["|", ["V", P2]], [G1, C2, "|", ["volume"]]]),
}
# (scenario, kind of events, number of preemptions); SYM: both threads do the same
SYM = {"calc-calc-separate", "calc-calc-lincomb", "calc-calc-cosine", "fn-fn", "leg-leg", "hem-hem", "cold-iso", "cold-hg", "cold-lin", "cold-jac"}
QUICK = (
    [(s, "line", 1) for s in (
        "calc-calc", "fn-fn", "fn-fn-order", "fn-calc", "short", "mu", "hem-hem", "hem-calc",
        "leg-leg", "leg-leg-lincomb", "leg-fn")]
    + [(s, "line1", 1) for s in (
        "calc-geom", "calc-update", "calc-calc-lincomb", "calc-calc-cosine", "calc-calc-separate", "jac-calc", "calc-define", "values-define", "calc-flags", "cold-lin", "short-jac")]
    + [(s, "call1", 1) for s in (
        "jac-jac", "jac-define", "calc-new", "calc-copy", "calc-bistatic", "calc-setV", "cold-iso", "cold-hg", "cold-jac", "cold-new")]
    + [(s, "call1", 2) for s in ("values-define", "mu", "short")]
    + [("fn-fn", "call", 2), ("three-fn", "call1", 2)]
)
FULL = (
    [(s, "line", 1) for s in SC if not s.startswith(("three", "cold-coefs"))]
    + [("cold-coefs", "line1", 1), ("cold-coefs", "call", 1)]
    + [(s, "call1", 2) for s in SC if s != "cold-coefs"]
    + [(s, "line", 2) for s in ("fn-fn", "mu")]
    + [(s, "line1", 2) for s in ("values-define", "fn-fn-order", "short", "short-jac", "fn-calc", "calc-geom")]
    + [(s, "call1", 3) for s in ("values-define", "mu", "fn-fn")]
)
CHUNKS = dict(quick=8, thorough=64)
BOUND = {
    "quick": "2 threads on different models with shared (or separate) scattering functions: 11 scenarios with all schedules of one "
    "preemption at any execution of any source line of the package, 11 with one preemption at the first execution of every line, 10 "
    "(compilation, construction, copies) at the first call of every function; all schedules with two preemptions at calls in 4 scenarios; "
    "3 threads with two preemptions at calls in one scenario",
    "thorough": "all scenarios with one preemption at any execution of any line and two preemptions at the first calls; 2 scenarios with "
    "two preemptions at any line, 6 at the first execution of any line, 3 with three preemptions at first calls",
}
ASSUMPTIONS = [
    "preemptions happen at the source lines of the package only (one line, including the libraries it calls, is atomic)",
    "schedules with more preemptions than stated are not covered",
    "drawing of figures is not covered (matplotlib is not thread-safe)",
]


def cases(tier):
    out = []
    for s, kind, bound in QUICK if tier == "quick" else FULL:
        n = len(SC[s][3])
        for order in itertools.permutations(range(n)):
            if s in SYM and order[0]:
                continue
            for c in range(CHUNKS[tier]):
                out.append(dict(s=s, kind=kind, bound=bound, order=list(order), chunk=[c, CHUNKS[tier]]))
    return out


def key(case):
    return f"{case['s']}|{case['order']}|{case['kind']}{case['bound']}"


class Thread:
    """one thread of a scenario: its model and its operations"""

    def __init__(self, spec, flags, ops, objs):
        self.specs, self.objs, self.flags = SPEC[spec], objs, flags
        k = ops.index("|")
        self.pre, self.ops = ops[:k], ops[k + 1 :]
        self.R = None
        if ["new"] not in self.ops:
            self.new()
        for op in self.pre:
            self.do(op)

    def new(self):
        import rt1_model

        self.R = rt1_model.RT1(V=self.objs[0], SRF=self.objs[1], **self.flags)

    def body(self):
        return [x for x in map(self.do, self.ops) if x is not None]

    def do(self, op):
        kind, args = op[0], op[1:]
        R = self.R
        dec = lambda d: {k: m.num(v) for k, v in d.items()}
        if kind == "new":
            self.new()
        elif kind == "geom":
            R.set_geometry(**dec(args[0]))
        elif kind == "mono":
            R.set_monostatic()
        elif kind == "bi":
            R.set_bistatic()
        elif kind == "upd":
            R.update_params(**dec(args[0]))
        elif kind in ("def", "flag"):
            setattr(R, args[0], args[1])
        elif kind in ("setV", "setS"):
            setattr(R, {"setV": "V", "setS": "SRF"}[kind], self.objs[kind == "setS"])
        elif kind == "deepcopy":
            import copy

            self.R = copy.deepcopy(R)
        elif kind in ("calc", "surface", "volume", "interaction"):
            return np.array(getattr(R, kind)(**dec(args[0] if args else {})))
        elif kind == "jac":
            return np.array([np.broadcast_to(j, np.broadcast_shapes(np.shape(R.t_0), np.shape(j))) for j in R.jacobian(list(args[0]))])
        elif kind == "value":
            return np.array(getattr(R, args[0]))
        elif kind in ("V", "S"):
            o = self.objs[kind == "S"]
            return np.array(o.calc(np.array([0.3, 0.7]), 0.5, 0.2, np.array([1.1, 1.4]), dec(args[0])))
        elif kind == "leg":
            o = self.objs[args[0] == "S"]
            e = o.legendre_expansion(args[1], args[2], 0.2, 1.5).doit()
            return np.array(float(e.subs({k: v for k, v in P1.items() if k in sx.params_of(self.specs[args[0] == "S"])})))
        elif kind == "hem":
            return np.array(self.objs[1].hemreflect(returnarray=True, param_dict=dict(args[0]), simps_N=20, t_0_step=30.0))
        else:
            raise ValueError(op)

    def check(self):
        """observed after all threads are finished"""
        if any(op[0] in ("V", "S", "leg", "hem") for op in self.ops):
            return []
        try:
            self.R.t_0
        except AttributeError:
            return [self.do(["value", "tau"])]
        return [self.do(["surface"]), self.do(["volume"])] + ([self.do(["interaction"])] if self.R.int_Q else [])


def threads(s, order=None):
    spec, shared, flags, ops = SC[s]
    objs = None
    out = []
    for f, o in zip(flags, ops):
        if objs is None or not shared:
            objs = [sx.impl("V", SPEC[spec][0]), sx.impl("S", SPEC[spec][1])]
        out.append(Thread(spec, f, o, objs))
    return out


_ALONE = {}


def alone(s):
    """what each thread returns on its own, with its own objects; validated with the reference"""
    if s in _ALONE:
        return _ALONE[s]
    spec, shared, flags, ops = SC[s]
    exp = []
    for f, o in zip(flags, ops):
        objs = [sx.impl("V", SPEC[spec][0]), sx.impl("S", SPEC[spec][1])]
        t = Thread(spec, f, o, objs)
        exp.append((t.body(), t.check()))
        L = m.Live(*SPEC[spec], f)
        for op in o:
            if op != "|" and op[0] not in ("new", "V", "S", "leg", "hem"):
                L.do(op)
    _ALONE[s] = exp
    return exp


def n_events(s, kind):
    out = []
    for i in range(len(SC[s][3])):
        ts = threads(s)
        sch = sched.Sched([t.body for t in ts], kind).run([(j, None) for j in range(len(ts)) if j != i] + [(i, None)])
        warm = sch.ws[i].n
        ts = threads(s)
        sch = sched.Sched([t.body for t in ts], kind).run([(i, None)])
        out.append(max(warm, sch.ws[i].n))
    return out


def plans(order, n, bound):
    """all schedules with exactly ``bound`` preemptions that start with order[0]"""
    a, b, *c = order
    rest = [(a, None), (b, None)] + [(i, None) for i in c]
    if c:  # three threads: a is preempted by b, b is preempted by c
        for i in range(n[a] + 1):
            for j in range(n[b] + 1):
                yield [(a, i), (b, j), (c[0], None), (b, None), (a, None)]
                yield [(a, i), (b, j), (c[0], None), (a, None), (b, None)]
    elif bound == 1:
        for i in range(n[a] + 1):
            yield [(a, i), (b, None), (a, None)]
    elif bound == 2:
        for i in range(n[a] + 1):
            for j in range(1, n[b] + 1):
                yield [(a, i), (b, j), *rest]
    else:
        for i in range(n[a] + 1):
            for j in range(1, n[b] + 1):
                for k in range(i + 1, n[a] + 1):
                    yield [(a, i), (b, j), (a, k), (b, None), (a, None)]


def run_case(case):
    r = Result()
    r.traces = 1
    s, kind = case["s"], case["kind"]
    exp = alone(s)
    n = n_events(s, kind)
    c, k = case["chunk"]
    cold = not any(SC[s][3][0][: SC[s][3][0].index("|")]) or any(op[0] in ("new", "deepcopy") for o in SC[s][3] for op in o)
    ts = None
    blocked = 0
    for i, plan in enumerate(plans(case["order"], n, case["bound"])):
        if i % k != c:
            continue
        if ts is None or cold:
            ts = threads(s)
        sch = sched.Sched([t.body for t in ts], kind).run(plan)
        r.states += 1
        r.transitions += len(sch.switches) + len(ts)
        r.obs.add(str(sch.switches))
        if sch.blocked:
            blocked += 1
            ts = None
        for j, (t, w) in enumerate(zip(ts or [], sch.ws)):
            verify(case, plan, sch, j, "returned", w.value, exp[j][0], w.exc)
            verify(case, plan, sch, j, "returns afterwards", t.check(), exp[j][1])
        if blocked > 20:
            break
    r.count(schedules=r.states, blocked_schedules=blocked)
    return r


def verify(case, plan, sch, j, what, got, exp, exc=None):
    head = f"{case['s']} schedule {plan} (switches {sch.switches}): thread {j} "
    if exc is not None:
        raise m.Violation(head + f"raised {type(exc).__name__}: {exc}")
    if len(got) != len(exp):
        raise m.Violation(head + f"{what} {len(got)} values instead of {len(exp)}")
    for g, e in zip(got, exp):
        if g.shape != e.shape or not m.same(g, e, rtol=1e-10, atol=1e-14):
            raise m.Violation(head + f"{what} {m.fmt(g)} instead of {m.fmt(e)}")
