"""Shared pieces of the history checks: observations, completion, enumeration."""

import itertools

import machine as m
import specs as sx
from engine import Result

DEFAULT_ANG = dict(t_0=0.55, t_ex=0.75, p_0=0.4, p_ex=1.9)
DEFAULT_PAR = 0.23


def obs_ops(L, jac=True, singles=True):
    """all observations that are possible on the model"""
    ops = [["calc"]]
    if singles:
        ops += [["surface"], ["volume"], ["interaction"]]
    ops += [["value", k] for k in m.PARAMS]
    if jac:
        keys = ["tau", "omega", "NormBRDF", "bsf"]
        keys += sorted(set(L.cfg.params) - set(keys))
        keys = [k for k in keys if jac_key_ok(L.cfg, k)]
        ops += [["jac", keys]]
    return ops


def jac_key_ok(cfg, k):
    """a key is only well-defined as a parameter if the model has such a parameter

    (the name of a model-parameter that is defined by an expression not using that name
    denotes the value of the model parameter itself)
    """
    return True


def observe(L, res=None, **kw):
    out = []
    for op in obs_ops(L, **kw):
        out.append(L.do(op))
        if res is not None:
            res.transitions += 1
    return out


def completion(cfg):
    """operations that make the configuration complete"""
    ops = []
    need = ("t_0", "p_0") if cfg.mono else m.ANGS
    g = {k: DEFAULT_ANG[k] for k in need if k not in cfg.ang}
    if g:
        ops.append(["geom", g])
    miss = sorted(cfg.missing("calc"))
    if miss:
        ops.append(["upd", {k: DEFAULT_PAR for k in miss}])
    return ops


def run_history(case, final=True):
    """case: V, S, flags, backend, pre (list of ops), ops (list of ops), mode"""
    res = Result()
    L = m.Live(case["V"], case["S"], case.get("flags"), case.get("backend", "symengine"))
    try:
        for op in case.get("pre", ()):
            L.do(op)
            res.transitions += 1
        if case["mode"] == "each":
            res.obs.add(str(observe(L, res)))
            res.states += 1
        for op in case["ops"]:
            L.do(op)
            res.transitions += 1
            if case["mode"] == "each":
                res.obs.add(str(observe(L, res)))
                res.states += 1
        if case["mode"] == "end":
            res.obs.add(str(observe(L, res)))
            res.states += 1
        if final:
            comp = completion(L.cfg)
            if comp:
                for op in comp:
                    L.do(op)
                    res.transitions += 1
                res.obs.add(str(observe(L, res)))
                res.states += 1
    except m.Violation as ex:
        res.fail(case.get("key") or short(case["ops"]), f"{ex} after {L.trace[:-1]} (backend {case.get('backend')})")
    finally:
        L.backend("symengine")
    res.traces = 1
    return res


def short(ops):
    return ";".join("/".join(str(x) for x in op) for op in ops)[:300]


def sequences(alphabet, depth):
    for d in range(0, depth + 1):
        yield from itertools.product(alphabet, repeat=d)
