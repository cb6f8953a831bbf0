"""C07: the sparse jacobian has the layout least_squares needs.

All numbers of timestamps and incidence angles up to 3, all static/dynamic assignments of
the parameters, all ordered selections of requested parameters, all ways to provide the
measurement geometry.
"""
import itertools

import machine as m
from engine import Result

PROPERTY = "C07"

V = ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]
S = ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2}]
KEYS = ["tau", "omega", "NormBRDF", "bsf", "t_s", "k"]
BOUND = {
    "quick": "1-3 timestamps x 1-3 incidence angles x 4 layouts of the geometry x all "
    "static/dynamic assignments of 5 (6 if one is defined by an expression) parameters x selections of 1 and all 6 parameters (<= 2, ordered, for 3 sizes), up to 40 timestamps or 30 angles with one, two or five timeseries over two orders of magnitude "
    "; timeseries of different, constant and vanishing values; angles in row- and column-major order; entries of comparable and of very different magnitude; static values as number, (1,), (1,1); 3 units; both backends; redefinitions of every "
    "parameter by a number, an array, an expression of a (static or dynamic) symbol and a "
    "constant while static/dynamic values of the earlier definition remain",
    "thorough": "as quick with all ordered selections of <= 3 parameters and up to 4 x 4 measurements",
}


def cases(tier):
    out = []
    n = 4 if tier == "quick" else 5
    for nt, nm in itertools.product(range(1, n), repeat=2):
        for lay in ("full", "row", "flat", "col"):
            if lay == "col" and nm > 1:
                continue
            for b in ("symengine", "sympy"):
                for dyn in itertools.product((0, 1), repeat=len(KEYS)):
                    if dyn[5] and not expr((nt, nm)):
                        continue
                    if b == "sympy" and sum(dyn) not in (0, 1, 6) and tier == "quick":
                        continue
                    out.append(dict(nt=nt, nm=nm, lay=lay, dyn=list(dyn), b=b,
                                    st=sum(dyn) % 3, u=(nt + nm + sum(dyn)) % 3,
                                    deep=tier == "thorough"))
                    base = out[-1]
                    # timeseries of constant values (different from 0, 0), and
                    # angles and timeseries in column-major memory order
                    if nt > 1 and sum(dyn) in (1, 5, 6):
                        out.append(dict(base, inc=0.0, deep=False))
                        if b == "symengine":
                            out.append(dict(base, inc=0.0, zero=1, deep=False))
                    # entries of very different magnitude
                    if b == "symengine" and sum(dyn) in (0, 1, 5) and (nt, nm) in ((1, 2), (2, 2), (3, 2), (3, 3)):
                        out += [dict(base, wide=1, u=u, deep=False) for u in (1, 2)]
                    if nt > 1 and nm > 1 and lay == "full" and sum(dyn) in (0, 1, 2, 5):
                        out.append(dict(base, inc=0.05, order="F", deep=False))
    # more timestamps than measurements per timestamp and vice versa
    for nt, nm in ((12, 1), (12, 2), (40, 2), (2, 12), (3, 30)):
        for dyn in itertools.product((0, 1), repeat=len(KEYS)):
            if dyn[5] or sum(dyn) not in (1, 2, 5):
                continue
            for u in (sum(dyn) % 3,) if nt == 40 else (1, 2):
                out.append(dict(nt=nt, nm=nm, lay="full", dyn=list(dyn), b="symengine", st=0, u=u, tall=1, inc=0.02, deep=False))
    # redefinitions while values of earlier definitions remain
    for (nt, nm), b in itertools.product(((2, 1), (2, 2), (3, 2), (2, 3)), ("symengine", "sympy")):
        for dyn in itertools.product((0, 1), repeat=4):
            if sum(dyn) in (0, 4) or tier == "thorough" or (nt, nm) == (3, 2):
                out.append(dict(redef=1, nt=nt, nm=nm, dyn=list(dyn), b=b))
    return out


REDEF = ["num", "arr", "expr", "const"]


def run_redef(case):
    """every pair of a (value of the) default definition and a new definition"""
    r = Result()
    r.traces = 1
    nt, nm = case["nt"], case["nm"]
    L = m.Live(V, S, dict(int_Q=False), case["b"])
    try:
        g = [[0.2 + 0.3 * j + 0.05 * i for j in range(nm)] for i in range(nt)]
        col = lambda v: {"col": [v + 0.05 * i for i in range(nt)]}
        L.do(["geom", {"t_0": {"arr": g}, "p_0": 0.0}])
        names = KEYS[:4]
        par = {"t_v": 0.4, "t_s": 0.3, "k": 0.7}
        par.update({k: col(VAL[k]) if d else VAL[k] for k, d in zip(names, case["dyn"])})
        L.do(["upd", par])
        r.transitions += 2
        for k in names:
            for kind in REDEF:
                for kcol in (0, 1):
                    if kcol and kind != "expr":
                        continue
                    d = dict(num=VAL[k], arr=col(VAL[k]), expr="0.4 * k", const="0.25")[kind]
                    L.do(["def", k, d])
                    L.do(["upd", {"k": col(0.5) if kcol else 0.7}])
                    for sel in ([k], [k, "t_s"], names, [*names[::-1], "k"]):
                        if "k" in sel and kind != "expr":
                            continue
                        r.obs.add(L.do(["jac", sel, "scipy_least_squares"]))
                        r.states += 1
                        r.transitions += 1
            L.do(["def", k, k])
            r.obs.add(L.do(["jac", names, "scipy_least_squares"]))
            r.transitions += 1
    except m.Violation as ex:
        r.fail(str(case), f"{case}: {ex}")
    finally:
        L.backend("symengine")
    return r


def expr(n):
    """sizes for which a model parameter is defined by an expression"""
    return n in ((2, 2), (3, 2), (2, 1))


VAL = dict(tau=0.3, omega=0.35, NormBRDF=0.25, bsf=0.15, t_s=0.3, k=0.7)


def run_case(case):
    if "redef" in case:
        return run_redef(case)
    r = Result()
    r.traces = 1
    nt, nm = case["nt"], case["nm"]
    sig0, dB = [(True, True), (True, False), (False, False)][case["u"]]
    L = m.Live(V, S, dict(int_Q=False, sig0=sig0, dB=dB), case["b"])
    try:
        keys = KEYS
        if expr((nt, nm)):
            L.do(["def", "omega", "omega * k"])
        else:
            keys = KEYS[:5]
        t = [0.2 + min(0.3, 1.2 / nm) * i for i in range(nm)]
        if case.get("wide"):
            t = [0.2, 1.45, 1.3][:nm]
        if case["lay"] == "full":
            g = [[x + case.get("inc", 0.05) * i for x in t] for i in range(nt)]
        elif case["lay"] == "row":
            g = [t]
        elif case["lay"] == "flat":
            g = t
        else:
            g = [[0.2 + 0.1 * i] for i in range(nt)]
        L.do(["geom", {"t_0": {case.get("order", "arr"): g}, "p_0": 0.0}])
        par = {"t_v": 0.4}
        for k, d in zip(keys, case["dyn"]):
            # (signals that vanish have no derivative in dB)
            zero = case.get("zero") and d and (not dB or k in ("bsf", "t_s", "k"))
            v = 0.0 if zero else VAL[k]
            if case.get("wide"):
                v = {"tau": 2.0, "bsf": 0.0 if d else 1e-7}.get(k, v)
            if d:
                par[k] = {"col": [v + case.get("inc", 0.05) * i for i in range(nt)]}
                if case.get("tall"):
                    top = dict(tau=8.0, omega=0.9, bsf=0.9, t_s=0.7).get(k, 1.0)
                    par[k] = {"col": [top * 100 ** ((i * 5 % nt + 1) / nt - 1) for i in range(nt)]}
            else:
                par[k] = [v, {"arr": [v]}, {"arr": [[v]]}][case["st"]]
        L.do(["upd", par])
        r.transitions += 3
        sels = [list(s) for n in (1, 2) for s in itertools.permutations(keys, n)]
        sels += [keys, keys[::-1]]
        if case["deep"]:
            sels += [list(s) for s in itertools.permutations(keys, 3)]
        elif case["b"] == "sympy" or "inc" in case or "wide" in case or not expr((nt, nm)):
            sels = sels[: len(keys)] + sels[-2:]
        for sel in sels:
            r.obs.add(L.do(["jac", sel, "scipy_least_squares"]))
            r.states += 1
            r.transitions += 1
        # the entries are those of the list format
        L.do(["jac", keys, "list"])
        try:
            L.R.jacobian(["tau"], format="matrix")
        except Exception:
            pass
        else:
            raise m.Violation("an unknown format was not rejected")
    except m.Violation as ex:
        r.fail(str(case), f"{case}: {ex}")
    finally:
        L.backend("symengine")
    return r
