"""C22: the 3D analyzer always shows the current model.

All selections of contributions x prior states of the model x all sequences of slider
events up to a depth (as de Bruijn walks on the real widget): after every event the drawn
surfaces are read back, each vertex is converted to a direction and a radius, and the
radius is compared with the requested contribution of the reference model in that
direction; the set of drawn artists and the model's flags are compared, too.
"""
import itertools
import warnings

import numpy as np

import machine as m
import specs as sx
from checks import c21
from engine import Result

PROPERTY = "C22"
PI = np.pi
HG = "HenyeyGreenstein"
MODELS = [
    ([HG, {"t": "t_v", "ncoefs": 2}], [HG, {"t": "t_s", "ncoefs": 2}], {}),
    (["LinComb", [["w", ["Rayleigh", {}]], [0.4, [HG, {"t": 0.3, "ncoefs": 1}]]]],
     ["CosineLobe", {"i": 2, "ncoefs": 2, "a": [0.6, 1.0, 1.0]}], dict(tau="0.5 * k", bsf=0.1)),
]
SLIDERS = [
    [dict(tau=[0.1, 0.9], t_v=[-0.4, 0.5, 0.1, "asym"]), dict(omega=[0.0, 1.0]), {}],
    [dict(k=[0.2, 1.5, 0.3], w=[0.0, 0.6], unused=[0.0, 1.0]), dict(NormBRDF=[0.1, 1.0])],
]
CONTR = ["".join(c) for n in (1, 2, 3, 4) for c in itertools.combinations("tsvi", n)]
CONTR += ["st", "it", "vs", "ivst", None]
FLAGS = [dict(int_Q=True, dB=False), dict(int_Q=False, dB=True), dict(int_Q=True, sig0=False, I0=2.5, dB=True), dict(int_Q=False, dB=False)]
PRE = ["fresh", "evaluated", "bistatic", "fixed"]
INC = [0.1, 30.0, 89.9]
LABELS = dict(t="Total", s="Surface", v="Volume", i="Interaction")
BOUND = {
    "quick": "20 selections of contributions x 4 flag settings x 4 prior states (every other combination) x 5 sets of "
    "sliders (2 models, both backends alternating): all single events and all sequences of 2 events for the first "
    "set of sliders (3 for 4 configurations); 3 values per slider and incidence angle; 5 x 5 directions per surface",
    "thorough": "all sequences of 2 events for all configurations, of 3 events for 60 configurations",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    n = 0
    for (ci, c), f, (pi, pre) in itertools.product(enumerate(CONTR), range(len(FLAGS)), enumerate(PRE)):
        if not full and (ci + f + pi) % 2:
            continue
        for mi in range(len(MODELS)):
            for si in range(len(SLIDERS[mi])):
                if si and not full and n % 3:
                    n += 1
                    continue
                d = 2 if full or (si == 0 and n % 4 == 0) else 1
                out.append(dict(c=c, f=f, pre=pre, mi=mi, si=si, b=("symengine", "sympy")[n % 2], depth=d))
                n += 1
    for c in ("ts", "tsvi", "i") if full else ("tsvi", "ts"):
        for f in range(4) if full else (0, 1):
            for mi in (0, 1) if full else (f,):
                out.append(dict(c=c, f=f, pre="evaluated", mi=mi, si=0, b="symengine", depth=3))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            explore(case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import matplotlib.pyplot as plt

        import rt1_model

        plt.close("all")
        rt1_model.set_lambda_backend("symengine")
    return r


def start(case, sliders):
    V, S, defs = MODELS[case["mi"]]
    L = m.Live(V, S, FLAGS[case["f"]], case["b"])
    need = ["tau", "omega", "NormBRDF", *sorted(sx.params_of(V) | sx.params_of(S)), "k"]
    for k, d in defs.items():
        L.do(["def", k, d])
    pre = case["pre"]
    if pre == "fresh":
        need = [k for k in need if k not in sliders]
    L.do(["upd", {k: c21.PAR[k] for k in need}])
    if pre == "bistatic":
        L.do(["bi"])
        L.do(["geom", {"t_0": {"arr": [0.3, 0.5]}, "t_ex": 0.4, "p_0": 0.1, "p_ex": 2.0}])
    elif pre == "fixed":
        L.do(["bi", {"t_0": 0.4, "p_0": 0.1, "t_ex": 1.0, "p_ex": 0.0}])
    elif pre == "evaluated":
        L.do(["geom", {"t_0": {"arr": [0.3, 0.5]}, "p_0": 0.7}])
    if pre != "fresh":
        L.do(["calc"])
    return L


class Ref:
    """value of the contributions in a direction"""

    def __init__(self, cfg, contr):
        self.cfg = cfg.copy()
        self.cfg.set_bi()
        self.cfg.dB = False
        self.cfg.int_Q = "i" in contr
        self.cache = {}

    def rows(self, vals, inc, dirs):
        k = (tuple(sorted(vals.items())), inc, dirs.tobytes())
        if k not in self.cache:
            c = self.cfg.copy()
            c.set_geom(t_0=float(np.deg2rad(inc)), t_ex={"arr": dirs[:, 0].tolist()}, p_0=0.0, p_ex={"arr": dirs[:, 1].tolist()})
            c.update(**vals)
            self.cache[k] = c.result("calc")
        return self.cache[k]


def polygons(c):
    v = getattr(c, "_faces", None)
    if v is None:
        v = np.asarray(c._vec)[:3].T
    v = np.ma.filled(np.ma.asarray(v, dtype=float), np.nan).reshape(-1, 3)
    return v[np.all(np.isfinite(v), axis=1)]


def check(a, ref, contr, vals, inc, n, r):
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection

    surf = {}
    anonymous = 0
    for c in a.ax.collections:
        if not isinstance(c, Poly3DCollection):
            raise m.Violation(f"unexpected artist {c}")
        label = c.get_label()
        if label.startswith("_"):
            anonymous += 1
        elif label in surf:
            raise m.Violation(f"two surfaces for {label}")
        else:
            surf[label] = polygons(c)
    if sorted(surf) != sorted(LABELS[i] for i in contr):
        raise m.Violation(f"surfaces {sorted(surf)} instead of {contr}")
    if anonymous != 1:
        raise m.Violation(f"{anonymous} ground surfaces")
    order = [i for i in "tsvi"]
    zmax = 0
    for i in contr:
        p = surf[LABELS[i]]
        rad = np.linalg.norm(p, axis=1)
        zmax = max(zmax, np.max(np.abs(p[:, 2]), initial=0))
        sign = np.where(p[:, 2] < 0, -1.0, 1.0)
        ok = rad > 1e-12
        u = p[ok] * sign[ok, None] / rad[ok, None]
        th = np.arccos(np.clip(u[:, 2], -1, 1))
        ph = np.where(np.hypot(u[:, 0], u[:, 1]) > 1e-6, np.arctan2(u[:, 1], u[:, 0]), 0.0)
        th = np.where(th < 2e-6, 0.0, th)
        ph = np.where(th == 0, 0.0, ph)
        ph = np.where(ph < -PI + 1e-6, PI, ph)
        dirs = np.unique(np.round(np.stack([th, ph], axis=1), 7) + 0.0, axis=0)
        # (shared between the contributions)
        dirs, inv = canonical(ref, dirs, np.round(np.stack([th, ph], axis=1), 7) + 0.0)
        exp = ref.rows(vals, inc, dirs)[order.index(i)][inv]
        got = (rad * sign)[ok]
        sc = np.max(np.abs(exp), initial=0)
        if not np.all(np.abs(got - exp) <= 3e-6 * np.abs(exp) + 2e-6 * sc + 1e-12):
            j = int(np.argmax(np.abs(got - exp)))
            raise m.Violation(f"{LABELS[i]} shows {got[j]} instead of {exp[j]} at {dirs[inv[j]]}")
        if np.any(~ok):
            grid = directions(n)
            if not np.min(np.abs(ref.rows(vals, inc, grid)[order.index(i)])) < 1e-9:
                raise m.Violation(f"{LABELS[i]} vanishes somewhere")
        elif len(dirs) < n * (n - 2):
            raise m.Violation(f"{LABELS[i]} is shown in {len(dirs)} directions only")
        r.transitions += len(dirs)
    # incidence and specular direction
    lines = a.ax.get_lines()
    if len(lines) != 2:
        raise m.Violation(f"{len(lines)} lines")
    want = {round(inc, 6), round(-inc, 6)}
    for l in lines:
        x, y, z = (np.asarray(v, dtype=float) for v in l.get_data_3d())
        if np.hypot(x[0], z[0]) < 1e-300:
            want = {}
            continue
        t = round(float(np.rad2deg(np.arctan2(x[0], z[0]))), 6)
        if t not in want or abs(x[1]) + abs(z[1]) + np.max(np.abs(y)) > 1e-9:
            raise m.Violation(f"incidence angle {inc} is drawn as {t}")
        want = want - {t}


def directions(n):
    t, p = np.meshgrid(np.deg2rad(np.linspace(0, 89, n)), np.deg2rad(np.linspace(-180, 180, n)))
    return np.stack([t.ravel(), p.ravel()], axis=1)


def canonical(ref, dirs, all_dirs):
    """map directions that agree up to rounding on the ones seen first"""
    known = ref.__dict__.setdefault("known", np.empty((0, 2)))
    idx = []
    for d in dirs:
        k = np.flatnonzero(np.max(np.abs(known - d), axis=1) < 3e-6) if len(known) else []
        if len(k):
            idx.append(int(k[0]))
        else:
            known = np.vstack([known, d])
            idx.append(len(known) - 1)
    ref.known = known
    use = sorted(set(idx))
    pos = {k: i for i, k in enumerate(use)}
    lut = {tuple(d): pos[i] for d, i in zip(dirs, idx)}
    return known[use], np.array([lut[tuple(d)] for d in all_dirs], dtype=int)


def explore(case, r):
    sliders = SLIDERS[case["mi"]][case["si"]]
    L = start(case, sliders)
    n = 5
    contr = case["c"] or "ts"
    kw = {} if case["c"] is None else dict(contributions=contr)
    a = L.R.analyze3d(samples=n, **kw, **{k: tuple(v) for k, v in sliders.items()})
    a.f.canvas.draw = lambda *args, **kwargs: None
    used = {k: v for k, v in sliders.items() if k != "unused"}
    vals = {}
    for k, v in used.items():
        vals[k] = v[2] if len(v) > 2 else (v[0] + v[1]) / 2
        s = a.sliders[k]
        if (s.valmin, s.valmax) != tuple(v[:2]) or s.label.get_text() != (v[3] if len(v) > 3 else k):
            raise m.Violation(f"slider {k}: {s.valmin}, {s.valmax}, {s.label.get_text()} instead of {v}")
    if set(a.sliders) != {*used, "inc"}:
        raise m.Violation(f"sliders {sorted(a.sliders)} instead of {sorted(used)}")
    ref = Ref(L.cfg, contr)
    for k in used:
        ref.cfg.params.pop(k, None)
    init, inc = dict(vals), 45.0
    alphabet = []
    for k, v in used.items():
        mid = round(v[0] + (v[1] - v[0]) * 0.3, 4)
        alphabet += [(k, x) for x in (v[0], mid, v[1])]
    alphabet += [("inc", x) for x in INC] + [("reset", "inc")] + [("reset", k) for k in list(used)[:1]]
    done = []

    def judge():
        for k, s in a.sliders.items():
            if not m.same(s.val, vals.get(k, inc), rtol=1e-12):
                raise m.Violation(f"slider {k} is at {s.val} after {done[-4:]}")
        try:
            check(a, ref, contr, vals, inc, n, r)
        except m.Violation as ex:
            raise m.Violation(f"{ex} (sliders {vals}, inc {inc}, after {done[-4:]})")
        if L.R.int_Q is not FLAGS[case["f"]].get("int_Q", True) or L.R.sig0 is not FLAGS[case["f"]].get("sig0", True):
            raise m.Violation(f"int_Q {L.R.int_Q}, sig0 {L.R.sig0} after {done[-4:]}")
        r.states += 1

    judge()
    for e in c21.de_bruijn(len(alphabet), case["depth"]):
        k, x = alphabet[e]
        done.append((k, x))
        if k == "reset":
            a.sliders[x].reset()
            if x == "inc":
                inc = 45.0
            else:
                vals[x] = init[x]
        else:
            a.sliders[k].set_val(x)
            if k == "inc":
                inc = x
            else:
                vals[k] = x
        judge()
    r.obs |= {str(k[:2]) for k in ref.cache}
