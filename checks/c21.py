"""C21: the monostatic analyzer always shows the current model.

All sequences of widget events (slider moves to every value of an alphabet, resets, range
selections) up to a depth: they are executed on the real analyzer as one walk per
configuration that contains every event sequence of that length as a window (a de Bruijn
sequence), starting from every single event; after every event all displayed lines, range
bands and sliders are compared with the reference model.
"""
import itertools
import warnings

import numpy as np

import hist
import machine as m
import specs as sx
from engine import Result

PROPERTY = "C21"
PI = np.pi
HG = "HenyeyGreenstein"
V1 = [HG, {"t": "t_v", "ncoefs": 2}]
S1 = [HG, {"t": "t_s", "ncoefs": 2}]
V2 = ["LinComb", [["w", ["Rayleigh", {}]], [0.4, [HG, {"t": "t_v", "ncoefs": 1}]]]]
S2 = ["CosineLobe", {"i": 2, "ncoefs": 2, "a": [0.6, 1.0, 1.0]}]

CONF = [
    dict(V=V1, S=S1, flags=dict(dB=True), sliders=dict(tau=[0.1, 0.5], omega=[0.05, 0.4, 0.1], t_v=[-0.4, 0.5, 0.0, "asym"])),
    dict(V=V1, S=S1, flags=dict(dB=False, int_Q=False), range="tau",
         sliders=dict(tau=[0.0, 2.0, 0.3, "Optical Depth"], NormBRDF=[0.0, 1.0], bsf=[0.0, 1.0, 0.2])),
    dict(V=V2, S=S2, flags=dict(dB=False, sig0=False, I0=2.5), range="w", defs=dict(omega="k**2 * 0.5", tau=0.3),
         sliders=dict(k=[0.2, 1.0], w=[0.0, 0.6, 0.3, "weight"])),
    dict(V=V2, S=S1, flags=dict(dB=True, sig0=False), defs=dict(bsf="0.2 * k + 0.1 * t_s", tau="0.5 * k"),
         sliders=dict(t_s=[-0.5, 0.6], k=[0.3, 0.9])),
    dict(V=["Isotropic", {}], S=["Isotropic", {}], flags=dict(dB=False), sliders=dict(omega=[0.0, 1.0])),
    dict(V=["Rayleigh", {}], S=S1, flags=dict(dB=True), sliders={}),
    dict(V=V1, S=S1, flags=dict(dB=False), range="omega",
         sliders=dict(unused=[0.0, 1.0], omega=[0.05, 0.4], t_v=[-0.4, 0.5])),
]
PAR = dict(tau=0.35, omega=0.22, NormBRDF=0.3, t_v=0.25, t_s=-0.2, w=0.35, k=0.6)
PRE = ["fresh", "evaluated", "bistatic", "fixed", "array"]
BOUND = {
    "quick": "7 configurations (0-3 sliders, with and without start value / name / range parameter) x 5 "
    "prior states of the model x both backends; walks containing all sequences of 2 events (3 for two configurations); "
    "3 values per slider (limits and between), reset, all range selections",
    "thorough": "walks containing all sequences of 3 events for all configurations and backends",
}


def cases(tier):
    full = tier == "thorough"
    out = []
    for c in range(len(CONF)):
        for b in ("symengine", "sympy"):
            for pre in PRE:
                d = 3 if full else 2 if pre == "fresh" else 1
                out.append(dict(c=c, b=b, pre=pre, depth=d, part=[0, 1]))
    if not full:
        for c in (2, 3):
            for part in range(4):
                out.append(dict(c=c, b="symengine", pre="evaluated", depth=3, part=[part, 4]))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def radio(a):
    from matplotlib.widgets import RadioButtons

    (w,) = [x for x in vars(a).values() if isinstance(x, RadioButtons)]
    return w


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            explore(case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    finally:
        import matplotlib.pyplot as plt

        import rt1_model

        plt.close("all")
        rt1_model.set_lambda_backend("symengine")
    return r


def de_bruijn(k, n):
    """cyclic sequence over range(k) that contains every word of length n"""
    a, seq = [0] * (k * n + n + 1), []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def start(case, sliders):
    import rt1_model

    c = CONF[case["c"]]
    L = m.Live(c["V"], c["S"], c["flags"], case["b"])
    need = ["tau", "omega", "NormBRDF", *sorted(sx.params_of(c["V"]) | sx.params_of(c["S"])), "k"]
    for k, d in c.get("defs", {}).items():
        L.do(["def", k, d])
    if case["pre"] == "fresh":
        # the analyzer provides the parameters itself
        need = [k for k in need if k not in sliders]
    L.do(["upd", {k: PAR[k] for k in need}])
    pre = case["pre"]
    if pre == "bistatic":
        L.do(["bi"])
        L.do(["geom", {"t_0": {"arr": [0.3, 0.5]}, "t_ex": 0.4, "p_0": 0.1, "p_ex": 2.0}])
    elif pre == "fixed":
        L.do(["bi", {"t_0": 0.4, "p_0": 0.1, "t_ex": 1.0, "p_ex": 0.0}])
    elif pre in ("evaluated", "array"):
        L.do(["geom", {"t_0": {"arr": [0.3, 0.5]}, "p_0": 0.7}])
    if pre == "array":
        # arrays of parameters that have sliders are replaced by the slider values
        for k in sliders:
            if k in need:
                L.do(["upd", {k: {"arr": [0.1, 0.2]}}])
    if pre != "fresh":
        L.do(["calc"])
    return L


class Ref:
    def __init__(self, L, t0):
        self.cfg = L.cfg.copy()
        self.cfg.mono, self.cfg.fixed, self.cfg.ang = True, (), {}
        self.t0 = t0
        self.cache = {}
        self.sub = np.unique(np.r_[0 : len(t0) : 11, len(t0) - 1])

    def rows(self, vals, full=True):
        k = (tuple(sorted(vals.items())), full)
        if k not in self.cache:
            c = self.cfg.copy()
            c.set_geom(t_0=(self.t0 if full else self.t0[self.sub]).tolist(), p_0=0.0)
            c.set_geom(t_0={"arr": (self.t0 if full else self.t0[self.sub]).tolist()}, p_0=0.0)
            c.update(**vals)
            rows = c.result("calc")
            lin = c.copy()
            lin.dB = False
            sv = lin.result("calc")
            sv = sv[1] + sv[2]
            if c.dB:
                sv = 10 * np.log10(sv)
            self.cache[k] = rows, sv
        return self.cache[k]


LABELS = ["Total", "Surface", "Volume", "Interaction"]


def close(a, b, dB):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return m.same(a, b, rtol=0 if dB else 1e-6, atol=1e-5 if dB else 1e-10)


def check(a, ref, vals, sel, lim, r, band_cache):
    lines = a.ax.get_lines()
    named = {l.get_label(): l for l in lines if not l.get_label().startswith("_")}
    other = [l for l in lines if l.get_label().startswith("_")]
    rows, sv = ref.rows(vals)
    dB = ref.cfg.dB
    if sorted(named) != sorted(LABELS[: len(rows)]):
        raise m.Violation(f"lines {sorted(named)}")
    for label, row in zip(LABELS, rows):
        l = named[label]
        if not np.allclose(np.deg2rad(l.get_xdata()), ref.t0):
            raise m.Violation(f"line {label}: angles changed")
        if not close(l.get_ydata(), row, dB):
            raise m.Violation(f"line {label} shows {m.fmt(l.get_ydata()[:3])} expected {m.fmt(row[:3])}")
    if len(other) != (1 if ref.cfg.int_Q else 0):
        raise m.Violation(f"{len(other)} additional lines")
    for l in other:
        if not close(l.get_ydata(), sv, dB):
            raise m.Violation(f"line of surface + volume shows {m.fmt(l.get_ydata()[:3])} expected {m.fmt(sv[:3])}")
    r.transitions += len(lines)
    # range
    from matplotlib.collections import LineCollection, PolyCollection

    bands = [c for c in a.ax.collections if isinstance(c, PolyCollection)]
    inter = [c for c in a.ax.collections if isinstance(c, LineCollection)]
    if sel is None:
        if a.ax.collections or a.ax.patches:
            raise m.Violation(f"{len(a.ax.collections)} range-artists without a selected range")
        return
    if len(bands) != len(rows):
        raise m.Violation(f"{len(bands)} bands for {len(rows)} contributions")
    others = tuple(sorted((k, v) for k, v in vals.items() if k != sel))
    if (sel, others) not in band_cache:
        grid = np.linspace(*lim[sel], 39)
        band_cache[sel, others] = np.stack([ref.rows({**dict(others), sel: float(x)}, full=False)[0] for x in grid])
    dense = band_cache[sel, others]
    lo, hi = dense.min(axis=0), dense.max(axis=0)
    elo, ehi = dense[[0, -1]].min(axis=0), dense[[0, -1]].max(axis=0)
    deg = np.rad2deg(ref.t0[ref.sub])
    n_band = 0
    used = set()
    for c in bands:
        v = np.concatenate([p.vertices for p in c.get_paths()])
        got = np.array([[np.min(y), np.max(y)] for y in (v[np.abs(v[:, 0] - d) < 1e-6, 1] for d in deg)]).T
        # which contribution is it
        fits = [
            i
            for i in range(len(rows))
            if i not in used and band_ok(got, lo[i], hi[i], elo[i], ehi[i], dB)
        ]
        if not fits:
            raise m.Violation(
                f"band over {sel} is {m.fmt(got[:, :2])}, expected for the contributions "
                f"{[m.fmt(np.array([lo[i][:2], hi[i][:2]])) for i in range(len(rows))]}"
            )
        # every band belongs to a different contribution (in any order)
        used.add(fits[0])
        n_band += 1
        r.transitions += 1
    for c in inter:
        seg = np.array(c.get_segments())
        if not np.all(np.isfinite(seg)):
            continue
        idx = [int(np.argmin(np.abs(seg[0, :, 0] - d))) for d in deg]
        y = seg[:, idx, 1]
        if not any(band_ok(np.array([y.min(0), y.max(0)]), lo[i], hi[i], elo[i], ehi[i], dB) for i in range(len(rows))):
            raise m.Violation(f"intermediate lines over {sel} do not belong to the range of a contribution")
        r.transitions += 1


def band_ok(got, lo, hi, elo, ehi, dB):
    fin = np.isfinite(lo) & np.isfinite(hi)
    w = np.where(fin, hi - lo, 0)
    atol = 1e-5 if dB else 1e-9
    tol = 0.02 * w + atol
    with np.errstate(invalid="ignore"):
        return bool(
            np.all(
                ~fin
                | (
                    (np.abs(got[0] - lo) <= tol)
                    & (np.abs(got[1] - hi) <= tol)
                    & (got[0] <= elo + atol)
                    & (got[1] >= ehi - atol)
                )
            )
        )


def explore(case, r):
    c = CONF[case["c"]]
    sliders = {k: v for k, v in c["sliders"].items()}
    L = start(case, sliders)
    kw = {k: tuple(v) for k, v in sliders.items()}
    if "range" in c:
        kw["range_parameter"] = c["range"]
    a = L.R.analyze(**kw)
    a.f.canvas.draw = lambda *args, **kwargs: None  # (the rendering is not of interest)
    used = {k: v for k, v in sliders.items() if k != "unused"}
    vals, lim = {}, {}
    for k, v in used.items():
        lim[k] = v[:2]
        vals[k] = v[2] if len(v) > 2 else (v[0] + v[1]) / 2
        s = a.sliders[k]
        if (s.valmin, s.valmax) != tuple(v[:2]) or s.label.get_text() != (v[3] if len(v) > 3 else k):
            raise m.Violation(f"slider {k}: {s.valmin}, {s.valmax}, {s.label.get_text()} instead of {v}")
    init = dict(vals)
    if set(a.sliders) != set(used):
        raise m.Violation(f"sliders {sorted(a.sliders)} instead of {sorted(used)}")
    ref = Ref(L, np.deg2rad(a.ax.get_lines()[0].get_xdata()))
    for k in used:
        ref.cfg.params.pop(k, None)
    if not (len(ref.t0) > 10 and np.ptp(ref.t0) > 0.5):
        raise m.Violation(f"displayed angles {ref.t0}")
    sel = c.get("range")
    names = ["None", *used]
    labels = [t.get_text() for t in radio(a).labels]
    if labels != names:
        raise m.Violation(f"selectable ranges {labels} instead of {names}")
    bands = {}
    alphabet = [("reset", k) for k in list(used)[:1]]
    for k, v in used.items():
        mid = round(v[0] + (v[1] - v[0]) * 0.3, 4)
        alphabet += [("slide", k, x) for x in (v[0], mid, v[1])]
    alphabet += [("range", n) for n in names]
    walk = de_bruijn(len(alphabet), case["depth"])
    i, n = case["part"]
    size = -(-len(walk) // n)
    walk = walk[max(0, i * size - case["depth"] + 1) : (i + 1) * size]
    done = []

    def judge():
        for k, s in a.sliders.items():
            if not m.same(s.val, vals[k], rtol=1e-12):
                raise m.Violation(f"slider {k} is at {s.val} instead of {vals[k]} after {done[-4:]}")
        try:
            check(a, ref, vals, sel, lim, r, bands)
        except m.Violation as ex:
            raise m.Violation(f"{ex} (sliders {vals}, range {sel}, after {done[-4:]})")
        r.states += 1

    judge()
    for e in walk:
        ev = alphabet[e]
        done.append(ev)
        if ev[0] == "slide":
            a.sliders[ev[1]].set_val(ev[2])
            lo, hi = lim[ev[1]]
            vals[ev[1]] = min(max(ev[2], lo), hi)
        elif ev[0] == "reset":
            a.sliders[ev[1]].reset()
            vals[ev[1]] = init[ev[1]]
        else:
            radio(a).set_active(names.index(ev[1]))
            sel = None if ev[1] == "None" else ev[1]
        judge()
    r.obs |= {str(k) for k in ref.cache}
    # flags of the model are untouched
    for k in ("int_Q", "sig0", "dB", "I0"):
        if getattr(L.R, k) != getattr(ref.cfg, k):
            raise m.Violation(f"{k} of the model changed to {getattr(L.R, k)}")
