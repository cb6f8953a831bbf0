"""Lock-step driver: the real RT1 model and a boring reference configuration.

Every operation is plain JSON.  ``Live.do(op)`` applies it to the real model through the
public API, applies the same operation to the reference configuration and compares the
outcome (value, shape, or rejection).  The reference configuration is just "what the user
has set so far"; its results are computed from scratch by refmodel for every observation.
"""

import copy
import warnings

import numpy as np

import refmodel as rm
import specs as sx

PI = np.pi
PARAMS = ("tau", "omega", "NormBRDF", "bsf")
ANGS = ("t_0", "t_ex", "p_0", "p_ex")


class Violation(Exception):
    pass


class Rejected(Exception):
    """The reference says that this operation has to be rejected."""

    def __init__(self, why, names=None, exc=None):
        super().__init__(why)
        self.names = names
        self.exc = exc


def num(v):
    """decode a JSON value: lists are arrays, {"f32": ..} single precision, .."""
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "f32":
            return np.asarray(x, dtype=np.float32)
        if k == "f64":
            return np.float64(x)
        if k == "int":
            return np.asarray(x, dtype=int)
        if k == "arr":
            return np.asarray(x, dtype=float)
        if k == "col":
            return np.asarray(x, dtype=float)[:, None]
        if k == "pyint":
            return int(x)
        if k == "list":
            return list(x)
        if k == "F":
            return np.asfortranarray(np.asarray(x, dtype=float))
        if k == "tuple":
            return tuple(x)
        if k == "npint":
            return np.int64(x)
        if k == "bool":
            return np.asarray(x, dtype=bool)
        if k == "strided":
            return np.repeat(np.asarray(x, dtype=float), 2)[::2]
        if k == "ro":
            a = np.asarray(x, dtype=float)
            a.setflags(write=False)
            return a
        if k == "sym":
            return sx.symbolic(x)
        raise ValueError(k)
    return v


def value(v):
    """numeric value of a decoded definition for the reference (strings stay strings)"""
    if isinstance(v, dict) and "sym" in v:
        return v["sym"]
    v = num(v)
    if isinstance(v, str) or v is None:
        return v
    return np.asarray(v, dtype=float)


# ------------------------------------------------------------------ reference results
_ICACHE = {}


def _interaction(V, S, vkey, skey, g, q, params):
    names = sorted(params)
    key = (vkey, skey, g, tuple(sorted(q.items())), tuple((n, params[n]) for n in names))
    try:
        return _ICACHE[key]
    except KeyError:
        pass
    if len(_ICACHE) > 200000:
        _ICACHE.clear()
    # linear in everything but tau: cache the expensive part only
    k2 = (vkey, skey, g, q["tau"], tuple((n, params[n]) for n in names))
    if k2 not in _ICACHE:
        unit = dict(tau=q["tau"], omega=1.0, NormBRDF=1.0, bsf=0.0, I0=1.0)
        _ICACHE[k2] = float(rm.interaction(V, S, g, unit, params))
    r = _ICACHE[k2] * q["NormBRDF"] * (1 - q["bsf"]) * q["I0"] * q["omega"]
    _ICACHE[key] = r
    return r


class Cfg:
    """What the user has set: the complete observable configuration of a model."""

    def __init__(self, V, S, int_Q=True, sig0=True, dB=True, I0=1.0):
        self.V, self.S = V, S
        self.int_Q, self.sig0, self.dB, self.I0 = int_Q, sig0, dB, I0
        self.defs = {k: k for k in PARAMS}
        self.params = {"bsf": np.zeros(1)}
        self.mono = True
        self.fixed = ()
        self.ang = {}

    def copy(self):
        return copy.deepcopy(self)

    # ---- operations
    def set_mono(self, p_0=None):
        self.mono = True
        self.fixed = ()
        if p_0 is not None:
            self.ang["p_0"] = np.atleast_1d(np.asarray(value(p_0), dtype=float))
            self.fixed = ("p_0",)

    def set_bi(self, **angs):
        self.mono = False
        fixed = []
        for k in ANGS:
            if angs.get(k) is not None:
                self.ang[k] = np.atleast_1d(np.asarray(value(angs[k]), dtype=float))
                fixed.append(k)
        self.fixed = tuple(fixed)

    def set_geom(self, **angs):
        for k, v in angs.items():
            if k not in ANGS:
                raise Rejected(f"unknown angle {k}", exc=TypeError)
            if k in self.fixed:
                raise Rejected(f"fixed angle {k}", exc=AssertionError)
            if self.mono and k in ("t_ex", "p_ex"):
                raise Rejected(f"{k} in monostatic geometry", exc=AssertionError)
            if v is None:
                raise Rejected("None", exc=AssertionError)
        for k, v in angs.items():
            self.ang[k] = np.array(value(v), ndmin=1, dtype=float)

    def update(self, **params):
        if isinstance(self.defs["bsf"], str) and self.defs["bsf"] == "bsf" and "bsf" not in self.params:
            params.setdefault("bsf", 0)
        self.params.update(
            {k: np.array(value(v), ndmin=1, dtype=float) for k, v in params.items()}
        )

    # ---- results
    def angles(self):
        need = ("t_0", "p_0") if self.mono else ANGS
        for k in need:
            if k not in self.ang:
                raise Rejected(f"angle {k} not set", exc=AttributeError)
        if self.mono:
            t, p = self.ang["t_0"], self.ang["p_0"]
            return [t, t, p, p + PI]
        return [self.ang[k] for k in ANGS]

    def required(self, what):
        use = {
            "surface": ("tau", "NormBRDF", "bsf"),
            "volume": ("tau", "omega", "bsf"),
        }.get(what, PARAMS)
        req = set()
        for k in use:
            req |= sx.names(self.defs[k])
        if what != "volume":
            req |= sx.params_of(self.S)
        if what != "surface":
            req |= sx.params_of(self.V)
        return req

    def missing(self, what):
        return self.required(what) - set(self.params)

    def q(self, params):
        out = {}
        for k in PARAMS:
            d = self.defs[k]
            out[k] = sx.expr(d)(params) if isinstance(d, str) else d
        out["I0"] = np.asarray(self.I0, dtype=float)
        return out

    def elements(self, what):
        """(shape, list of (g, q, params) scalars per element)"""
        g = self.angles()
        req = sorted(self.required(what))
        ps = {k: self.params[k] for k in req}
        defs = {
            k: (np.asarray(d, dtype=float) if not isinstance(d, str) else None)
            for k, d in self.defs.items()
        }
        arrs = [*g, *ps.values(), *(d for d in defs.values() if d is not None)]
        shape = np.broadcast_shapes(*(np.shape(a) for a in arrs))
        self.n_elements = int(np.prod(shape, dtype=int))
        bc = lambda a: np.broadcast_to(a, shape).ravel()
        gb = [bc(a) for a in g]
        pb = {k: bc(v) for k, v in ps.items()}
        db = {k: bc(v) for k, v in defs.items() if v is not None}
        out = []
        for i in range(int(np.prod(shape, dtype=int))):
            params = {k: float(v[i]) for k, v in pb.items()}
            q = {}
            for k in PARAMS:
                d = self.defs[k]
                if isinstance(d, str):
                    try:
                        q[k] = float(sx.expr(d)(params))
                    except sx.Missing:
                        q[k] = float("nan")  # not required by this contribution
                else:
                    q[k] = float(db[k][i])
            q["I0"] = float(self.I0)
            out.append((tuple(float(a[i]) for a in gb), q, params))
        return shape, out

    def linear(self, what="calc"):
        """rows in linear intensity: dict of arrays, shape of the result"""
        m = self.missing(what)
        if m:
            raise Rejected("missing parameters", names=m, exc=TypeError)
        shape, els = self.elements(what)
        V, S = sx.ref("V", self.V), sx.ref("S", self.S)
        out = {}
        if what in ("calc", "surface", "sv"):
            out["s"] = np.array([float(rm.surface(S, g, q, p)) for g, q, p in els])
        if what in ("calc", "volume", "sv"):
            out["v"] = np.array([float(rm.volume(V, g, q, p)) for g, q, p in els])
        if what == "interaction" or (what == "calc" and self.int_Q):
            if V.ncoefs is None or S.ncoefs is None:
                raise Rejected("ncoefs missing", exc=AttributeError)
            vk, sk = repr(self.V), repr(self.S)
            out["i"] = np.array(
                [_interaction(V, S, vk, sk, g, q, p) for g, q, p in els]
            )
        out = {k: v.reshape(shape) for k, v in out.items()}
        return out, np.array([np.cos(g[0]) for g, _, _ in els]).reshape(shape)

    def result(self, what="calc"):
        """Expected return value of R.calc / R.surface / ..."""
        lin, mu0 = self.linear(what)
        if what == "calc":
            rows = [lin["s"], lin["v"]] + ([lin["i"]] if self.int_Q else [])
            val = np.stack([sum(rows), *rows])
        else:
            (val,) = lin.values()
        return rm.convert(val, mu0, self.I0, self.sig0, self.dB)

    def jacobian(self, keys, h=1e-30):
        """Exact derivative of surface + volume in output units (complex step)."""
        m = self.missing("calc") - set()
        if m:
            raise Rejected("missing parameters", names=m, exc=(TypeError, AssertionError))
        shape, els = self.elements("calc")
        V, S = sx.ref("V", self.V), sx.ref("S", self.S)
        cols = {}
        for key in keys:
            d = np.empty(len(els))
            for j, (g, q, p) in enumerate(els):
                p2, q2 = dict(p), dict(q)
                if key in p2:
                    p2[key] = p2[key] + 1j * h
                    for k in PARAMS:
                        if isinstance(self.defs[k], str):
                            q2[k] = sx.expr(self.defs[k])(p2)
                elif key in PARAMS:
                    q2[key] = q2[key] + 1j * h
                else:
                    d[j] = 0.0
                    continue
                f = rm.surface(S, g, q2, p2) + rm.volume(V, g, q2, p2)
                if self.sig0:
                    f = f * 4 * PI * np.cos(g[0]) / self.I0
                df = np.imag(f) / h
                if self.dB:
                    df = 10 / np.log(10) * df / np.real(f)
                d[j] = df
            cols[key] = d.reshape(shape)
        return [cols[k] for k in keys], shape


# -------------------------------------------------------------------------- comparison
RTOL = 1e-7
ITOL = 1e-6


def same(a, b, rtol=RTOL, atol=1e-13):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            return False
    with np.errstate(invalid="ignore"):
        return bool(
            np.all(
                (np.abs(a - b) <= atol + rtol * np.abs(b))
                | (a == b)
                | (np.isnan(a) & np.isnan(b))
            )
        )


def same_result(a, b, dB, scale=None):
    """compare model outputs; dB values are compared via their relative error"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if dB:
        # 1e-6 relative error <-> 4.3e-6 dB;  -inf and nan must coincide
        return same(a, b, rtol=0, atol=1e-5)
    if not np.all(np.isfinite(a)):
        return False
    sc = float(np.max(np.abs(b))) if b.size else 0.0
    return same(a, b, rtol=ITOL, atol=1e-11 * sc + 1e-300)


def same_closed(a, b, dB, scale=None):
    if dB:
        return same(a, b, rtol=0, atol=1e-7)
    sc = float(np.max(np.abs(b if scale is None else scale))) if b.size else 0.0
    return same(a, b, rtol=1e-8, atol=1e-12 * sc + 1e-16)


def fmt(x):
    return np.array2string(np.asarray(x), precision=12, threshold=40)


# -------------------------------------------------------------------------------- live
class Live:
    """A real model and its reference configuration, driven in lock-step."""

    def __init__(self, V, S, flags=None, backend="symengine", objs=None, R=None, cfg=None):
        import rt1_model

        self.rt1 = rt1_model
        self.backend(backend)
        flags = dict(flags or {})
        self.trace = []
        if R is not None:
            self.R, self.cfg = R, cfg
            return
        self.V = objs[0] if objs else sx.impl("V", V)
        self.S = objs[1] if objs else sx.impl("S", S)
        self.R = rt1_model.RT1(V=self.V, SRF=self.S, **flags)
        self.cfg = Cfg(V, S, **flags)

    def backend(self, b):
        self.rt1.set_lambda_backend(b)

    # -- helpers
    def _ref(self, f, *args):
        try:
            return f(*args), None
        except Rejected as ex:
            return None, ex

    def _check_rejection(self, op, exp, exc):
        if exp is None and exc is not None:
            raise Violation(
                f"{op}: unexpected {type(exc).__name__}: {str(exc)[:300]}"
            )
        if exp is not None and exc is None:
            raise Violation(f"{op}: not rejected ({exp})")
        if exp is not None and exp.names is not None:
            # the message has to name exactly the missing parameters
            import re

            found = re.findall(r"'([A-Za-z_]\w*)'", str(exc).split("{")[-1].split("}")[0])
            if op[0] == "jac":
                ok = all(isinstance(exc, t) or True for t in [type(exc)])
            else:
                # (however the names are formatted)
                words = set(re.findall(r"[A-Za-z_]\w*", str(exc))) & self.cfg.required("calc")
                ok = isinstance(exc, TypeError) and set(exp.names) in (set(found), words)
            if not ok:
                raise Violation(
                    f"{op}: expected an error naming {sorted(exp.names)}, got "
                    f"{type(exc).__name__}: {str(exc)[:300]}"
                )

    def do(self, op):
        """Apply one operation to both sides and compare. Returns an observation."""
        kind, args = op[0], op[1:]
        R, cfg = self.R, self.cfg
        self.trace.append(op)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return getattr(self, "op_" + kind)(op, R, cfg, *args)

    def _config(self, op, impl, ref):
        """configuration-only operation"""
        saved = self.cfg.copy()
        _, exp = self._ref(ref)
        if exp is not None:
            self.cfg = saved
        exc = None
        try:
            impl()
        except Exception as ex:
            exc = ex
        self._check_rejection(op, exp, exc)
        return "rejected" if exc is not None else "ok"

    def op_mono(self, op, R, cfg, p_0=None):
        def ref():
            if p_0 is not None and not isinstance(num(p_0), (int, float, np.number)):
                raise Rejected("not a number")
            cfg.set_mono(p_0)

        kw = {} if p_0 is None else dict(p_0=num(p_0))
        return self._config(op, lambda: R.set_monostatic(**kw), ref)

    def op_bi(self, op, R, cfg, angs=None):
        angs = angs or {}

        def ref():
            for v in angs.values():
                if v is not None and not isinstance(num(v), (int, float, np.number)):
                    raise Rejected("not a number")
            cfg.set_bi(**angs)

        return self._config(
            op, lambda: R.set_bistatic(**{k: num(v) for k, v in angs.items()}), ref
        )

    def op_geom(self, op, R, cfg, angs):
        return self._config(
            op,
            lambda: R.set_geometry(**{k: num(v) for k, v in angs.items()}),
            lambda: cfg.set_geom(**angs),
        )

    def op_upd(self, op, R, cfg, params):
        return self._config(
            op,
            lambda: R.update_params(**{k: num(v) for k, v in params.items()}),
            lambda: cfg.update(**params),
        )

    def op_def(self, op, R, cfg, name, val):
        def ref():
            cfg.defs[name] = value(val)

        return self._config(op, lambda: setattr(R, name, num(val)), ref)

    def op_flag(self, op, R, cfg, name, val):
        def ref():
            setattr(cfg, name, val)

        return self._config(op, lambda: setattr(R, name, val), ref)

    def op_backend(self, op, R, cfg, name):
        return self._config(op, lambda: self.backend(name), lambda: None)

    def op_setV(self, op, R, cfg, spec):
        def impl():
            R.V = sx.impl("V", spec)

        def ref():
            cfg.V = spec

        return self._config(op, impl, ref)

    def op_setS(self, op, R, cfg, spec):
        def impl():
            R.SRF = sx.impl("S", spec)

        def ref():
            cfg.S = spec

        return self._config(op, impl, ref)

    def op_pickle(self, op, R, cfg, use="copy"):
        import cloudpickle

        R2 = cloudpickle.loads(cloudpickle.dumps(R))
        if use == "copy":
            self.R = R2
        return "ok"

    def op_deepcopy(self, op, R, cfg, use="copy"):
        R2 = copy.deepcopy(R)
        if use == "copy":
            self.R = R2
        return "ok"

    # -- observations
    def _observe(self, op, impl, ref, what):
        exp_val, exp = self._ref(ref)
        exc = val = None
        try:
            val = impl()
        except Exception as ex:
            exc = ex
        self._check_rejection(op, exp, exc)
        if exp is not None:
            return "rejected"
        if what == "calc" and np.shape(val) != np.shape(exp_val):
            # trailing axes may be broadcastable only for constant results
            raise Violation(
                f"{op}: shape {np.shape(val)} instead of {np.shape(exp_val)}"
            )
        if not same_result(val, exp_val, self.cfg.dB):
            raise Violation(f"{op}: got {fmt(val)} expected {fmt(exp_val)}")
        if what in ("calc", "surface", "volume"):
            # closed forms: no truncated series or quadrature involved
            a, b = np.asarray(val, dtype=float), np.asarray(exp_val, dtype=float)
            for x, y in zip(a[1:3], b[1:3]) if what == "calc" else [(a, b)]:
                if not same_closed(x, y, self.cfg.dB, b):
                    raise Violation(f"{op}: got {fmt(x)} expected {fmt(y)} (closed form)")
        return digest(exp_val)

    def op_calc(self, op, R, cfg, params=None):
        params = params or {}
        cfg.update(**params)
        return self._observe(
            op,
            lambda: R.calc(**{k: num(v) for k, v in params.items()}),
            lambda: cfg.result("calc"),
            "calc",
        )

    def _single(self, op, what, params):
        params = params or {}
        self.cfg.update(**params)
        return self._observe(
            op,
            lambda: getattr(self.R, what)(**{k: num(v) for k, v in params.items()}),
            lambda: self.cfg.result(what),
            what,
        )

    def op_surface(self, op, R, cfg, params=None):
        return self._single(op, "surface", params)

    def op_volume(self, op, R, cfg, params=None):
        return self._single(op, "volume", params)

    def op_interaction(self, op, R, cfg, params=None):
        if not cfg.int_Q:
            return "skipped"
        return self._single(op, "interaction", params)

    def op_value(self, op, R, cfg, name):
        """read a model parameter"""

        def ref():
            d = cfg.defs[name]
            if not isinstance(d, str):
                return np.asarray(d)
            m = sx.names(d) - set(cfg.params)
            if m:
                raise Rejected("missing", names=m)
            return np.asarray(sx.expr(d)(cfg.params))

        exp_val, exp = self._ref(ref)
        exc = val = None
        try:
            val = getattr(R, name)
        except Exception as ex:
            exc = ex
        self._check_rejection(op, exp, exc)
        if exp is None and not same(val, exp_val, rtol=1e-12):
            raise Violation(f"{op}: got {fmt(val)} expected {fmt(exp_val)}")
        return "rejected" if exp is not None else digest(exp_val)

    def op_jac(self, op, R, cfg, keys, format="list"):
        r, exp = self._ref(lambda: cfg.jacobian(keys))
        exc = val = None
        try:
            val = R.jacobian(list(keys), format=format)
        except Exception as ex:
            exc = ex
        if exp is not None and exp.names is not None and exp.names <= set(keys):
            # linear derivatives do not necessarily need the value itself
            return "skipped"
        self._check_rejection(op, exp, exc)
        if exp is not None:
            return "rejected"
        ref, shape = r
        if format == "list":
            if len(val) != len(keys):
                raise Violation(f"{op}: {len(val)} entries for {len(keys)} parameters")
            for k, v, e in zip(keys, val, ref):
                check_jac(op, k, v, e)
        else:
            check_sparse(op, keys, val, ref, shape, cfg)
        return digest(np.stack(ref))


def check_jac(op, k, v, e):
    # (derivatives of vanishing signals in dB are undefined)
    ok = np.isfinite(e)
    sc = float(np.max(np.abs(e[ok]))) if ok.any() else 0.0
    try:
        v = np.broadcast_to(np.asarray(v, dtype=float), np.shape(e))
    except ValueError:
        raise Violation(f"{op}: shape {np.shape(v)} of d/d{k} instead of {np.shape(e)}")
    if not same(v[ok], e[ok], rtol=1e-8, atol=1e-12 * sc + 1e-14):
        raise Violation(f"{op}: d/d{k} is {fmt(v)} expected {fmt(e)}")


def check_sparse(op, keys, val, ref, shape, cfg):
    n = int(np.prod(shape, dtype=int))
    cols = []
    used = cfg.required("calc")
    for k, e in zip(keys, ref):
        # (values left over from an earlier definition of a parameter have no effect)
        v = cfg.params[k] if k in cfg.params and (k in used or k not in PARAMS) else np.asarray(
            cfg.defs[k] if not isinstance(cfg.defs[k], str) else sx.expr(cfg.defs[k])(cfg.params)
        )
        if np.size(v) == 1:
            cols.append(np.ravel(e)[:, None])
        else:
            nt = np.size(v)
            blk = np.zeros((n, nt))
            e2 = np.reshape(e, (nt, -1))
            m = e2.shape[1]
            for i in range(nt):
                blk[i * m : (i + 1) * m, i] = e2[i]
            cols.append(blk)
    exp = np.hstack(cols)
    got = np.asarray(val.toarray())
    if got.shape != exp.shape:
        raise Violation(f"{op}: shape {got.shape} instead of {exp.shape}")
    sc = float(np.max(np.abs(exp))) if exp.size else 0.0
    if not same(got, exp, rtol=1e-8, atol=1e-12 * sc + 1e-14):
        raise Violation(f"{op}: got {fmt(got)} expected {fmt(exp)}")


def digest(x):
    x = np.asarray(x, dtype=float)
    import hashlib

    with np.errstate(invalid="ignore"):
        s = ",".join("%.6g" % v for v in x.ravel())
    return hashlib.md5(f"{x.shape}{s}".encode()).hexdigest()[:12]
