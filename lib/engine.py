"""Exhaustive exploration engine.

A check module provides

    PROPERTY = "Cxx"
    LEVEL, BOUND (text)            what is enumerated
    def cases(tier): -> list       the complete, explicitly enumerated space (JSON)
    def run_case(case): -> Result  executes one case on the real code

The engine runs *all* cases over forked workers (static striped partition, so every run is
deterministic), counts what was covered, confirms a violation in a fresh process, writes a
replay file and the evidence file, and prints VIOLATION / KNOWN-FINDING lines.
"""

import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
DEADLINE = {"quick": 600, "thorough": 6 * 3600}


class Result:
    """Counters of one case; ``viol`` is a list of (finding-key, message)."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.obs = set()
        self.viol = []
        self.info = {}

    def fail(self, key, msg):
        self.viol.append((key, str(msg)[:1500]))

    def count(self, **kw):
        for k, v in kw.items():
            self.info[k] = self.info.get(k, 0) + v


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def prepare():
    """import everything before forking"""
    import logging

    import matplotlib

    matplotlib.use("Agg")
    import rt1_model  # noqa

    logging.getLogger("rt1_model").setLevel(logging.CRITICAL)
    import refmodel, specs, machine  # noqa


def _safe(mod, case):
    try:
        # (messages printed by the code under test are of no interest)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return mod.run_case(case)
    except Exception as ex:
        r = Result()
        key = getattr(mod, "key", lambda c: case_id(c))(case)
        tb = traceback.format_exc()
        if type(ex).__name__ == "Violation":
            r.fail(key, str(ex))
        else:
            r.fail(key, f"unexpected {type(ex).__name__}: {ex}\n{tb[-1200:]}")
        r.traces += 1
        return r


def case_id(case):
    return hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def _worker(prop, cases, w, n, t_end, q):
    try:
        sys.setrecursionlimit(10000)
        mod = load(prop)
        tot = Result()
        done = 0
        viols = []
        capped = False
        for i in range(w, len(cases), n):
            if time.time() > t_end:
                capped = True
                break
            r = _safe(mod, cases[i])
            done += 1
            tot.states += r.states
            tot.transitions += r.transitions
            tot.traces += r.traces
            tot.obs |= r.obs
            tot.count(**r.info)
            for key, msg in r.viol:
                if len(viols) < 200:
                    viols.append((i, key, msg))
        q.put((w, done, tot, viols, capped, None))
    except BaseException:
        q.put((w, 0, Result(), [], False, traceback.format_exc()))


def explore(prop, cases, tier, t0):
    n = min(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1)), 8, max(1, len(cases)))
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    ps = [
        ctx.Process(
            target=_worker, args=(prop, cases, w, n, t0 + DEADLINE[tier], q), daemon=True
        )
        for w in range(n)
    ]
    for p in ps:
        p.start()
    out = {}
    while len(out) < n:
        try:
            r = q.get(timeout=5)
            out[r[0]] = r
        except Exception:
            dead = [i for i, p in enumerate(ps) if not p.is_alive() and i not in out]
            if dead:
                try:
                    while True:
                        r = q.get(timeout=2)
                        out[r[0]] = r
                except Exception:
                    pass
                for i in dead:
                    if i not in out:
                        out[i] = (i, 0, Result(), [], False,
                                  f"worker {i} died (exit {ps[i].exitcode})")
    for p in ps:
        p.join(10)
    return n, [out[i] for i in range(n)]


def known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    keys = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    keys[d["key"]] = d["what"]
    return keys


def confirm(prop, case, history):
    """Re-run in a fresh process: the case alone, then with the worker's whole history."""
    for label, cs in (("alone", [case]), ("history", history)):
        if not cs:
            continue
        path = os.path.join(OUT, prop, f".confirm_{os.getpid()}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, cases=cs), f)
        try:
            p = subprocess.run(
                [sys.executable, "-B", os.path.join(VERIF, "run.py"), "--replay", path],
                capture_output=True, text=True, timeout=120, env=os.environ,
            )
        except subprocess.TimeoutExpired:
            continue
        finally:
            os.unlink(path)
        if p.returncode == 1:
            return label
    return "not reproduced in a fresh process"


def main(prop, tier, seed):
    t0 = time.time()
    prepare()
    mod = load(prop)
    cases = list(mod.cases(tier))
    os.makedirs(os.path.join(OUT, prop), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    n, res = explore(prop, cases, tier, t0)

    tot = Result()
    done, viols, capped, errors = 0, [], False, []
    for w, d, r, v, c, err in res:
        done += d
        capped |= c
        tot.states += r.states
        tot.transitions += r.transitions
        tot.traces += r.traces
        tot.obs |= r.obs
        tot.count(**r.info)
        viols += [(i, w, k, m) for i, k, m in v]
        if err:
            errors.append(err)
    viols.sort()

    kn = known(prop)
    seen_known, new = {}, {}
    for i, w, k, m in viols:
        if k in kn:
            seen_known.setdefault(k, m)
        else:
            new.setdefault(k, (i, w, m))

    for k in seen_known:
        print(f"KNOWN-FINDING: property={prop} {kn[k]}")

    replay = None
    if new:
        k, (i, w, m) = min(new.items(), key=lambda kv: kv[1][0])
        hist = cases[w : i + 1 : n]
        how = confirm(prop, cases[i], hist)
        replay = os.path.join(OUT, prop, f"{case_id(cases[i])}.json")
        with open(replay, "w") as f:
            json.dump(
                dict(property=prop, key=k, message=m, reproduced=how,
                     cases=hist if how == "history" else [cases[i]]),
                f, indent=1,
            )
        print(f"{len(new)} distinct violation(s); first: [{k}] {m}\n(reproduced: {how})")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)

    step = max(1, len(cases) // 4)
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot.states,
            transitions=tot.transitions,
            traces_validated_against_impl=tot.traces,
            cases=done,
            distinct_outcomes=len(tot.obs),
            samples=cases[::step][:5],
            exhaustive=not capped and not errors and done == len(cases),
            explanation=mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
            known_findings=sorted(seen_known),
            **tot.info,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", [
            "values outside the stated alphabets and histories longer than the stated "
            "bound are not covered",
            "the reference model (lib/refmodel.py) states the documented equations",
        ]),
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop} [{tier}] cases={done}/{len(cases)} states={tot.states} "
        f"transitions={tot.transitions} traces={tot.traces} "
        f"outcomes={len(tot.obs)} violations={len(new)} known={len(seen_known)} "
        f"{'CAPPED ' if capped else ''}{ev['wall_s']}s {tot.info}"
    )
    if new:
        return 1
    if errors:
        print("ERROR in the check itself:\n" + errors[0])
        return 2
    return 0


def replay(path):
    prepare()
    d = json.load(open(path))
    mod = load(d["property"])
    kn = known(d["property"])
    bad = 0
    for c in d["cases"]:
        r = _safe(mod, c)
        for k, m in r.viol:
            if k not in kn:
                bad += 1
                print(f"[{k}] {m}")
                print("case:", json.dumps(c))
    print("violations:", bad)
    return 1 if bad else 0
