"""C24: logging configuration is idempotent and complete.

All sequences of log requests (valid and invalid levels and formats, user handlers) of up
to three requests, in forked processes starting from a fresh package (walks that contain
every sequence as a window for the depth bound, every sequence of two requests from the
initial state); after every request messages of all levels are emitted, and what appears on
the stream is compared with a reference configuration.
"""
import io
import itertools
import logging
import os
import pickle
import re
import sys

import machine as m
from checks.c21 import de_bruijn
from engine import Result

PROPERTY = "C24"
LEVELS = dict(notset=0, debug=10, info=20, warning=30, error=40, critical=50)
TIME = r"\d\d:\d\d:\d\d(?:[.,]\d{3})?:? "
FMT = {
    "plain": "{msg}",
    "basic": TIME.rstrip(" ").rstrip("?").rstrip(":") + r": ?{msg}",
    "timed": TIME + r"{level}: {msg}",
    "debug": TIME + r"{level}: {name}: {msg}",
    "%(levelname)s|%(name)s|%(message)s": r"{level}\|{name}\|{msg}",
    "<%(message)s>": r"<{msg}>",
}
OPS = [[lv] for lv in LEVELS] + [[lv.upper()] for lv in ("debug", "info")] + [["Error"]]
OPS += [[0], [10], [25], [50], [60]]
OPS += [["info", f] for f in FMT] + [["debug", f] for f in ("plain", "basic")]
OPS += [["error", None], ["debug", None]]
BAD = [["verbose"], [None], [2.5], ["info", "%(message"], ["debug", 5], ["", "plain"], ["critical", "no placeholder"]]
EXTRA = [["user"], ["message"], ["root", "ERROR"], ["root", "DEBUG"]]
BOUND = {
    "quick": "33 requests (levels by name in any case and by number, all formats, 7 invalid ones) and 4 other events: "
    "every sequence of <= 2 from a fresh package, every sequence of 3 requests in one walk; messages of 7 levels "
    "and of the package itself after each of them",
    "thorough": "every sequence of <= 3 from a fresh package, every sequence of 4 of a reduced alphabet",
}
EVENTS = OPS + BAD + EXTRA


def cases(tier):
    out = [dict(kind="fresh", first=i, full=tier == "thorough") for i in range(len(EVENTS))]
    n = 24
    out += [dict(kind="walk", part=i, of=n, depth=3) for i in range(n)]
    if tier == "thorough":
        out += [dict(kind="walk4", part=i, of=n, depth=4) for i in range(n)]
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def in_child(f):
    """run f in a forked process and return its result"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = f()
            except m.Violation as ex:
                res = ("violation", str(ex))
            except BaseException as ex:
                res = ("violation", f"unexpected {type(ex).__name__}: {ex}")
            with os.fdopen(wr, "wb") as p:
                pickle.dump(res, p)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data)
    if res[0] == "violation":
        raise m.Violation(res[1])
    return res[1:]


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        if case["kind"] == "fresh":
            for more in itertools.chain([()], ((e,) for e in range(len(EVENTS)))):
                add(r, in_child(lambda: explore([case["first"], *more])))
                if case["full"] and more:
                    for e in range(len(EVENTS)):
                        add(r, in_child(lambda: explore([case["first"], *more, e])))
        else:
            pool = list(range(len(EVENTS))) if case["depth"] == 3 else list(range(0, len(EVENTS), 2))
            walk = [pool[i] for i in de_bruijn(len(pool), case["depth"])]
            size = -(-len(walk) // case["of"])
            part = walk[max(0, case["part"] * size - case["depth"] + 1) : (case["part"] + 1) * size]
            add(r, in_child(lambda: explore(part)))
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    return r


def add(r, res):
    states, transitions, obs = res
    r.states += states
    r.transitions += transitions
    r.obs |= obs


class Stream(io.StringIO):
    def take(self):
        s = self.getvalue()
        self.seek(0)
        self.truncate()
        return s


def explore(events):
    import rt1_model

    err = sys.stderr = Stream()
    log = logging.getLogger("rt1_model")
    # (the engine silences the package)
    log.setLevel(logging.WARNING)
    root_level, user = logging.getLogger().level, None
    level, fmt, configured = logging.WARNING, None, False
    n_user = len(log.handlers)
    if n_user:
        raise m.Violation(f"{n_user} handlers before the first request")
    obs, n, t = set(), 0, 0
    for i in events:
        ev = EVENTS[i]
        tag = f"after {[EVENTS[k] for k in events[:n + 1]][-5:]}"
        if ev[0] == "user":
            if user is None:
                user = logging.StreamHandler(Stream())
                user.setFormatter(logging.Formatter("user %(message)s"))
                log.addHandler(user)
                n_user = 1
        elif ev[0] == "message":
            rt1_model.set_lambda_backend(rt1_model.get_lambda_backend())
        elif ev[0] == "root":
            logging.getLogger().setLevel(ev[1])
            root_level = logging.getLogger().level
        else:
            exc = None
            try:
                rt1_model.set_loglevel(*ev)
            except Exception as ex:
                exc = ex
            if ev in BAD:
                if exc is None:
                    raise m.Violation(f"{ev} was accepted {tag}")
            else:
                if exc is not None:
                    raise m.Violation(f"{ev} was rejected with {type(exc).__name__}: {exc} {tag}")
                level = LEVELS[ev[0].lower()] if isinstance(ev[0], str) else ev[0]
                f = ev[1] if len(ev) > 1 else "timed"
                if f is not None:
                    fmt = f
                configured = True
        t += 1
        own = [h for h in log.handlers if h is not user]
        if user is not None and user not in log.handlers:
            raise m.Violation(f"the handler of the user is gone {tag}")
        if configured and len(own) != 1 or (not configured and len(own) > 1):
            raise m.Violation(f"{len(own)} handlers of the package {tag}")
        eff = level or root_level
        # (whether a rejected first request leaves a handler behind is not stated)
        handler = configured or bool(own)
        err.take()
        if user is not None:
            user.stream.take()
        for lv in (1, 10, 20, 25, 30, 40, 50, 60):
            log.log(lv, "text %d", lv)
            judge(err.take(), user, lv >= eff, lv, "rt1_model", f"text {lv}", fmt, handler, tag)
            t += 1
        rt1_model.set_lambda_backend(rt1_model.get_lambda_backend())
        judge(err.take(), user, 10 >= eff, 10, "rt1_model", r"Lambda backend set to \w+", fmt, handler, tag)
        n += 1
        obs.add(f"{eff}{fmt}")
    return "ok", n, t, obs


def judge(out, user, enabled, lv, name, msg, fmt, handler, tag):
    level = logging.getLevelName(lv)
    if user is not None:
        u = user.stream.take()
        if not re.fullmatch(f"user {msg}\n" if enabled else "", u):
            raise m.Violation(f"user handler got {u!r} for level {lv} {tag}")
    if not enabled:
        pat = ""
    elif not handler:
        # (no handler of the package yet: last resort of the logging module)
        pat = f"{msg}\n" if lv >= 30 and user is None else ""
    elif fmt is None:
        pat = rf"(?:(?!{msg})[\s\S])*{msg}\n"
    else:
        pat = FMT[fmt].replace("{msg}", msg).replace("{level}", level).replace("{name}", name) + "\n"
    if not re.fullmatch(pat, out):
        raise m.Violation(f"message of level {lv} appeared as {out!r} instead of {pat!r} {tag}")
