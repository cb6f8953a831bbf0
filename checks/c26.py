"""C26: combined docstrings keep every documented parameter once.

All combinations of parameter lists of an object and one or two objects it inherits from,
all pairs of sections of a numpy docstring in all distributions over the objects, all
subsets of sections for one object, and all scattering-function classes: the combined
documentation is parsed by an independent parser and compared with the documented rule.
"""
import inspect
import itertools
import re

import machine as m
from engine import Result

PROPERTY = "C26"
LISTS = ["Returns", "Yields", "Receives", "Other Parameters", "Raises", "Warns", "Attributes", "Methods"]
TEXT = ["Notes", "Warnings", "References", "Examples"]
SECTIONS = ["Summary", "Extended Summary", "Parameters", *LISTS, "See Also", *TEXT]
ORDER = ["Summary", "Extended Summary", "Parameters", "Returns", "Yields", "Receives", "Other Parameters", "Raises", "Warns", "Warnings", "See Also", "Notes", "References", "Examples", "Attributes", "Methods"]
P = ["a", "b", "c", "*args", "**kwargs"]
BOUND = {
    "quick": "all subsets (and orders) of 3 parameters for the object and two parents; star-parameters; all pairs of "
    "the 15 sections x 16 distributions over object and parent x {function, class, method}; all subsets of sections with <= 3 "
    "sections or >= 13; undocumented and empty objects; all scattering-function classes",
    "thorough": "all triples of sections x 64 distributions; all 2^15 subsets of sections of the parent",
}


def cases(tier):
    full = tier == "thorough"
    out = [dict(kind="classes")]
    subs = [list(p) for n in range(4) for p in itertools.permutations("abc", n)]
    for s in subs:
        out.append(dict(kind="params", own=s))
    for s in ([], ["*args"], ["a", "**kwargs"], ["*args", "**kwargs"]):
        out.append(dict(kind="stars", own=s))
    n = 3 if full else 2
    for secs in itertools.combinations(SECTIONS, n):
        out.append(dict(kind="sections", secs=list(secs)))
    out.append(dict(kind="subsets", part=0, of=1, sizes=[0, 1, 2, 3, 12, 13, 14, 15]))
    if full:
        for part in range(16):
            out.append(dict(kind="subsets", part=part, of=16, sizes=list(range(4, 12))))
    out.append(dict(kind="odd"))
    return out


def key(case):
    return "|".join(str(v) for v in case.values())


def run_case(case):
    r = Result()
    r.traces = 1
    try:
        globals()["run_" + case["kind"]](case, r)
    except m.Violation as ex:
        r.fail(key(case), f"{key(case)}: {ex}")
    return r


def make(secs, tag, params=(), indent=4):
    """docstring with the given sections; every line carries a unique token"""
    lines = []
    for s in ORDER:
        if s == "Parameters" and (params or s in secs):
            lines += ["Parameters", "----------"]
            for p in params or [f"par{tag}"]:
                lines += [f"{p} : float", f"    {tag} describes {p.strip('*')}.", f"    second line {tag}."]
            lines += [""]
        elif s not in secs:
            continue
        elif s == "Summary":
            lines += [f"Summary{tag} text.", ""]
        elif s == "Extended Summary":
            if "Summary" not in secs:
                continue
            lines += [f"Extended{tag} first line", f"and second{tag} line.", "", f"Paragraph{tag}.", ""]
        elif s == "Parameters":
            continue
        elif s in LISTS:
            lines += [s, "-" * len(s), f"{s.split()[0].lower()}{tag} : type{tag}", f"    Desc{tag}{s.split()[0]}.", ""]
        elif s == "See Also":
            lines += [s, "-" * len(s), f"see{tag} : Other{tag}.", ""]
        else:
            lines += [s, "-" * len(s), f"{s}{tag} line.", "", f"- {s}{tag} item", ""]
    return "\n" + "\n".join(" " * indent + x if x else "" for x in lines) + " " * indent


def parse(doc):
    """{section: [non-empty lines]}, {parameter: description}"""
    out = {"": []}
    sec = ""
    lines = inspect.cleandoc(doc or "").splitlines()
    i = 0
    while i < len(lines):
        if i + 1 < len(lines) and lines[i].strip() and re.fullmatch(r"\s*-{3,}\s*", lines[i + 1]):
            sec = lines[i].strip()
            if sec in out:
                raise m.Violation(f"section {sec} appears twice in {doc!r}")
            out[sec] = []
            i += 2
            continue
        if lines[i].strip():
            out[sec].append(lines[i].rstrip())
        i += 1
    pars = {}
    name = None
    for l in out.get("Parameters", []):
        if not l.startswith(" "):
            name = l.split(":")[0].strip().replace("\\", "")
            if name in pars:
                raise m.Violation(f"parameter {name} is listed twice in {doc!r}")
            pars[name] = []
        else:
            pars[name].append(l.strip())
    return out, pars


def combine(own, parents, how="function"):
    from rt1_model.helpers import append_numpy_docstring

    def obj(doc):
        if how == "function":

            def f():
                return 1

            f.__doc__ = doc
            return f
        return type("K", (), {"__doc__": doc, "f": lambda self: 1})

    ps = [obj(p) for p in parents]
    o = obj(own)
    if how == "static":
        # (a parent that is only something with documentation)
        ps = [type("D", (), {"__doc__": p})() for p in parents]
    try:
        res = append_numpy_docstring(*ps)(o)
    except Exception as ex:
        raise m.Violation(f"combining failed with {type(ex).__name__}: {ex}: {own!r} {parents!r}")
    if res is not o:
        raise m.Violation("a different object was returned")
    for p, d in zip(ps, parents):
        if p.__doc__ != d:
            raise m.Violation(f"the documentation of the parent changed from {d!r} to {p.__doc__!r}")
    return res.__doc__


def norm(l):
    return re.sub(r"[\s`:_]+", " ", l).strip()


def words(lines):
    """(the layout of the lines is not of interest)"""
    return re.findall(r"[\w-]+", norm(" ".join(lines)))


def judge(own, parents, r, how="function"):
    got = combine(own, parents, how)
    secs, pars = parse(got)
    docs = [parse(d) for d in (own, *parents) if d]
    exp_secs, exp_pars = {}, {}
    for s, p in docs:
        for k, v in s.items():
            if k != "Parameters":
                exp_secs.setdefault(k, []).extend(words(v))
        for k, v in p.items():
            exp_pars.setdefault(k, v)
    if pars != exp_pars or (exp_pars and list(pars) != list(exp_pars)):
        raise m.Violation(f"parameters {pars} instead of {exp_pars}")
    have = {k: sorted(words(v)) for k, v in secs.items() if v and k != "Parameters"}
    want = {k: sorted(v) for k, v in exp_secs.items() if v}
    if have != want:
        diff = {k: (have.get(k), want.get(k)) for k in {*have, *want} if have.get(k) != want.get(k)}
        raise m.Violation(f"sections (found, expected): {diff} for {own!r} + {parents!r}")
    r.states += 1
    r.transitions += len(want) + len(pars)
    r.obs.add(str(sorted(want)) + str(list(pars)))


def run_params(case, r):
    subs = [list(p) for n in range(4) for p in itertools.permutations("abc", n)]
    for p1 in subs:
        judge(make(["Summary"], "X", case["own"]), [make(["Summary"], "Y", p1)], r)
        judge(make([], "X", case["own"]), [make([], "Y", p1, indent=8)], r, "class")
        for p2 in subs[:: 1 if len(p1) < 2 else 3]:
            judge(make(["Summary"], "X", case["own"]), [make(["Notes"], "Y", p1), make(["Summary"], "Z", p2)], r)


def run_stars(case, r):
    for p1 in itertools.chain.from_iterable(itertools.permutations(P, n) for n in range(4)):
        judge(make(["Summary"], "X", case["own"]), [make(["Summary"], "Y", list(p1))], r)


def valid(secs):
    return not ({"Returns", "Yields"} <= set(secs)) and not ("Receives" in secs and "Yields" not in secs)


def run_sections(case, r):
    secs = case["secs"]
    for dist in itertools.product(range(4), repeat=len(secs)):
        own = ["Summary"] + [s for s, d in zip(secs, dist) if d & 1]
        par = ["Summary"] + [s for s, d in zip(secs, dist) if d & 2]
        if "Receives" in own + par:
            own += ["Yields"] if "Receives" in own else []
            par += ["Yields"] if "Receives" in par else []
        if "Summary" in secs:
            # (the summary is optional)
            own = [s for s, d in zip(secs, dist) if d & 1]
            par = [s for s, d in zip(secs, dist) if d & 2]
        if not valid(own) or not valid(par):
            continue
        for how in ("function", "class", "static"):
            judge(make(own, "X"), [make(par, "Y")], r, how)
        judge(make(own, "X"), [make(par, "Y"), make(["Summary", *secs[:1]] if secs[0] not in ("Receives",) else [], "Z")], r)


def run_subsets(case, r):
    n = 0
    for k in case["sizes"]:
        for secs in itertools.combinations(SECTIONS, k):
            n += 1
            if n % case["of"] != case["part"] or not valid(secs):
                continue
            judge(make(secs, "X"), [make(["Summary", "Parameters", "Notes", "Examples"], "Y")], r)
            judge(make(["Summary", "Parameters", "References"], "X"), [make(secs, "Y")], r)
            judge(None, [make(secs, "Y")], r)
            judge(make(secs, "X"), [None], r)
            judge(make(secs, "X"), [], r)


def run_odd(case, r):
    """anything is accepted as documentation, and the own documentation is never lost"""
    odd = ["", " ", "\n", "just text", "Foo\n---\nx", "Parameters\n----------\n", "Parameters\n----------\nx",
           "Returns\n-------\na\n\nYields\n------\nb\n", "A\n\nNotes\n-----\n\nNotes\n-----\nx\n", "\tTabs\n\t\tmore", "See Also\n--------\n:: ??\n"]
    base = make(["Summary", "Notes"], "X", ["a"])
    for o in odd:
        for how in ("function", "class"):
            got = combine(base, [o], how)
            for token in ("SummaryX", "NotesX line", "X describes a"):
                if got.count(token) != 1:
                    raise m.Violation(f"{token} is lost when combined with {o!r}: {got!r}")
            got = combine(o, [base], how)
            # (sections unknown to the numpydoc format are ignored by its parser)
            for word in re.findall(r"\w+", o) if "Foo" not in o else ():
                if word not in got:
                    raise m.Violation(f"{word} is lost in {got!r}")
            combine(o, [o], how)
            combine(o, odd, how)
            r.states += 4


def run_classes(case, r):
    from rt1_model import surface, volume

    for mod, base in ((volume, volume.VolumeScatter), (surface, surface.SurfaceScatter)):
        bs, bp = parse(base.__doc__)
        init = set(inspect.signature(base.__init__).parameters) - {"self"}
        if not init <= set(bp):
            raise m.Violation(f"{base.__name__}: parameters {set(bp)} documented instead of {init}")
        for name, cls in vars(mod).items():
            if not (isinstance(cls, type) and issubclass(cls, base)) or cls is base or name == "LinComb":
                continue
            s, p = parse(cls.__doc__)
            own = {
                k
                for k, v in inspect.signature(cls.__init__).parameters.items()
                if k != "self" and v.kind is not v.VAR_KEYWORD
            }
            want = own | init
            if not want <= set(p):
                raise m.Violation(f"{name} documents {sorted(p)}, parameters are {sorted(want)}")
            for k, v in bp.items():
                # (inherited descriptions are kept unless the class describes the parameter itself)
                if k not in p or (k not in own and p[k] != v):
                    raise m.Violation(f"{name}: {k} is described by {p.get(k)} instead of {v}")
            for k, v in bs.items():
                if k != "Parameters" and not {norm(x) for x in v} <= {norm(x) for x in s.get(k, [])}:
                    raise m.Violation(f"{name}: section {k!r} of {base.__name__} is missing: {s.get(k)}")
            r.states += 1
            r.transitions += len(p)
