#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the checks that exist."""
import json
import pathlib

ROOT = pathlib.Path(__file__).parents[1]
REF = (
    "Trusts lib/refmodel.py (the documented equations, evaluated by plain quadrature, no "
    "sympy) and numpy/scipy; "
)
GRID = "exhaustive enumeration of a bounded configuration space, each state executed on the real code in lock-step with an explicit reference model"
HIST = "explicit-state exploration: all operation sequences up to a depth on the real code, in lock-step with a stateless reference model"
T = {
    "C01": (GRID, REF + "function pairs, geometries and parameter values outside the catalogue are not covered."),
    "C02": (HIST, REF + "histories longer than the stated depth or with other values are not covered."),
    "C03": (GRID + " (all 16 fixed/dynamic masks, switches between them)", REF + "directions outside the catalogue are not covered."),
    "C04": (HIST + " (all placements of backend switches)", REF + "models outside the catalogue are not covered."),
    "C05": (GRID + " (all small broadcastable shape combinations, containers and special elements)", REF + "arrays with more than 3 axes or elements per axis are not covered."),
    "C06": (GRID, REF + "exact derivatives of the reference model by complex steps."),
    "C07": (GRID, REF + "more than 4 timestamps / incidence angles are not covered."),
    "C08": (GRID, "Trusts Gauss-Legendre quadrature of numpy and the phase functions restated in lib/refmodel.py."),
    "C09": (GRID, "Trusts numpy quadrature; values of the asymmetry outside the catalogue are not covered."),
    "C10": (GRID + " (all sequences of parts and weights)", REF + "more than 3 (4 for values) parts are not covered."),
    "C11": (HIST + " (all flag states and all transitions between them)", REF + "other incident intensities are not covered."),
    "C12": (HIST + " (all interleavings of two models)", REF + "more than 3 models or longer histories are not covered."),
    "C13": (HIST + " (every invalid call in every reachable state)", REF + "only the invalid calls of the alphabet are covered."),
    "C14": (HIST + " (mutations of inputs and outputs as explicit operations)", REF + "only arrays passed through the public entry points of the alphabet are covered."),
    "C15": (HIST + " (round trips at every position, fresh-process restore)", REF + "trusts cloudpickle/pickle themselves."),
    "C16": (HIST + " (all subsets and orders of supplied parameters)", REF + "models outside the catalogue are not covered."),
    "C17": (GRID + " (all kinds of definitions, names and insertion orders)", REF + "names outside the catalogue are not covered; the names reserved by sympy (E, I, pi, S, ...) denote sympy objects and are not parameters."),
    "C18": (HIST + " (donor/receiver pairs)", REF + "models outside the catalogue are not covered."),
    "C19": (GRID, REF + "function pairs outside the catalogue are not covered."),
    "C20": (GRID, "Relations between evaluations of the real code; no reference model."),
    "C21": (HIST + " (all widget-event sequences)", REF + "matplotlib widgets are trusted; longer event sequences are not covered."),
    "C22": (HIST + " (all widget-event sequences)", REF + "matplotlib widgets are trusted; longer event sequences are not covered."),
    "C23": (GRID, REF + "the drawn curves are read back from the matplotlib axes."),
    "C24": (HIST + " (all sequences of log requests)", "Trusts the logging module; longer sequences are not covered."),
    "C25": ("stateless model checking: all thread schedules of the real code up to a preemption bound under a controlled (line-granular) scheduler", REF + "switches inside C code and between bytecodes of one line are not explored."),
    "C26": (GRID + " (all small docstring structures)", "The parser of the numpy docstring layout in the check is trusted."),
    "C27": (HIST + " (all combinations of missing dependencies, fresh interpreters)", REF + "missing dependencies are simulated by a failing import in a fresh interpreter; other optional packages are not covered."),
    "C28": (HIST + " (all iteration orders of the parameter sets, one process each, and all hand-overs between them)", REF + "orders of sets with more than 3 free elements are not enumerated completely."),
    "C29": (GRID + " (all ways of defining a function x uses)", REF + "ways of defining functions outside the catalogue are not covered."),
}


def main():
    props = [json.loads(x) for x in open(ROOT / "properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if (ROOT / "checks" / f"{i.lower()}.py").exists():
            checks.append(
                dict(
                    property=i,
                    quick_cmd=f"python3 run.py {i} quick",
                    thorough_cmd=f"python3 run.py {i} thorough",
                    evidence_file=f"evidence/{i}.json",
                    technique=T[i][0],
                    level="model_checking",
                    level_note=T[i][1],
                )
            )
        else:
            na.append(dict(property=i, reason="the check of this property has not been built yet"))
    d = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
    (ROOT / "MANIFEST.json").write_text(json.dumps(d, indent=1) + "\n")


main()
