#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl."""
import json, subprocess, pathlib

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
H = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log.splitlines()}
FIX = [
    ("C01", "fix: use the given exit-azimuth in the bistatic interaction-term", "bistatic interaction term ignored p_ex (p_0 + pi was used)"),
    ("C03", "fix: exchange directions correctly if bistatic angles are fixed", "fixed bistatic angles were not exchanged in the second interaction part"),
    ("C06", "fix: exit-angle dependency of the volume derivative with respect to tau", "d volume/d tau wrong for t_ex != t_0"),
    ("C06", "fix: normalize the sigma0 jacobian by the incident intensity", "linear sigma0 jacobian depended on I0"),
    ("C06", "fix: evaluate the full chain-rule for jacobian parameters used in multiple places", "parameters occurring in several definitions lost terms of the derivative"),
    ("C07", "fix: one row per measurement in the sparse jacobian for any parameter shape", "sparse jacobian had missing rows if a derivative was constant"),
    ("C12", "fix: do not inject parameter symbols into the module namespace", "parameter names overwrote module globals (sp.var)"),
    ("C02", "fix: compiled functions no longer depend on previously set parameter names and order", "adding parameters after the first evaluation gave wrong results or errors"),
    ("C02", "fix: drop stale coefficients if the scattering functions are replaced", "replacing V/SRF kept the old interaction coefficients"),
    ("C05", "fix: one value per direction for scattering functions that do not use all angles", "sympy results had too few elements for functions not using all angles"),
    ("C05", "fix: correctly broadcast contributions and interaction coefficients of different shapes", "contributions of different shapes could not be stacked"),
    ("C01", "fix: evaluate the limits of the interaction-term for tau=0, nadir and grazing angles", "interaction was nan for tau=0, nadir, and large tau/mu"),
    ("C15", "fix: pickling or copying a model no longer removes its plot-methods", "pickling removed analyze/analyze3d from the original"),
    ("C13", "fix: validate geometry settings before changing the model", "rejected geometry calls left the model half-changed"),
    ("C14", "fix: use a copy of the angle-arrays provided by the user", "mutating an angle array after set_geometry mixed old and new angles"),
    ("C24", "fix: support the documented log-format 'basic'", "documented short-name 'basic' was used as a literal format"),
    ("C24", "fix: invalid log-formats no longer change the log-level", "rejected formats changed the level"),
    ("C21", "fix: use the center of the range and the provided name for analyzer sliders", "sliders started off-center and ignored the name"),
    ("C17", "fix: support sympy-expressions and constant strings as parameter definition", "sympy expressions and constant strings were rejected / treated as missing"),
    ("C16", "fix: report the names of all missing parameters in both backends", "missing parameters gave a different or no name in some orders"),
    ("C08", "fix: HG_nadirnorm is also defined for a vanishing asymmetry-parameter", "HG_nadirnorm was nan at t=0"),
    ("C08", "fix: CosineLobe with power 0 is only non-zero in the respective half-space", "CosineLobe(i=0) differed from its expansion"),
    ("C23", "fix: support constant functions and tuples in polarplot", "polarplot failed for constants and tuples"),
    ("C09", "fix: support arrays of NormBRDF in hemreflect for both backends", "hemreflect failed for arrays of NormBRDF / in one backend"),
    ("C05", "fix: unused parameters no longer affect the shape of results", "shape of results depended on unused parameters (symengine)"),
    ("C05", "fix: support read-only arrays as input of compiled symengine functions", "read-only arrays were rejected (symengine)"),
    ("C06", "fix: derivatives with respect to parameters of cosine-lobes", "jacobian with respect to a symbol in the generalization parameters of a CosineLobe failed"),
    ("C17", "fix: unused parameters named like symengine's cse symbols", "a parameter named x0, x1, .. gave wrong derivatives if it was an unused argument of the compiled function (symengine)"),
    ("C22", "fix: practically vanishing contributions in the 3D analyzer", "moving the incidence-angle slider towards grazing raised an exception in matplotlib's shading (contributions of about 1e-80)"),
    ("C07", "fix: layout of the sparse jacobian depended on obsolete parameter values", "after R.tau = <timeseries> a scalar tau left in the param_dict gave one column instead of one per timestamp (and vice versa)"),
    ("C26", "fix: combine docstrings with References or Examples", "combining with a docstring that has a References or Examples section failed (silently): the inherited documentation was lost"),
    ("C27", "fix: symengine backend was accepted even if symengine is not installed", "set_lambda_backend('symengine') was accepted without symengine and every evaluation failed afterwards"),
    ("C27", "fix: 'from rt1_model import *' failed if matplotlib is not installed", "the star-import failed without matplotlib"),
    ("C06", "fix: derivatives with respect to symbols that have assumptions", "derivatives with respect to sympy symbols with assumptions (e.g. positive=True) were silently 0"),
    ("C13", "fix: check the arguments of the analyzers before changing the model", "a rejected analyze/analyze3d call (missing parameters, malformed sliders, unknown range or contribution) had already changed the geometry and the units of the model"),
]
WHAT_N = (
    'a scattering-function parameter named "n" collides with the Legendre summation index '
    'sp.Symbol("n"): the expansion (and the interaction term) is silently wrong; not '
    "repaired since the index symbol is the public convention of user-defined functions"
)
KNOWN = [
    ("C08", "S|['HenyeyGreenstein', {'t': 'n', 'ncoefs': 3}]", WHAT_N),
    ("C17", "name=n", WHAT_N),
]
out = [dict(property=p, status="fixed", commit=H[m], entry=f"fixed: property={p} {H[m]} {w}") for p, m, w in FIX]
missing = set(m for m in H if m.startswith("fix:")) - {m for _, m, _ in FIX}
assert not missing, missing
out += [dict(property=p, status="known", key=k, what=w) for p, k, w in KNOWN]
pathlib.Path(__file__).parents[1].joinpath("known_findings.jsonl").write_text("".join(json.dumps(o) + "\n" for o in out))
