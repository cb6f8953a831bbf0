#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib

C = "src/rt1_model/_calc.py"
S = "src/rt1_model/_scatter.py"
H = "src/rt1_model/helpers.py"
P = "src/rt1_model/plot.py"
SU = "src/rt1_model/surface.py"
VO = "src/rt1_model/volume.py"
I = "src/rt1_model/__init__.py"
out = []


def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    out.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(obs),
                hook_needed=hook,
            ),
        )
    )


prop(
    "C01",
    "Contributions equal the documented first-order solution",
    "For every combination of volume and surface scattering function, geometry and parameter values, the surface, volume and interaction contributions and their total equal the documented first-order solution; the interaction term is the documented double integral taken over the truncated Legendre expansions of the two functions. This holds for monostatic and bistatic directions, any bare-soil fraction, zero up to large optical depth and nadir up to near-grazing angles, and all values are finite in linear units.",
    ["inputs", "configurations"],
    "all scattering-function pairs, geometries (mono/bistatic, nadir to grazing, any azimuth) and parameter values",
    "tests only assert Itot = Isurf+Ivol+Iint and one loose bare-soil value for Rayleigh over Isotropic; no test compares surface, volume or interaction with the documented equations, and bistatic interaction values are never checked",
    [C, SU, VO, S],
    [("RT1.calc/_surface/_volume/_interaction", C), ("fn-coefficient extraction and S2 closed form", C)],
    obs=["RT1.calc", "RT1.surface", "RT1.volume", "RT1.interaction"],
)
prop(
    "C02",
    "Results depend only on the current configuration, not on call history",
    "Whatever sequence of geometry changes, parameter updates, parameter-definition changes, output-flag changes, backend switches, replacements of the scattering functions, evaluations and derivative requests was issued before, every output of a model equals that of a freshly built model with the same current configuration. In particular nothing computed for an earlier configuration is ever used for a later one.",
    ["histories"],
    "all sequences of public operations on one model",
    "every test builds a model, configures it once and evaluates it once; all lazily built caches (cosines, fn-coefficients, compiled functions, derivative functions) are exercised in a single state only",
    [C, S],
    [("lru_cache'd properties and functions cleared in the setters", C), ("lazily built fn-coefficients / compiled functions reset by set_monostatic/set_bistatic", C)],
    [("cached cosines, coefficients, compiled functions", "derived from geometry, scattering functions and the set of parameter names", C)],
    obs=["RT1.calc", "RT1.jacobian", "RT1.tau", "RT1.omega", "RT1.NormBRDF", "RT1.bsf"],
)
prop(
    "C03",
    "Fixed angles and monostatic mode never change results",
    "Evaluating the same pair of directions gives the same contributions whether the geometry is set as monostatic or bistatic, and whether any subset of the angles is fixed when the geometry is selected or supplied afterwards as dynamic values. Switching between such equivalent settings on one model also leaves results unchanged.",
    ["configurations", "inputs"],
    "all 16 fixed/dynamic masks of bistatic geometry, both monostatic modes, all directions",
    "the parametrised bistatic test runs all masks but only checks that the total is the sum of the parts, with a surface for which azimuth has no effect",
    [C],
    [("_geom_ang_symbs, set_monostatic, set_bistatic, _calc_Fint_1/_calc_Fint_2", C)],
    obs=["RT1.calc"],
)
prop(
    "C04",
    "Both symbolic backends give the same answers",
    "The selected symbolic backend never influences results: contributions, jacobians, parameter values and scattering-function values agree for every model specification and input shape, whichever backend was active when each part of the model was built and however often it is switched in between. An unknown backend name is rejected without changing the active backend.",
    ["configurations", "histories", "inputs"],
    "all model specifications and all placements of backend switches between the steps of a workflow",
    "one test compares the backends for one specification; switching the backend on a live model and the differing broadcasting of the two backends are not covered",
    [H, C, I],
    [("_lambdify, _expand", H), ("set_lambda_backend", I)],
    [("active backend", "process-wide backend name", I)],
    obs=["RT1.calc", "RT1.jacobian", "V.calc", "get_lambda_backend"],
)
prop(
    "C05",
    "Array evaluation equals element-by-element evaluation",
    "For any mutually broadcastable mix of shapes of angles and parameters, evaluation returns one leading axis for the components followed by the broadcast shape, and every element equals the evaluation of that single element alone. One element (for example one with zero optical depth) never influences another.",
    ["inputs"],
    "all combinations of broadcastable input shapes, containers and dtypes, and of special elements inside arrays",
    "tests evaluate scalars or one fully expanded 2-D array; mixed shapes and arrays holding special elements are not covered",
    [C, H],
    [("np.atleast_1d / broadcasting in calc, _calc_Fint_*", C), ("broadcast in the compiled functions", H)],
    obs=["RT1.calc", "RT1.jacobian"],
)
prop(
    "C06",
    "The jacobian is the exact derivative of the modelled signal",
    "For every parameter of the model (optical depth, albedo, surface normalisation, bare-soil fraction, any symbol of the scattering functions and any symbol of a parameter expression, also when it occurs in several places), each jacobian entry equals the partial derivative of surface plus volume contribution in exactly the output units the model is set to. The order of the returned list is the order of the requested parameters.",
    ["inputs", "configurations"],
    "all parameters, output units, geometries, parameter expressions and scattering functions",
    "no test checks any derivative; the example retrievals converge also with a wrong jacobian",
    [C],
    [("_dvolume_*, _dsurface_*, _d_volume_ddummy, _d_surface_ddummy, jacobian", C)],
    obs=["RT1.jacobian"],
)
prop(
    "C07",
    "The sparse jacobian has the layout least_squares needs",
    "In the sparse format the jacobian has one row per measurement in ravel order and, in the order of the requested parameters, one column for every parameter with a single value and one column per timestamp for every parameter given as a timeseries, where a timestamp's column is non-zero only for the measurements of that timestamp. The entries are those of the list format.",
    ["inputs", "configurations"],
    "all mixes of static and dynamic parameters, numbers of timestamps and incidence angles",
    "only exercised indirectly by the retrieval notebooks, whose tolerance is 0.15",
    [C],
    [("RT1.jacobian(format='scipy_least_squares')", C)],
    obs=["RT1.jacobian"],
)
prop(
    "C08",
    "Legendre expansions are the truncated expansions of the functions",
    "For every scattering function and every admissible parameter value, the Legendre expansion with the requested number of coefficients is the truncated Legendre series of that very function in its generalised scattering angle. For isotropic and Rayleigh functions the expansion is exact and needs no coefficient count.",
    ["inputs", "configurations"],
    "all functions, parameter values, angle-generalisation parameters and coefficient counts",
    "tests only call the methods; no coefficient besides one cosine-lobe value is compared",
    [SU, VO, S],
    [("legendre_coefficients / phase_function of each class", SU), ("legendre_expansion", S)],
    obs=["legendre_expansion", "legendre_coefficients", "calc"],
)
prop(
    "C09",
    "Scattering functions obey their normalisation",
    "Every volume function integrates to one over the sphere for its default angle parameters, the isotropic surface has unit hemispherical reflectance at every angle, and the nadir-normalised surface has unit hemispherical reflectance at nadir for every asymmetry. The hemispherical-reflectance helper returns the true directional-hemispherical reflectance times the normalisation factor at exactly the requested incidence angles.",
    ["inputs"],
    "all admissible asymmetry values and incidence directions",
    "no test integrates a scattering function; hemreflect is only executed by a notebook",
    [SU, VO, P],
    [("phase_function", SU), ("hemreflect", P)],
    obs=["calc", "hemreflect"],
)
prop(
    "C10",
    "Linear combinations are the weighted sum of their parts",
    "The value, the expansion and the model results of a linear combination are the weighted sums of those of its parts, for any number and order of parts, numeric or symbolic weights and differing angle parameters, where parts sharing the same angle parameters use the largest coefficient count among them. Building or using a combination never changes its parts or the list it was built from.",
    ["inputs", "configurations"],
    "all small combinations of parts, weights, orders, angle-parameter groupings and coefficient counts",
    "tests only call the methods for one combination per kind",
    [S],
    [("_LinComb", S)],
    obs=["LinComb.calc", "LinComb.legendre_expansion", "RT1.calc"],
)
prop(
    "C11",
    "Output units, component rows and totals are consistent",
    "Linear and dB outputs, intensity and sigma0 outputs, and any incident intensity are related by exactly the documented conversions, sigma0 never depends on the incident intensity, and the first row is always the sum of the remaining contributions in linear units. With the interaction term switched off exactly the total, surface and volume rows are returned and the total excludes it; the single-contribution methods return the same values as the corresponding rows.",
    ["configurations", "histories"],
    "all combinations of the output flags and incident intensities, also when changed between evaluations",
    "tests check additivity for incident intensity 1 only and never relate the different units to each other",
    [C],
    [("_convert_sig0_db, calc", C)],
    obs=["RT1.calc", "RT1.surface", "RT1.volume", "RT1.interaction"],
)
prop(
    "C12",
    "Models are independent of each other",
    "Operations on one model never change the configuration or results of any other model, even when they share scattering-function objects, parameter arrays or coefficients, and for any number of models alive at the same time. The same holds for scattering-function objects of the same class.",
    ["histories"],
    "all interleavings of operations on two or more models that share parts",
    "tests never use two models alternately",
    [C, S],
    [("per-instance state versus class-level lru_caches", C)],
    [("class-level lru_cache", "shared by all instances", C)],
    obs=["RT1.calc", "RT1.jacobian"],
)
prop(
    "C13",
    "A rejected call leaves the model unchanged",
    "When a geometry, parameter, backend, output-format or analyzer request is rejected with an exception, the model's configuration and all results it would return are the same as before the call. A later valid call behaves as if the rejected one had never been made.",
    ["histories", "fault_sequences"],
    "every invalid call from every reachable configuration",
    "one test checks that one invalid call raises; none looks at the state afterwards",
    [C, I],
    [("assertions in set_monostatic, set_bistatic, set_geometry", C)],
    obs=["RT1.calc", "RT1.set_geometry", "RT1.set_bistatic", "RT1.set_monostatic"],
)
prop(
    "C14",
    "User arrays are neither modified nor torn",
    "No call modifies any array, list or dictionary passed to it, and modifying a returned result (contributions, jacobians, function values) never affects later results. Modifying an angle array after it was handed to the model never yields results that mix old and new angles.",
    ["histories", "inputs"],
    "every entry point taking arrays, followed by mutations of inputs and outputs at any later point",
    "tests never mutate an input or output and never inspect inputs after a call",
    [C, H],
    [("np.atleast_1d in set_geometry/update_params", C), ("np.stack in calc", C)],
    obs=["RT1.calc", "RT1.t_0", "V.calc"],
)
prop(
    "C15",
    "Pickling and copying round-trip without side effects",
    "Serialising or deep-copying a model in any state leaves the original fully functional and unchanged, and the copy returns the same results, has its own independent configuration and offers the same methods as the original. This also holds when the copy is restored in a fresh process and for repeated round trips.",
    ["histories"],
    "every reachable model state (before/after evaluation, any geometry, flags, definitions), both backends",
    "one test pickles one state and only compares calc of the loaded copy in the same process",
    [C],
    [("RT1.__getstate__", C)],
    obs=["cloudpickle.dumps/loads", "copy.deepcopy"],
)
prop(
    "C16",
    "Incomplete specifications are reported, never guessed",
    "Evaluating a model while any required parameter is missing raises an error that names exactly the missing parameters, in both backends and whatever was evaluated before, and evaluation succeeds with correct values as soon as the missing values are supplied. Required angles that were never set, missing coefficient counts for the interaction term and inadmissible constructor arguments are rejected likewise; the analyzers reject and name every parameter that is neither set on the model nor assigned to a slider.",
    ["inputs", "histories"],
    "all subsets of supplied parameters and all orders of supplying them",
    "no test evaluates an incomplete model",
    [C, S, SU, VO],
    [("TypeError handler in calc and _eval_param", C), ("constructor assertions", SU)],
    obs=["RT1.calc", "constructors"],
)
prop(
    "C17",
    "Parameter definitions behave like the values they denote",
    "Defining a model parameter by a number, an array, a string expression or a symbolic expression gives the same results as supplying the equivalent numeric value directly, for any choice and any insertion order of free symbols, and reading the parameter returns that value. Redefining a parameter takes effect immediately and leaves all others untouched.",
    ["inputs", "histories"],
    "all kinds of definitions for the four model parameters and function parameters, and symbol orders",
    "only the identity expression 'x' is used in tests",
    [C, H],
    [("_eval_param, _get_param_funcs, _get_param_symbs", C), ("_parse_sympy_param, _lambdify", H)],
    obs=["RT1.tau", "RT1.omega", "RT1.NormBRDF", "RT1.bsf", "RT1.calc"],
)
prop(
    "C18",
    "Pre-computed coefficients reproduce the results",
    "A model that is given the interaction coefficients (or the compiled coefficient functions) of another model with the same scattering functions and geometry returns the same results as that model, whatever order parameters were set in on either side. Using them never changes the model they came from.",
    ["configurations", "histories"],
    "both input kinds, all geometry modes, all parameter insertion orders",
    "no test uses either input",
    [C],
    [("fn_input / fnevals_input", C)],
    obs=["RT1(fn_input=...)", "RT1(fnevals_input=...)", "RT1.calc"],
)
prop(
    "C19",
    "The fn-coefficients satisfy their defining identity",
    "For every pair of scattering functions, coefficient counts and geometry, the evaluated fn-coefficients form the polynomial in the cosine of the intermediate polar angle that equals the azimuth integral of the product of the two truncated expansions. There is a coefficient for every power up to the combined degree, and none beyond it is non-zero.",
    ["inputs", "configurations"],
    "all function pairs, coefficient counts and directions",
    "three tests compare single coefficients for a Lambertian or single-coefficient surface",
    [C],
    [("_calc_interaction_expansion, _integrate_0_2pi_phis, _extract_coefficients", C)],
    obs=["RT1._fnevals (as used by the tests and the example notebook)"],
)
prop(
    "C20",
    "Physical symmetries and scaling laws hold",
    "Exchanging incidence and exit direction leaves every contribution per incident flux (intensity divided by I0 times the cosine of the incidence angle) unchanged, rotating both azimuths together leaves results of azimuthally symmetric functions unchanged, and reversing both azimuths or adding full turns changes nothing. Surface and interaction scale linearly with the surface normalisation, volume and interaction linearly with the albedo, and every contribution is affine in the bare-soil fraction.",
    ["inputs"],
    "all directions, functions and parameter values",
    "no test compares two related evaluations",
    [C, SU, VO],
    [("contribution formulas", C)],
    obs=["RT1.calc"],
)
prop(
    "C21",
    "The monostatic analyzer always shows the current model",
    "After any sequence of slider moves and range selections, every displayed line equals the model evaluated at the displayed angles with the current slider values, and the range band spans exactly the results over the selected parameter's range with all others at their slider values. Sliders start at the given or central value, stay within the given limits and carry the given names; unspecified parameters keep the model's values.",
    ["histories"],
    "all sequences of widget events",
    "a notebook constructs analyzers but never triggers an event or reads a line",
    [P],
    [("Analyze", P)],
    [("displayed lines and range artists", "what the user sees", P)],
    obs=["matplotlib line data", "slider values"],
)
prop(
    "C22",
    "The 3D analyzer always shows the current model",
    "After any sequence of slider moves, each displayed surface is the requested contribution of the model in linear units at the current slider values and incidence angle (the interaction counts towards the total if and only if it is requested), exactly the requested contributions are displayed, and none of an earlier state remain. The model's interaction flag is as it was before.",
    ["histories"],
    "all sequences of widget events and contribution selections",
    "a notebook constructs one 3D analyzer but never triggers an event or reads a surface",
    [P],
    [("Analyze3D", P)],
    obs=["matplotlib 3D artists", "RT1.int_Q"],
)
prop(
    "C23",
    "Polar plots draw the functions they are given",
    "A polar plot draws, for every requested incidence angle and parameter set, the scattering function's values over the plotted directions and, when requested and available, the values of its Legendre expansion, and nothing else as curves. It does so for every scattering function in both backends and never changes the function or its arguments.",
    ["inputs", "configurations"],
    "all functions, incidence lists, parameter sets and plot options",
    "notebooks call it without looking at the drawn data",
    [P],
    [("polarplot", P)],
    obs=["matplotlib axes lines"],
)
prop(
    "C24",
    "Logging configuration is idempotent and complete",
    "After any sequence of log-level requests exactly one handler of the package exists, level and format are those of the last accepted request, every documented level and format short-name is accepted, and each message is emitted exactly once if and only if its level is enabled.",
    ["histories"],
    "all sequences of log-configuration calls",
    "no test covers logging",
    [I],
    [("set_loglevel, _ensure_handler, _set_logfmt", I)],
    obs=["logging output"],
)
prop(
    "C25",
    "Independent models can be evaluated in concurrent threads",
    "Evaluating different models in different threads at the same time, including models sharing scattering-function objects and geometry changes on one model during an evaluation of another, gives each model exactly the results it gives alone, under every thread schedule.",
    ["schedules"],
    "all thread interleavings (up to a preemption bound) of two threads working on different models",
    "tests are single-threaded",
    [C, S, H],
    [("class-level lru_caches and per-instance state", C)],
    obs=["RT1.calc"],
)
prop(
    "C26",
    "Combined docstrings keep every documented parameter once",
    "The documentation of a scattering-function class lists each parameter of the class and of its base class exactly once, own descriptions take precedence over inherited ones, and all other (numpydoc) sections of both are kept. Combining documentation never fails and never changes the documentation it inherits from.",
    ["inputs"],
    "all small combinations of docstring sections and parameter overlaps",
    "no test inspects documentation",
    [H],
    [("append_numpy_docstring", H)],
    obs=["__doc__"],
)
prop(
    "C27",
    "Everything works without the optional dependencies",
    "With only the required dependencies installed the package can be imported in every way it offers and gives the same results for all models: without symengine the sympy backend is active and requesting symengine is rejected without any effect, and without matplotlib nothing but the visualisation methods is missing. Each feature is offered if and only if its dependency is available.",
    ["configurations", "histories"],
    "all combinations of missing optional dependencies and histories of operations",
    "tests run with all dependencies installed",
    [I, C, S],
    [("optional imports of symengine and matplotlib", I), ("_register_plotfuncs", S)],
    obs=["RT1.calc", "RT1.jacobian", "module attributes"],
)
prop(
    "C28",
    "Results do not depend on the process they are computed in",
    "Every output (contributions, jacobians in any format, parameter values, function values, reported missing parameters) is the same in every process, whatever the hash seed and thereby the iteration order of sets of symbols is. Models and coefficients handed from one process to another one with a different order give the same results there.",
    ["configurations", "inputs"],
    "all iteration orders of the sets of symbols of a model",
    "tests run in one process with one (random) order",
    [C, S, H],
    [("sets of free symbols in _get_param_symbs, _param_names, _lambdify", C)],
    obs=["RT1.calc", "RT1.jacobian", "exceptions"],
)
prop(
    "C29",
    "User-defined scattering functions are equivalent to built-in ones",
    "A scattering function that is defined by subclassing the volume or surface base class gives the same results, derivatives, expansions, combinations and copies as a built-in function with the same phase function and coefficients, whether it is defined by attributes, properties or by extending a built-in class. Subclasses with missing definitions or inadmissible arguments are rejected when they are created.",
    ["inputs"],
    "all ways of defining a function x uses in models, combinations and copies",
    "tests only use the built-in functions",
    [S, "src/rt1_model/volume.py", "src/rt1_model/surface.py"],
    [("abstract base classes VolumeScatter and SurfaceScatter", S)],
    obs=["RT1.calc", "V.calc", "legendre_expansion"],
)
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text(
    "".join(json.dumps(p) + "\n" for p in out)
)
print(len(out))
