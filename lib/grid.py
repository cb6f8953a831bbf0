"""Catalogues used by the configuration-grid checks."""
import itertools

PI = 3.141592653589793


def V_specs(tier="quick"):
    out = [
        ["Isotropic", {}],
        ["Rayleigh", {}],
        ["Isotropic", {"a": [-0.4, 1.0, 1.0]}],
        ["Rayleigh", {"a": [-0.6, 0.8, 0.5]}],
        ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 1}],
        ["HenyeyGreenstein", {"t": 0.4, "ncoefs": 2}],
        ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 3}],
        ["HenyeyGreenstein", {"t": "t_v * 0.5", "ncoefs": 4, "a": [-0.7, 0.6, 0.9]}],
        ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 3, "a": [-1.0, "a_v", 1.0]}],
        ["HGRayleigh", {"t": "t_v", "ncoefs": 3}],
        ["HGRayleigh", {"t": -0.5, "ncoefs": 4, "a": [0.5, 0.7, 1.0]}],
        ["LinComb", [["w_v", ["Rayleigh", {}]], [0.4, ["HenyeyGreenstein", {"t": "t_v", "ncoefs": 2}]]]],
        ["HGRayleigh", {"t": "t_v", "ncoefs": 2, "a": [-1.0, "a_v", 1.0]}],
        ["LinComb", [[0.3, ["Isotropic", {}]], ["1 - w_v", ["HenyeyGreenstein", {"t": 0.3, "ncoefs": 3, "a": [0.5, 1.0, 0.8]}]]]],
    ]
    if tier == "thorough":
        out += [
            ["HenyeyGreenstein", {"t": t, "ncoefs": n}]
            for t in (-0.7, "t_v")
            for n in (5, 8)
        ]
        out += [["HGRayleigh", {"t": "t_v", "ncoefs": 7}]]
    return out


def S_specs(tier="quick"):
    out = [
        ["Isotropic", {}],
        ["Isotropic", {"a": [0.3, 1.0, 1.0]}],
        ["CosineLobe", {"i": 1, "ncoefs": 1}],
        ["CosineLobe", {"i": 2, "ncoefs": 3}],
        ["CosineLobe", {"i": 5, "ncoefs": 4, "a": [0.4, 0.9, 0.5]}],
        ["CosineLobe", {"i": 3, "ncoefs": 3, "a": ["a_s", 1.0, 0.5]}],
        ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 1}],
        ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 3}],
        ["HenyeyGreenstein", {"t": 0.3, "ncoefs": 4, "a": [-0.4, 0.7, 1.0]}],
        ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": ["a_s", 1.0, 0.5]}],
        ["HG_nadirnorm", {"t": "t_s", "ncoefs": 3}],
        ["HG_nadirnorm", {"t": 0.4, "ncoefs": 2, "a": [0.6, 1.0, 0.4]}],
        ["LinComb", [["w_s", ["Isotropic", {}]], [0.4, ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 3}]]]],
        ["LinComb", [[0.2, ["CosineLobe", {"i": 3, "ncoefs": 3, "a": [0.5, 1.0, 1.0]}]], ["w_s", ["HenyeyGreenstein", {"t": "t_s", "ncoefs": 2, "a": [-0.5, 0.4, 1.0]}]]]],
    ]
    if tier == "thorough":
        out += [
            ["HenyeyGreenstein", {"t": t, "ncoefs": n}]
            for t in (-0.4, "t_s")
            for n in (5, 8)
        ]
        out += [["CosineLobe", {"i": 5, "ncoefs": 8}]]
    return out


# a symbol that occurs in both functions (or is a parameter of the model as well)
SHARED = [
    [["HenyeyGreenstein", {"t": "x", "ncoefs": 2}], ["HenyeyGreenstein", {"t": "x", "ncoefs": 2}]],
    [["HGRayleigh", {"t": "x", "ncoefs": 2}], ["HenyeyGreenstein", {"t": "0.5 * x", "ncoefs": 2, "a": ["x", 1.0, 0.5]}]],
    [["HenyeyGreenstein", {"t": "0.02 * tau", "ncoefs": 2}], ["HG_nadirnorm", {"t": "t_s", "ncoefs": 2}]],
    [["HenyeyGreenstein", {"t": "omega * x", "ncoefs": 2}], ["HenyeyGreenstein", {"t": "0.02 * tau - x", "ncoefs": 2}]],
    [["LinComb", [["x", ["Rayleigh", {}]], ["1 - x", ["Isotropic", {}]]]], ["LinComb", [["NormBRDF", ["Isotropic", {}]], ["x", ["CosineLobe", {"i": 2, "ncoefs": 2}]]]]],
    [["Rayleigh", {}], ["HenyeyGreenstein", {"t": "0.5 * bsf", "ncoefs": 2, "a": [-1.0, "x", 1.0]}]],
]

# values of the free symbols
SYM = dict(t_v=0.35, a_v=0.7, w_v=0.6, t_s=-0.3, a_s=0.6, w_s=0.45, x=0.4)
SYM2 = dict(t_v=-0.6, a_v=1.0, w_v=0.1, t_s=0.55, a_s=-1.0, w_s=1.3, x=-0.3)
SYM0 = dict(t_v=0.0, a_v=0.0, w_v=0.0, t_s=0.0, a_s=0.0, w_s=0.0, x=0.0)
