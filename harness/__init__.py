"""Registry: property id -> jobs."""


class Prop:
    level = "exploration"

    def __init__(self, bounds, outside, assumptions=()):
        self.bounds, self.outside, self.assumptions = bounds, outside, list(assumptions)
        self._jobs = []

    def add(self, module, harness, params=None, tier="quick", budget=60, opts=None, witnesses=10):
        self._jobs.append((tier, dict(module="harness." + module, harness=harness,
                                      params=dict(params or {}), opts=dict(opts or {}),
                                      budget=budget, witnesses=witnesses)))
        return self

    def jobs(self, tier):
        out = []
        for t, j in self._jobs:
            if tier == "thorough" or t == "quick":
                j = dict(j)
                if tier == "thorough":
                    j["budget"] = j["budget"] * 6
                    j["opts"] = dict(j["opts"], query_timeout=60000)
                out.append(j)
        return out


REGISTRY = {}
REAL = "inputs are real numbers inside the stated ranges; floating-point rounding is not modelled (every solver witness and every counterexample is re-run on the real code in floating point)"

p = REGISTRY["C01"] = Prop(
    {"dim": "1-3", "basis entries": "[-8, 8] real, |det| >= 1/8", "coordinates": "[-50, 50] real",
     "points per call": "1-2"},
    "dimension > 3; near-singular bases; more than 2 points per call", [REAL])
for d in (1, 2, 3):
    for k in ("single", "batch"):
        p.add("basis", "t_inverse", {"dim": d, "kind": k})
        if d < 3:
            p.add("basis", "t_itranslate", {"dim": d, "kind": k})
p.add("basis", "t_itranslate", {"dim": 3, "kind": "single", "tri": True})
p.add("basis", "t_itranslate", {"dim": 3, "kind": "single"}, tier="thorough")
for n in ("chain", "neg", "square", "rect", "oblique", "skew", "sc", "tri"):
    p.add("basis", "t_itranslate_exact", {"name": n})
for k in ("float", "copy", "norms", "int"):
    p.add("basis", "t_construct", {"kind": k})
p.add("basis", "t_construct", {"kind": "norms", "dim": 3})

p = REGISTRY["C02"] = Prop(
    {"dim": "1-3", "basis entries": "[-4, 4] real, |det| >= 1/8"}, "dimension > 3", [REAL])
for d in (1, 2, 3):
    p.add("basis", "r_vectors", {"dim": d})
    p.add("basis", "r_double", {"dim": d}, tier="quick" if d < 2 else "thorough")
p.add("basis", "r_double", {"dim": 2, "tri": True})
p.add("basis", "r_double", {"dim": 3, "tri": True})
for d in (1, 2):
    p.add("basis", "r_recognise", {"dim": d})

p = REGISTRY["C03"] = Prop(
    {"dim": "1-3", "cells per axis": "1-6 (symbolic); selected shapes up to 6e9 cells and 5 axes"}, "other shapes with more axes or more cells per axis", [])
for d in (1, 2, 3):
    for k in ("single", "batch"):
        p.add("basis", "s_bijection", {"dim": d, "kind": k})

p = REGISTRY["C04"] = Prop(
    {"lattice constants": "[1/4, 8] real", "prefabs": "all of LatticeBasis"}, "other lattice constants", [REAL])
for n in ("chain", "square", "rectangular", "hexagonal", "sc", "fcc", "bcc", "hexagonal3d",
          "hypercubic2", "hypercubic4"):
    p.add("basis", "g_prefab", {"name": n})
for deg in (30, 60, 90, 120, 150):
    p.add("basis", "g_oblique", {"deg": deg})
for d in (1, 2, 3):
    p.add("basis", "g_cell_size", {"dim": d})

p = REGISTRY["C05"] = Prop(
    {"scale": "[1/16, 64] real ([1, 4] for boxes with a free size)", "geometries": "see jobs", "cell indices": "[-20, 20] ([-1e5, 1e5] for selected geometries)"},
    "geometries not listed, more than 3 distances", [REAL])
from .geo import GEO  # noqa: E402

for n in GEO:
    p.add("lattice", "n_infinite", {"geo": n})
for n in ("chain", "trimer", "graphene", "squareAB", "nacl", "outcell2d"):
    p.add("lattice", "n_positions", {"geo": n})

p.add("lattice", "n_family", {"kind": "ssh", "u": [0.1, 0.45]})
p.add("lattice", "n_family", {"kind": "ssh", "u": [0.55, 0.9]})
p.add("lattice", "n_family", {"kind": "ssh2", "u": [0.1, 0.45]})
p.add("lattice", "n_family", {"kind": "sshAA", "u": [0.1, 0.45]})
p.add("lattice", "n_family", {"kind": "sshout", "u": [0.1, 0.45]})
p.add("lattice", "n_family", {"kind": "rect", "u": [1.1, 1.9]})
p.add("lattice", "n_family", {"kind": "rect1", "u": [1.1, 1.9]})
p.add("lattice", "n_family", {"kind": "oblique", "u": [0.1, 0.45]})
p.add("lattice", "n_family", {"kind": "squareAB", "u": [0.2, 0.23], "v": [0.1, 0.12]})
p.add("lattice", "n_family", {"kind": "squareAB", "u": [0.1, 0.4], "v": [0.1, 0.4]}, tier="thorough")

p = REGISTRY["C06"] = Prop(
    {"box": "size in [0, 3], position in [-1.5, 1.5] (real) per axis", "circle / donut": "radius <= 1.7, centre in [-0.5, 0.5]^2"},
    "boundaries closer than 0.01 to a site without containing it exactly (tolerance of the library)", [REAL])
for n in ("chain2", "dimer", "ssh", "trimer"):
    p.add("build", "b_box", {"geo": n, "smax": 3, "pmax": 1.5, "pos": True})
p.add("build", "b_box", {"geo": "outcell", "smax": 3, "pmax": 1.5, "pos": True, "nbr": False})
for n in ("square", "hex", "oblique", "graphene"):
    p.add("build", "b_box", {"geo": n, "smax": 2.5, "pmax": 0, "pos": False})
for n, m in (("square", 1), ("hex", 1), ("oblique", 0.5)):
    p.add("build", "b_box", {"geo": n, "smax": 1.5, "pmax": m, "pos": True, "nbr": False})
p.add("build", "b_box", {"geo": "outcell2d", "smax": 1.25, "pmax": 0.5, "pos": True, "nbr": False})
p.add("build", "b_box", {"geo": "sc", "smax": 1.5, "pmax": 0, "pos": False})
p.add("build", "b_box", {"geo": "bcc", "smax": 0.9, "pmax": 0, "pos": False})
for n in ("oblique", "obliqueneg", "hex", "graphene", "rect1", "squareAB"):
    for b in ([-5.25, 3.375], [2.375, -7.25], [-6.25, -6.25]):
        p.add("build", "b_far", {"geo": n, "base": b, "size": [1.0, 1.0], "dp": 0})
    p.add("build", "b_far", {"geo": n, "base": [-2.25, 0.375], "size": [0.5, 6.0]})
    p.add("build", "b_far", {"geo": n, "base": [-2.25, -3.625], "size": [6.0, 0.5]})
for n, b, z in (("fcc", [-2.25, 1.125, 1.375], [0.5, 0.5, 2.0]), ("bcc", [1.125, -2.25, -3.375], [2.0, 0.5, 0.5]),
                ("nacl", [-2.125, -2.125, 2.125], [0.5, 1.25, 0.5]), ("sc", [3.125, -4.25, -3.375], [0.75, 1.5, 1.0])):
    p.add("build", "b_far", {"geo": n, "base": b, "size": z, "ds": 0.5, "dp": 0})
for k in ("circle", "donut"):
    for n in ("square", "hex", "oblique"):
        for o in ([0.0, 0.0], [0.3, -0.2]):
            p.add("build", "b_shape", {"geo": n, "kind": k, "centre": o,
                                       "rmax": 1.3 if k == "donut" and o[0] else 1.9})
    p.add("build", "b_shape", {"geo": "dimer", "kind": k, "rmax": 1.7, "centre": None})
    p.add("build", "b_shape", {"geo": "sc", "kind": k, "centre": [0.1, 0.2, -0.3],
                               "rmax": 1.2 if k == "circle" else 0.9})
for n in ("square", "oblique", "obliqueneg", "graphene"):
    for prim in (False, True):
        p.add("build", "b_shapeobj", {"geo": n, "prim": prim, "nsym": 1 if n == "graphene" else 2})
p.add("build", "b_callback", {"geo": "chain2", "size": [4], "kind": "mask"})
p.add("build", "b_callback", {"geo": "square2", "size": [1, 1], "kind": "mask"})
p.add("build", "b_callback", {"geo": "squareAB", "size": [2, 1], "kind": "threshold"})
for n in ("chain", "square", "dimer"):
    p.add("build", "b_primitive", {"geo": n, "lmax": 3})
for n in ("oblique", "hex", "graphene"):
    p.add("build", "b_primitive", {"geo": n, "lmax": 3, "nsym": 1, "a": 1.0})
for n, a in (("chain", 0.25), ("square", 0.5), ("square", 1.0), ("dimer", 3.0), ("obliqueneg", 0.5)):
    p.add("build", "b_primitive", {"geo": n, "lmax": 2, "a": a})
p.add("build", "b_primitive", {"geo": "chain", "lmax": 3, "a": None})
for n in ("hex", "graphene", "square", "oblique", "chain"):
    p.add("build", "b_primint", {"geo": n})
p.add("build", "b_history", {"geo": "square2", "sizes": [[1, 1], [2, 1], [3, 2]]})
p.add("build", "b_history", {"geo": "dimer", "sizes": [[1], [2], [4]]})

p = REGISTRY["C07"] = Prop(
    {"scale": "[1/16, 64] real ([1, 4] for boxes with a free size)", "sites": "<= 40; concrete scale: <= 300"}, "larger systems", [REAL])
for n, s in (("chain3", [6]), ("dimer", [4]), ("dimerAB2", [4]), ("dimermix", [4]), ("trimer", [3]),
             ("square", [3, 2]), ("square2", [3, 2]), ("square3", [3, 2]), ("rect", [3, 3]), ("rect1", [4, 3]),
             ("squareAB", [2, 2]), ("squareABmix", [2, 2]), ("lieb", [4, 3]), ("liebmix", [4, 3]), ("kagome", [5, 4]), ("oblique", [3, 3]),
             ("obliqueneg", [3, 3]), ("hex2", [4, 3]), ("graphene", [4, 3]), ("graphene2", [4, 2]),
             ("sc", [1, 1, 2]), ("sc2", [1, 1, 2]), ("fcc", [1, 1, 1]), ("bcc", [1, 1, 1]), ("cscl", [1, 1, 1]),
             ("nacl", [1, 1, 1]), ("aniso", [9, 8]), ("layer", [3, 8]), ("outcell2d", [2, 2])):
    p.add("build", "b_scale", {"geo": n, "size": s})

p = REGISTRY["C08"] = Prop(
    {"scale": "[1/16, 64] real ([1, 4] for boxes with a free size)", "cells per axis": "3-5; concrete scale: up to 300 (1-D), 17 x 16 (2-D)", "geometries": "see jobs (1-3 dimensions, 1-3 atoms)",
     "histories": "up to 3 changes of the periodic axes"},
    "systems with fewer than 3 cells along a periodic axis, larger systems, longer histories", [REAL])
for n, L in (("chain", [3]), ("chain2", [5]), ("dimer", [3]), ("ssh", [3]), ("trimer", [4]), ("dimermix", [4])):
    for how, form in (("set", "int"), ("build", "bool")):
        p.add("build", "p_torus", {"geo": n, "L": L, "axes": [0], "how": how, "form": form})
for n, L in (("square", [3, 4]), ("square2", [3, 3]), ("rect", [3, 3]), ("squareAB", [3, 3]), ("lieb", [3, 3]), ("liebmix", [3, 3])):
    for axes in ([0], [1], [0, 1]):
        p.add("build", "p_torus", {"geo": n, "L": L, "axes": axes, "views": len(axes) == 2})
    p.add("build", "p_torus", {"geo": n, "L": L, "axes": [0, 1], "form": "bool", "how": "build", "scale": False})
p.add("build", "p_torus", {"geo": "square", "L": [3, 3], "axes": [1, 0], "form": "tuple"})
p.add("build", "p_torus", {"geo": "aniso", "L": [9, 3], "axes": [0, 1], "scale": False})
p.add("build", "p_torus", {"geo": "layer", "L": [5, 3], "axes": [0, 1], "scale": False})
for axes in ([2], [0, 1], [0, 1, 2]):
    p.add("build", "p_torus", {"geo": "sc", "L": [3, 3, 3], "axes": axes, "scale": False, "views": False})
p.add("build", "p_history", {"geo": "square", "L": [3, 3], "steps": 2})
p.add("build", "p_history", {"geo": "dimer", "L": [3], "steps": 3})

p = REGISTRY["C11"] = Prop(
    {"geometries": "see jobs", "cells per axis": "2-5, up to 300 (1-D), 17 x 16 (2-D, thorough tier)", "scale": "1, or [1/16, 64] real ([1, 4] for boxes with a free size) where listed"},
    "larger systems; appending lattices that start at different positions", [REAL])
for n, L1, L2 in (("chain2", [3], [2]), ("dimer", [2], [3]), ("trimer", [2], [2])):
    for side in (1, -1):
        p.add("build", "x_append", {"geo": n, "L1": L1, "L2": L2, "ax": 0, "side": side})
for side in (1, -1):
    for ax in (0, 1):
        L2 = [2, 2]
        L2[ax] = 3
        p.add("build", "x_append", {"geo": "square2", "L1": [2, 2], "L2": L2, "ax": ax, "side": side})
        p.add("build", "x_repeat", {"geo": "squareAB", "L": [2, 2], "ax": ax, "num": 2, "side": side})
        p.add("build", "x_extend", {"geo": "square2", "L": [2, 3], "n": 2, "ax": ax, "side": side})
        p.add("build", "x_extend", {"geo": "square", "L": [2, 2], "n": 1, "ax": ax, "side": side, "off": [3, -2]})
p.add("build", "x_append", {"geo": "chain2", "L1": [4], "L2": [3], "ax": 0, "sort": 0})
p.add("build", "x_append", {"geo": "chain2", "L1": [4], "L2": [3], "ax": 0, "sort": 0, "rev": True})
for rev in (False, True):
    for ax in (0, 1):
        p.add("build", "x_append", {"geo": "square", "L1": [2, 2], "L2": [2, 2], "ax": ax, "sort": 1, "rev": rev})
        p.add("build", "x_repeat", {"geo": "square", "L": [2, 2], "ax": ax, "num": 1, "sort": 1 - ax, "rev": rev})
        p.add("build", "x_extend", {"geo": "square", "L": [2, 2], "n": 1, "ax": ax, "sort": 1, "rev": rev})
p.add("build", "x_append", {"geo": "liebmix", "L1": [2, 1], "L2": [2, 2], "ax": 1})
p.add("build", "x_repeat", {"geo": "liebmix", "L": [1, 2], "ax": 0, "num": 2, "side": -1})
p.add("build", "x_append", {"geo": "layer", "L1": [3, 2], "L2": [3, 2], "ax": 1})
p.add("build", "x_append", {"geo": "aniso", "L1": [9, 1], "L2": [9, 1], "ax": 1})
p.add("build", "x_append", {"geo": "square", "L1": [3, 2], "L2": [3, 3], "ax": 1, "sort": 0})
p.add("build", "x_append", {"geo": "chain2", "L1": [5], "L2": [5], "ax": 0, "per1": True, "per2": True})
p.add("build", "x_append", {"geo": "squareABmix", "L1": [2, 2], "L2": [1, 2], "ax": 0, "scale": True})
p.add("build", "x_repeat", {"geo": "dimer", "L": [2], "ax": 0, "num": 3, "scale": True})
p.add("build", "x_repeat", {"geo": "chain2", "L": [5], "ax": 0, "num": 1, "per": True, "side": -1, "sort": 0})
p.add("build", "x_periodic", {"geo": "square", "L": [3, 3], "ax": 0, "num": 1, "paxes": [0, 1]})
p.add("build", "x_periodic", {"geo": "dimer", "L": [2], "ax": 0, "num": 2, "paxes": [0]})

p = REGISTRY["C13"] = Prop(
    {"threshold": "1-3", "sites": "every subset of the listed models (<= 9 sites)"},
    "larger models; repeated pruning (the library prunes once)", [REAL])
p.add("build", "b_min", {"geo": "chain2", "size": [4]})
p.add("build", "b_min", {"geo": "square", "size": [2, 1]})
p.add("build", "b_min", {"geo": "dimer", "size": [2]})
p.add("build", "b_min", {"geo": "chain", "size": [7], "m": 1})
p.add("build", "b_min", {"geo": "chain", "size": [8], "m": 1}, tier="thorough")
p.add("build", "b_min", {"geo": "square", "size": [3, 1], "m": 1})
p.add("build", "b_min", {"geo": "square", "size": [2, 2], "m": 2})

p = REGISTRY["C09"] = Prop(
    {"sites": "3-7", "neighbour slots per site": "2-3", "distances": "2", "removed sites": "1-5, any",
     "table": "every table satisfying the representation invariant (one inductive step)"},
    "more sites or neighbour slots", [])
for form, num in (("int", 1), ("list", 2), ("array", 3), ("neg", 2)):
    p.add("datah", "d_remove", {"N": 4, "cols": 3, "D": 2, "num": num, "form": form})
    p.add("datah", "d_remove", {"N": 5, "cols": 3, "D": 2, "num": num, "form": form}, tier="quick" if num < 3 else "thorough")
    p.add("datah", "d_remove", {"N": 4, "cols": 2, "D": 2, "num": num, "form": form, "periodic": True}, tier="quick" if num < 3 else "thorough")
    p.add("datah", "d_remove", {"N": 6, "cols": 3, "D": 3, "num": num, "form": form}, tier="thorough")
p.add("datah", "d_remove", {"N": 3, "cols": 2, "D": 2, "num": 1, "form": "list", "periodic": True})
for N, num in ((5, 3), (6, 2), (6, 3), (6, 4), (7, 5)):
    p.add("datah", "d_remove", {"N": N, "cols": 3, "D": 2, "num": num, "form": "subset"})
p.add("datah", "d_remove", {"N": 5, "cols": 2, "D": 2, "num": 3, "form": "subset", "periodic": True})
p.add("datah", "d_remove", {"N": 7, "cols": 3, "D": 2, "num": 3, "form": "subset"}, tier="thorough")
p.add("datah", "d_remove", {"N": 7, "cols": 3, "D": 2, "num": 4, "form": "subset"}, tier="thorough")

p = REGISTRY["C10"] = Prop(
    {"sites": "3-4", "neighbour slots per site": "2-3", "distances": "2-3", "permutations / axes": "all",
     "table": "every table satisfying the representation invariant (one inductive step)"},
    "more sites or neighbour slots", [])
p.add("datah", "d_sort", {"N": 4, "cols": 3, "D": 2, "kind": "perm"})
p.add("datah", "d_sort", {"N": 3, "cols": 2, "D": 2, "kind": "perm", "rev": True, "periodic": True})
for rev in (False, True):
    p.add("datah", "d_sort", {"N": 3, "cols": 2, "D": 2, "kind": "axis", "rev": rev})
p.add("datah", "d_sortnb", {"N": 4, "cols": 3, "D": 3})
p.add("datah", "d_sortnb", {"N": 3, "cols": 2, "D": 2, "periodic": True})
p.add("datah", "d_rmper", {"N": 4, "cols": 3, "D": 2})
for num in (1, 2):
    for nd in (1.0, 1.5, 7.0):
        p.add("datah", "d_add", {"N": 3, "cols": 2, "D": 2, "num": num, "newdist": nd})

for a in ({"N": 3, "cols": 2, "D": 2, "num": 1}, {"N": 3, "cols": 1, "D": 2, "num": 2, "newdist": 1.5},
          {"N": 3, "cols": 2, "D": 1, "num": 1, "old": True}, {"N": 3, "cols": 2, "D": 2, "num": 2, "newdist": 2.0, "old": True},
          {"N": 3, "cols": 2, "D": 1, "num": 1, "newdist": 0.5}):
    p.add("datah", "d_setper", a)
p.add("datah", "d_setper", {"N": 4, "cols": 2, "D": 1, "num": 2, "newdist": 0.5}, tier="thorough")
p.add("datah", "d_add", {"N": 3, "cols": 2, "D": 1, "num": 2, "newdist": "free"})
p.add("datah", "d_add", {"N": 3, "cols": 1, "D": 2, "num": 2, "newdist": "free"})
p.add("datah", "d_setper", {"N": 3, "cols": 1, "D": 1, "num": 2, "newdist": "free"})
p.add("datah", "d_setper", {"N": 3, "cols": 1, "D": 1, "num": 2, "newdist": "free", "old": True}, tier="thorough")
for a in ({"N1": 2, "N2": 2, "cols1": 1, "cols2": 2, "D": 1}, {"N1": 2, "N2": 2, "cols1": 2, "cols2": 1, "D": 2},
          {"N1": 3, "N2": 2, "cols1": 2, "cols2": 2, "D": 1, "form": "arr"}, {"N1": 2, "N2": 3, "cols1": 1, "cols2": 2, "D": 2},
          {"N1": 2, "N2": 2, "cols1": 1, "cols2": 1, "D": 1, "periodic": True},
          {"N1": 3, "N2": 2, "cols1": 2, "cols2": 1, "D": 2, "periodic": True},
          {"N1": 2, "N2": 3, "cols1": 1, "cols2": 2, "D": 2, "copy": True, "periodic": True}):
    p.add("datah", "d_append", a)

p = REGISTRY["C12"] = Prop(
    {"operations": "2-3 (thorough 4) out of remove, set/unset periodic axes, sort, reverse, sort neighbours, rebuild, repeat, append, with all arguments",
     "models": "see jobs (<= 12 sites)", "matrix entries": "[-5, 5] real"},
    "longer histories, larger models", [])
ALL = ["remove", "per", "open", "sort", "reverse", "sortnb", "build", "repeat", "append"]
for first in ALL:
    p.add("datah", "h_history", {"geo": "chain2", "L": [5], "steps": 3, "ops": ALL, "first": first})
    p.add("datah", "h_history", {"geo": "dimermix", "L": [3], "steps": 3, "ops": ALL, "first": first})
    p.add("datah", "h_history", {"geo": "squareAB", "L": [3, 2], "steps": 3, "ops": ALL, "first": first}, tier="thorough")
    p.add("datah", "h_history", {"geo": "chain2", "L": [6], "steps": 4, "ops": ALL, "first": first}, tier="thorough")
    p.add("datah", "h_history", {"geo": "trimer", "L": [3], "steps": 4, "ops": ALL, "first": first}, tier="thorough")
p.add("datah", "h_history", {"geo": "squareAB", "L": [3, 2], "steps": 2, "ops": ALL})
for n, L, ax in (("dimer", [3], []), ("dimer", [3], [0]), ("square2", [2, 3], []), ("squareABmix", [3, 3], [0, 1])):
    p.add("datah", "m_hamiltonian", {"geo": n, "L": L, "axes": ax})
p.add("datah", "m_hamiltonian", {"geo": "dimer", "L": [2], "axes": [], "norb": 2})
p.add("datah", "m_symbolic", {"N": 3})

p = REGISTRY["C24"] = Prop(
    {"sites": "3", "dim": "1-2", "coordinates and bounds": "[-5, 5] real"}, "more sites, 3 dimensions", [REAL])
for d in (1, 2):
    p.add("datah", "d_limits", {"N": 3, "dim": d})
    for k in ("both", "min", "max", "short", "none", "outer"):
        p.add("datah", "d_mask", {"dim": d, "kind": k})

p = REGISTRY["C14"] = Prop(
    {"dim": "1-3", "sizes / radii": "[0.01, 3] real", "positions": "[-2, 2] real", "points": "[-4, 4] real, 1-2 per call",
     "hulls": "fixed polygons and a tetrahedron, every query point"},
    "points within 1e-4 (1e-3 for circles) of the border; hulls of other points; dimension > 3", [REAL])
for d in (1, 2, 3):
    p.add("misc", "sh_box", {"dim": d})
    p.add("misc", "sh_default", {"dim": d})
    for k in ("circle", "donut"):
        p.add("misc", "sh_round", {"kind": k, "dim": d})
p.add("misc", "sh_box", {"dim": 2, "tol": True})
for b in ("oblique", "neg", "flip", "skew", "left", "tri", "fcc", "bcc"):
    p.add("misc", "sh_box", {"dim": 3 if b in ("tri", "fcc", "bcc") else 2, "basis": b})
p.add("misc", "sh_box", {"dim": 2, "basis": "oblique", "tol": True})
for k in ("circle", "donut"):
    p.add("misc", "sh_round", {"kind": k, "dim": 2, "tol": True})
for n in ("triangle", "quad", "inner"):
    p.add("misc", "sh_hull", {"name": n})
p.add("misc", "sh_tetra")

p = REGISTRY["C15"] = Prop(
    {"vindices": "offsets in [-40000, 40000], 1-3 cells per axis, 1-3 dimensions", "tables": "2-6 values",
     "min_dtype": "1-2 integers up to 2^40", "interweave": "2-3 arrays of 2-3 rows"},
    "larger boxes and tables", [REAL])
for d in (1, 2, 3):
    p.add("misc", "u_vindices", {"dim": d, "lo": -5, "hi": 5, "smax": 3 if d < 3 else 2})
for lo, hi in ((-300, 300), (-40000, 40000)):
    p.add("misc", "u_vindices", {"dim": 1, "lo": lo, "hi": hi, "smax": 3})
    p.add("misc", "u_vindices", {"dim": 2, "lo": lo, "hi": hi, "smax": 2})
p.add("misc", "u_vindices", {"dim": 2, "lo": -5, "hi": 5, "smax": 2, "sort": 1})
p.add("misc", "u_vindices", {"dim": 3, "lo": -5, "hi": 5, "smax": 2, "sort": 2})
p.add("misc", "u_vindices", {"dim": 2, "lo": -5, "hi": 5, "smax": 2, "sort": -1})
for d in (1, 2, 3):
    for f in ("stop", "startstop", "step", "scalar", "keyword"):
        p.add("misc", "u_vrange", {"dim": d, "form": f, "sort": d - 1})
for m in (False, True):
    p.add("misc", "u_interweave", {"num": 2, "n": 3, "cols": 2, "mixed": m})
    p.add("misc", "u_interweave", {"num": 3, "n": 2, "cols": 1, "mixed": m})
for n in (2, 4):
    for inf in (False, True):
        p.add("misc", "u_lookup", {"n": n, "inf": inf})
p.add("misc", "u_lookup_big", {"n": 300})
for s in (None, True, False):
    for n in (1, 2):
        p.add("misc", "u_mindtype", {"signed": s, "n": n})
for n in (2, 3, 5):
    for cy in (False, True):
        p.add("misc", "u_chain", {"n": n, "cycle": cy})

p = REGISTRY["C16"] = Prop(
    {"points": "[-5, 5] real, 1-3 dimensions", "angles": "every angle (cos, sin: any point of the unit circle); degrees for 30, 45, 90, 120, 215",
     "lengths": "[1/4, 5] real"},
    "other angles in degrees and of compute_vectors", [REAL])
for d in (1, 2, 3):
    p.add("misc", "v_distance", {"dim": d})
    for f in ("one", "rows"):
        p.add("misc", "v_distances", {"dim": d, "form": f})
for ax in range(3):
    p.add("misc", "v_rotation", {"ax": ax})
for w in ([0], [1], [2], [0, 1], [1, 2], [0, 2]):
    p.add("misc", "v_rot", {"which": w})
p.add("misc", "v_rot", {"which": [0, 1, 2]}, tier="thorough")
for dg in (False, True):
    p.add("misc", "v_rotate2d", {"degree": dg})
for deg in (30, 45, 90, 120, 215):
    p.add("misc", "v_degree", {"deg": deg})
p.add("misc", "v_vectors", {"dim": 1, "ang": []})
for a in (30, 60, 90, 120):
    p.add("misc", "v_vectors", {"dim": 2, "ang": [a]})
for a in ([90, 90, 90], [60, 60, 60], [90, 90, 120], [80, 70, 100], [120, 100, 95]):
    p.add("misc", "v_vectors", {"dim": 3, "ang": a})

p = REGISTRY["C17"] = Prop(
    {"operations": "sequences of up to 2 (thorough: 3) changes with all keys and values", "values": "[-3, 3] real"},
    "longer histories", [])
p.add("misc", "a_mapping", {"steps": 1})
p.add("misc", "a_mapping", {"steps": 2})
p.add("misc", "a_mapping", {"steps": 3}, tier="thorough")
p.add("misc", "a_identity")

p = REGISTRY["C19"] = Prop(
    {"lattices": "chain, square, rectangular, oblique, hexagonal, cubic, fcc, bcc, triclinic and their reciprocal lattices",
     "points": "every point within 1.5 lattice constants"},
    "points within 1e-4 of the border of the cell; other lattices", [REAL])
for n in ("chain", "square", "rect", "oblique", "neg", "skew", "left", "hex", "cubic", "fcc", "bcc", "tri"):
    for r in (False, True):
        p.add("misc", "w_check", {"name": n, "recip": r})
        p.add("misc", "w_vertices", {"name": n, "recip": r})
    p.add("misc", "w_grid", {"name": n, "kind": "linspace"})
    if n in ("chain", "square", "rect", "oblique", "hex", "cubic", "bcc"):
        p.add("misc", "w_grid", {"name": n, "kind": "mesh"})
p.add("misc", "w_check", {"name": "oblique", "num": 2})

p = REGISTRY["C20"] = Prop(
    {"points": "3-4 points in [-4, 4]^dim, dim 1-3", "samples per section": "2-4", "lattice constants": "[1/4, 8] real"},
    "more points or samples", [REAL])
for d in (1, 2, 3):
    for cy in (False, True):
        p.add("misc", "k_path", {"dim": d, "num": 3, "n": 4, "cycle": cy})
p.add("misc", "k_path", {"dim": 2, "num": 4, "n": 2})
for n in ("chain", "square", "cubic"):
    p.add("misc", "k_prefab", {"name": n})

p = REGISTRY["C18"] = Prop(
    {"atoms": "1-3", "positions": "[-3, 3] real, 1-3 dimensions", "histories": "up to 2 connections / 4 (thorough: 6) configuration steps",
     "scale": "[1/16, 64] real ([1, 4] for boxes with a free size)"},
    "positions that differ by rounding errors; more atoms; longer histories", [REAL])
for d in (1, 2, 3):
    p.add("config", "q_occupied", {"dim": d})
    p.add("config", "q_default", {"dim": d})
    p.add("config", "q_atomdict", {"dim": d})
p.add("config", "q_occupied", {"dim": 2, "num": 3})
for n in ("chain", "oblique", "hex", "fcc", "bcc"):
    p.add("config", "q_primitive", {"geo": n})
p.add("config", "q_connect", {"steps": 1})
p.add("config", "q_connect", {"steps": 2, "forms": [0, 2, 3, 5], "kmax": 1})
p.add("config", "q_connect", {"steps": 2}, tier="thorough")
p.add("config", "q_states", {"steps": 3})
p.add("config", "q_states", {"steps": 4})
p.add("config", "q_states", {"steps": 6}, tier="thorough")
for k in ("int", "dict", "shape", "periodic"):
    p.add("config", "q_ctor", {"kind": k})
for k in (1, 2):
    p.add("config", "q_neighbors_kw", {"num": k})

p = REGISTRY["C21"] = Prop(
    {"scale": "[1/16, 64] real ([1, 4] for boxes with a free size)", "cells per axis": "3-5", "geometries": "see jobs"}, "larger systems, other geometries", [REAL])
for n, L, ax in (("chain", [3], [0]), ("chain", [5], [0]), ("dimer", [4], [0]), ("trimer", [3], [0]), ("square", [3, 4], [0]),
                 ("square", [3, 4], [1]), ("square", [3, 3], [0, 1]), ("rect", [3, 3], [0, 1]), ("squareAB", [3, 3], [0, 1]),
                 ("sc", [3, 3, 3], [0, 2]), ("dimerAB", [4], [0]), ("rect1", [3, 3], [0]), ("aniso", [2, 3], [1])):
    p.add("build", "p_mindist", {"geo": n, "L": L, "axes": ax})
for n, L, ax, pr in (("chain", [3], 0, None), ("dimer", [4], [0], None), ("trimer", [3], 0, True), ("square", [3, 4], 1, None),
                     ("square", [3, 4], [1], True), ("rect", [4, 3], [0, 1], None), ("rect", [4, 3], [1, 0], None),
                     ("squareAB", [3, 4], [0, 1], True), ("lieb", [2, 3], [1, 0], None), ("sc", [2, 3, 2], [0, 2], None),
                     ("sc", [2, 3, 2], [0, 1, 2], None), ("sc", [2, 3, 2], [2, 0, 1], True)):
    p.add("build", "p_transvec", {"geo": n, "L": L, "axes": ax, "primitive": pr})

p = REGISTRY["C22"] = Prop(
    {"lattice constants": "[1/16, 64] real", "distances": "1-3", "prefabs": "all functions of the package"},
    "more distances", [REAL])
for n, ks, sz in (("simple_chain", (1, 2, 3), [4]), ("alternating_chain", (1, 2, 3), [3.25]), ("alternating_chain_x0", (1, 2), [3.25]),
                  ("simple_square", (1, 2, 3), [2, 3]), ("simple_rectangular", (1, 2), [4, 3]), ("simple_hexagonal", (1, 2), [4, 3]),
                  ("honeycomb", (1,), [4, 3]), ("graphene", (1,), [4, 3]), ("simple_cubic", (1, 2), [1, 1, 2]),
                  ("nacl_structure", (1, 2), [1, 1, 1])):
    for k in ks:
        p.add("config", "f_prefab", {"name": n, "k": k, "size": sz})
for d in (1, 2, 3):
    for prim in (True, False):
        p.add("config", "f_hyper", {"dim": d, "prim": prim})
p.add("config", "f_hyper", {"dim": 1, "prim": True, "form": "num"})
p.add("config", "f_hyper", {"dim": 1, "prim": False, "form": "num", "per": [0]})
p.add("config", "f_hyper", {"dim": 2, "prim": True, "form": "tuple", "per": [0]})
p.add("config", "f_hyper", {"dim": 2, "prim": False, "form": "shape", "per": [1]})

p = REGISTRY["C23"] = Prop(
    {"scale": "[1/16, 64] real ([1, 4] for boxes with a free size)", "histories": "one change on either side, then one on the other, out of 10 operations",
     "geometries": "see jobs"},
    "pickle itself is modelled as a deep copy (replayed with the real one); larger systems", [REAL])
for how in ("copy", "file"):
    p.add("config", "z_copy", {"geo": "dimermix", "L": [4], "how": how})
    for ops in (["atom", "connection", "param"], ["build", "periodic"], ["remove", "sort"], ["append", "sortnb", "analyze"]):
        p.add("config", "z_copy", {"geo": "square2", "L": [3, 2], "how": how, "ops": ops})
    p.add("config", "z_copy", {"geo": "graphene", "L": None, "built": False, "how": how})
for n in ("chain2", "dimermix", "squareABmix", "graphene"):
    p.add("config", "z_dict", {"geo": n})
    p.add("config", "z_atoms", {"geo": n})
    p.add("config", "z_dict", {"geo": n, "cls": "LatticeStructure"})
p.add("config", "z_copy", {"geo": "dimermix", "L": None, "built": False, "how": "copy", "cls": "LatticeStructure"})
p.add("config", "z_copy", {"geo": "graphene", "L": None, "built": False, "how": "file", "cls": "LatticeStructure"})
p.add("config", "z_equal", {"geo": "dimermix", "L": None, "cls": "LatticeStructure"})
p.add("config", "z_equal", {"geo": "squareABmix", "L": None})
p.add("config", "z_equal", {"geo": "dimermix", "L": [3]})
p.add("config", "z_equal", {"geo": "squareAB", "L": [2, 3]})

p = REGISTRY["C25"] = Prop(
    {"scale": "[1/16, 64] real ([1, 4] for boxes with a free size)", "masses": "[1/2, 3] real", "points": "[-1/2, 5/2] real", "models": "see jobs (<= 12 sites)"},
    "larger systems; points at the edge of the tolerance", [REAL])
for n, L, per in (("chain2", [4], None), ("dimer", [3], None), ("trimer", [3], 0), ("square2", [3, 2], None), ("squareABmix", [3, 2], 0),
                  ("lieb", [2, 2], None), ("sc", [2, 2, 2], None)):
    p.add("config", "y_queries", {"geo": n, "L": L, "per": per})
for n, L in (("dimer", [3]), ("square", [2, 2]), ("squareAB", [2, 1]), ("sc", [2, 1, 2])):
    p.add("config", "y_frompos", {"geo": n, "L": L})
    p.add("config", "y_frompos", {"geo": n, "L": L, "default": True})
for n in ("chain", "oblique", "obliqueneg", "hex", "fcc", "bcc"):
    p.add("config", "y_estimate", {"geo": n})

p = REGISTRY["C05"]
for n in ("chain", "square", "hex", "sc", "fcc", "bcc"):
    for k in (0, 1, 2):
        p.add("lattice", "n_cells", {"geo": n, "distidx": k})
    p.add("lattice", "n_cells", {"geo": n, "distidx": 1, "a": 1.3})

# non-orthogonal cells: boxes that are commensurate with the lattice, and boxes of cells
for n, sz, t in (("graphene", [5.75, 3.2], [[2, 2], [2, -2]]), ("graphene2", [8.75, 4.9], [[3, 3], [3, -3]]),
                 ("hex", [5.75, 4.9], [[2, 2], [3, -3]]), ("oblique", [4.75, 3.75], [[5, 0], [-2, 4]])):
    for axes in ([0], [1], [0, 1]):
        REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": axes})
    REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": [0, 1], "a": "sym"})
    if n != "graphene2":
        REGISTRY["C21"].add("build", "p_mindist_general", {"geo": n, "size": sz, "torus": t, "axes": [0, 1]})
    for side in (1, -1):
        for ax in (0, 1):
            REGISTRY["C11"].add("build", "x_general", {"geo": n, "size": sz, "nvec": t[ax], "ax": ax, "side": side})
for n, sz, t in (("oblique", [3.5, 3.5], [[4, 0], [0, 4]]), ("hex", [2.5, 3.5], [[3, 0], [0, 4]]),
                 ("graphene", [2.8, 2.8], [[3, 0], [0, 3]]), ("square2", [2.5, 3.5], [[3, 0], [0, 4]])):
    for axes in ([0], [1], [0, 1]):
        REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": axes, "primitive": True})
    REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": [0, 1], "primitive": True, "a": "sym"})
    REGISTRY["C21"].add("build", "p_mindist_general", {"geo": n, "size": sz, "torus": t, "axes": [0, 1], "primitive": True})

# more than 255 sites
for pid, op in (("C07", "scale"), ("C08", "periodic"), ("C08", "unset"), ("C09", "remove"), ("C10", "sort"), ("C11", "repeat")):
    REGISTRY[pid].add("build", "b_large", {"geo": "chain2", "L": [150 if op == "repeat" else 300], "op": op, "pick": [127, 256]},
                      budget=150)
    REGISTRY[pid].add("build", "b_large", {"geo": "square", "L": [17, 8 if op == "repeat" else 16], "op": op, "pick": [127, 256]},
                      budget=150, tier="thorough")

# recorded finding: distances at the edge of the decimal rounding (only the replay in floating point shows it)
REGISTRY["C07"].add("build", "b_scale", {"geo": "dimer", "size": [4], "at": 3.98005})

for n, L, rm in (("dimer", [3], 4), ("trimer", [3], 5), ("lieb", [2, 2], 5)):
    REGISTRY["C25"].add("config", "y_queries", {"geo": n, "L": L, "rm": rm})

p = REGISTRY["C26"] = Prop(
    {"wave vectors": "[-4, 4] real, 1-3 dimensions", "geometries": "see jobs", "angles": "cos and sin of an angle are any point of the unit circle (cos even, sin odd)"},
    "other geometries; lattice constants other than 1 and 5/4", [REAL])
for n in ("chain", "chain2", "dimer", "ssh", "trimer", "dimermix", "square", "square2", "rect", "squareAB", "squareABmix", "lieb",
          "hex", "graphene", "graphene2", "oblique", "sc", "nacl", "fcc", "bcc"):
    p.add("lattice", "n_fourier", {"geo": n})
for n in ("chain2", "square2", "graphene", "sc"):
    for f in ("list", "unit"):
        p.add("lattice", "n_fourier", {"geo": n, "form": f})

for n, L1, L2, om in (("chain2", [3], [2], [5]), ("dimer", [2], [3], [4]), ("trimer", [2], [2], [3]), ("square2", [2, 2], [2, 2], [3, 2]),
                      ("squareABmix", [2, 1], [1, 2], [3, 2]), ("liebmix", [2, 1], [2, 2], [3, 1]), ("sc", [2, 1, 2], [1, 2, 1], [2, 1, 2])):
    REGISTRY["C11"].add("build", "x_connect", {"geo": n, "L1": L1, "L2": L2, "omax": om})
for d, n in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2)):
    for k in ("pairs", "query", "one"):
        REGISTRY["C16"].add("misc", "v_tree", {"dim": d, "n": n, "what": k}, tier="thorough" if (d, n) == (2, 3) else "quick")
for n in ("chain", "square", "rect", "oblique", "hex", "cubic"):
    REGISTRY["C19"].add("misc", "w_grid", {"name": n, "kind": "arange"})
for n, L, ax in (("dimermix", [3], [0]), ("square2", [2, 2], [])):
    REGISTRY["C12"].add("datah", "m_hamiltonian", {"geo": n, "L": L, "axes": ax, "norb": 2})
REGISTRY["C12"].add("datah", "m_hamiltonian", {"geo": "chain", "L": [3], "axes": [], "norb": 3})

for n, sz, L in (("chain2", [2.5], [3]), ("oblique", [1.5, 2.5], [2, 3]), ("hex", [2.5, 1.5], [3, 2]), ("graphene", [1.75, 1.75], [2, 2]),
                 ("square2", [1.5, 1.5], [2, 2]), ("rect1", [1.5, 2.5], [2, 3]), ("kagome", [1.75, 1.75], [2, 2])):
    for op in ("append", "repeat", "extend"):
        for k, side in ((0, 1), (1, -1)):
            k = min(k, len(L) - 1)
            REGISTRY["C11"].add("build", "x_prim", {"geo": n, "size": sz, "L": L, "ax": k, "op": op, "side": side,
                                                     "n": 2 if op == "repeat" else 1 if k else 3, "sort": k if n == "oblique" else None})
for n, L1, L2, ax, rm in (("chain2", [5], [5], 0, [[1, 2, 3], [1, 2, 3]]), ("dimer", [4], [3], 0, [[2, 3, 4], [2, 3]]),
                          ("square2", [3, 3], [3, 3], 1, [[0, 4, 7], [3, 4, 8]]), ("lieb", [2, 2], [2, 2], 0, [[1, 2, 7], [4, 8]])):
    for side in (1, -1):
        REGISTRY["C11"].add("build", "x_append", {"geo": n, "L1": L1, "L2": L2, "ax": ax, "side": side, "rm": rm, "scale": True})

# arguments and results do not share memory with the objects
for pid, ws in (("C01", ("transform", "itransform", "translate", "itranslate", "basis")), ("C02", ("reciprocal",)), ("C03", ("superindex",)),
                ("C04", ("cell",)), ("C14", ("shapes",)), ("C15", ("interweave", "vrange", "lookup")), ("C16", ("distance", "rotate", "tree")),
                ("C19", ("wsc",))):
    for w in ws:
        REGISTRY[pid].add("alias", "u_pure", {"what": w})
REGISTRY["C18"].add("alias", "u_struct", {"what": "atoms"})
REGISTRY["C05"].add("alias", "u_struct", {"what": "all"})
REGISTRY["C06"].add("alias", "u_struct", {"what": "build"})
for pid, w in (("C06", "build"), ("C08", "periodic"), ("C07", "views"), ("C09", "edit")):
    REGISTRY[pid].add("alias", "u_model", {"what": w})
for d in (1, 2, 3):
    REGISTRY["C20"].add("alias", "u_path", {"dim": d})

# the building blocks of build, called directly
p = REGISTRY["C06"]
for a in ({"geo": "chain", "smax": 3, "pmax": 2}, {"geo": "outcell", "smax": 2, "pmax": 1}, {"geo": "square", "smax": 2},
          {"geo": "square", "smax": 1, "pmax": 1}, {"geo": "oblique", "smax": 2}, {"geo": "obliqueneg", "smax": 2, "atoms": False},
          {"geo": "lieb", "smax": 3}, {"geo": "hex", "smax": 2}, {"geo": "chain", "smax": 3, "kind": "circle"},
          {"geo": "square", "smax": 2, "kind": "circle"}, {"geo": "oblique", "smax": 2, "kind": "circle", "atoms": False},
          {"geo": "hex", "smax": 1.6, "kind": "circle"}):
    p.add("build", "b_nvecs", a)
for n in ("chain", "square", "hex", "sc"):
    for k in ("box", "shape"):
        for t in (False, True):
            p.add("build", "b_points", {"geo": n, "kind": k, "tol": t, "num": 1 if n == "sc" else 2})
for n, L in (("dimer", [3]), ("square2", [3, 2]), ("squareABmix", [2, 2]), ("sc", [2, 2, 2])):
    p.add("build", "b_indices", {"geo": n, "L": L})

# small tori: several images of a site are in range, the nearest one counts
for n, L in (("square4", [3, 3]), ("square4", [3, 4]), ("square3", [3, 3]), ("liebmix", [2, 2]), ("squareABmix", [2, 2])):
    REGISTRY["C08"].add("build", "p_torus", {"geo": n, "L": L, "axes": [0, 1], "views": False})

# copies of the tables alone; lattices of a single site
for n, L in (("dimermix", [4]), ("square2", [3, 2])):
    for ops in (["periodic", "remove"], ["sort", "append"], ["sortnb", "arrays"]):
        REGISTRY["C23"].add("config", "z_copy", {"geo": n, "L": L, "how": "data", "ops": ops})
    REGISTRY["C23"].add("config", "z_copy", {"geo": n, "L": L, "how": "copy", "ops": ["arrays"]})
for n, L1, L2, om in (("chain2", [3], [1], [5]), ("chain2", [1], [3], [3]), ("chain", [1], [1], [2]), ("square2", [2, 2], [1, 1], [3, 2]),
                      ("square", [1, 1], [2, 1], [2, 1]), ("dimermix", [2], [1], [3]), ("sc", [1, 1, 1], [1, 1, 1], [2, 1, 1])):
    REGISTRY["C11"].add("build", "x_connect", {"geo": n, "L1": L1, "L2": L2, "omax": om})
for side in (1, -1):
    for n, L1, L2, ax in (("chain2", [3], [1], 0), ("chain2", [1], [3], 0), ("chain", [1], [1], 0), ("square2", [1, 1], [1, 1], 1),
                          ("square", [2, 1], [1, 1], 0), ("dimermix", [1], [1], 0)):
        REGISTRY["C11"].add("build", "x_append", {"geo": n, "L1": L1, "L2": L2, "ax": ax, "side": side})
    REGISTRY["C11"].add("build", "x_repeat", {"geo": "chain2", "L": [1], "ax": 0, "num": 2, "side": side})
    REGISTRY["C11"].add("build", "x_extend", {"geo": "chain2", "L": [1], "n": 1, "ax": 0, "side": side})

# left-handed and negative bases, many atoms, many distances, four dimensions
for n, sz in (("negchain", [4]), ("negdimer", [3]), ("swap", [2, 3]), ("negsquare", [3, 2]), ("mirror", [2, 2]), ("negskew", [3, 2]), ("negskew3", [1, 1, 2]), ("chain5", [7]),
              ("quad", [3]), ("penta", [5, 3]), ("triclinic", [2, 2, 2]), ("hyper4", [1, 1, 1, 1])):
    REGISTRY["C07"].add("build", "b_scale", {"geo": n, "size": sz})
for n in ("negchain", "negdimer", "quad"):
    REGISTRY["C06"].add("build", "b_box", {"geo": n, "smax": 3, "pmax": 1.5, "pos": True, "nbr": n != "quad"})
for n in ("swap", "negsquare", "mirror", "negskew"):
    REGISTRY["C06"].add("build", "b_box", {"geo": n, "smax": 1.75, "pmax": 0, "pos": False})
    for b in ([-5.25, 3.375], [2.375, -7.25]):
        REGISTRY["C06"].add("build", "b_far", {"geo": n, "base": b, "size": [1.0, 1.0], "dp": 0})
    REGISTRY["C06"].add("build", "b_shape", {"geo": n, "kind": "circle", "centre": [0.3, -0.2], "rmax": 1.5})
    REGISTRY["C06"].add("build", "b_shapeobj", {"geo": n, "prim": True, "nsym": 1})
for n in ("negchain", "negdimer", "swap", "negsquare"):
    REGISTRY["C06"].add("build", "b_primitive", {"geo": n, "lmax": 2, "a": 1.0})
REGISTRY["C06"].add("build", "b_primitive", {"geo": "mirror", "lmax": 2, "a": 1.0, "nsym": 1})
REGISTRY["C06"].add("build", "b_far", {"geo": "triclinic", "base": [-2.25, 1.125, 1.375], "size": [0.5, 0.5, 2.0], "ds": 0.5, "dp": 0})
for n, sz, t in (("swap", [2.5, 3.5], [[0, 3], [4, 0]]), ("negsquare", [3.5, 2.5], [[-4, 0], [0, -3]])):
    for axes in ([0], [1], [0, 1]):
        REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": axes})
    REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": [0, 1], "a": "sym"})
    REGISTRY["C21"].add("build", "p_mindist_general", {"geo": n, "size": sz, "torus": t, "axes": [0, 1]})
    for side in (1, -1):
        for ax in (0, 1):
            REGISTRY["C11"].add("build", "x_general", {"geo": n, "size": sz, "nvec": t[ax], "ax": ax, "side": side})
for n, sz, t in (("swap", [2.5, 3.5], [[3, 0], [0, 4]]), ("negsquare", [2.5, 3.5], [[3, 0], [0, 4]])):
    for axes in ([0], [0, 1]):
        REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": axes, "primitive": True})

REGISTRY["C04"].add("basis", "g_default")
REGISTRY["C22"].add("config", "f_default")
for d in (1, 2, 3):
    REGISTRY["C18"].add("config", "b_refuse", {"dim": d})
for n, a in (("chain", 1.0), ("chain", 3.0), ("dimer", 0.5), ("square", 1.0), ("square", 0.25), ("rect1", 1.0), ("squareAB", 2.0)):
    for what in ("nvecs", "indices", "points"):
        REGISTRY["C06"].add("build", "b_primdirect", {"geo": n, "what": what, "a": a})

# systems whose sites have been brought into another order before
for n, L, ax in (("dimer", [4], [0]), ("square2", [3, 4], [0]), ("square", [3, 4], [1]), ("rect1", [4, 3], [0, 1])):
    REGISTRY["C08"].add("build", "p_torus", {"geo": n, "L": L, "axes": ax, "mix": True, "views": n == "dimer"})
    REGISTRY["C21"].add("build", "p_mindist", {"geo": n, "L": L, "axes": ax, "mix": True})
REGISTRY["C08"].add("build", "p_torus", {"geo": "sc", "L": [3, 2, 4], "axes": [0, 2], "mix": True, "views": False}, tier="thorough")
for n, L1, L2, ax in (("dimer", [2], [3], 0), ("square2", [2, 3], [3, 3], 0), ("square", [3, 2], [3, 1], 1)):
    for side in (1, -1):
        REGISTRY["C11"].add("build", "x_append", {"geo": n, "L1": L1, "L2": L2, "ax": ax, "side": side, "mix": True, "scale": True})
        REGISTRY["C11"].add("build", "x_repeat", {"geo": n, "L": L1, "num": 2, "ax": ax, "side": side, "mix": True, "scale": True})
        REGISTRY["C11"].add("build", "x_extend", {"geo": n, "L": L1, "n": 2, "ax": ax, "side": side, "mix": True})

# systems away from the origin
for n, L, ax, off in (("chain2", [4], [0], [5]), ("dimer", [3], [0], [-3]), ("square2", [3, 4], [0, 1], [2, -3]), ("rect1", [4, 3], [0, 1], [-5, 3])):
    REGISTRY["C08"].add("build", "p_torus", {"geo": n, "L": L, "axes": ax, "off": off, "how": "build", "form": "tuple"})
    REGISTRY["C21"].add("build", "p_mindist", {"geo": n, "L": L, "axes": ax, "off": off})
    REGISTRY["C21"].add("build", "p_transvec", {"geo": n, "L": L, "axes": ax, "off": off})
    REGISTRY["C21"].add("build", "p_transvec", {"geo": n, "L": L, "axes": ax, "off": off, "primitive": True})
for n, sz, t in (("oblique", [3.5, 3.5], [[4, 0], [0, 4]]), ("hex", [2.5, 3.5], [[3, 0], [0, 4]]), ("square2", [2.5, 3.5], [[3, 0], [0, 4]])):
    REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": [0, 1], "primitive": True, "off": [2, -3]})
    REGISTRY["C08"].add("build", "p_general", {"geo": n, "size": sz, "torus": t, "axes": [1], "primitive": True, "off": [-1, 4]})
for n, sz, L, off in (("chain2", [2.5], [3], [4]), ("oblique", [1.5, 2.5], [2, 3], [-3, 2]), ("square2", [1.5, 1.5], [2, 2], [3, -2])):
    for op in ("append", "repeat", "extend"):
        for k, side in ((0, 1), (1, -1)):
            k = min(k, len(L) - 1)
            REGISTRY["C11"].add("build", "x_prim", {"geo": n, "size": sz, "L": L, "ax": k, "op": op, "side": side, "n": 2, "off": off})
for n, L1, L2, ax, o1, o2 in (("chain2", [4], [3], 0, [3], [-2]), ("dimer", [2], [3], 0, [-2], [0]), ("square2", [2, 3], [3, 3], 0, [2, 1], [0, 1]),
                              ("square", [3, 2], [3, 1], 1, [2, -3], [2, 1])):
    for side in (1, -1):
        REGISTRY["C11"].add("build", "x_append", {"geo": n, "L1": L1, "L2": L2, "ax": ax, "side": side, "off1": o1, "off2": o2, "scale": True})
# several steps
for n, L, L2, ax, off in (("chain2", [3], [2], 0, None), ("dimer", [2], [2], 0, [3]), ("square2", [2, 3], [1, 3], 0, None), ("rect1", [2, 2], [2, 1], 1, None)):
    for ops in (["append", "append"], ["extend", "append"], ["append", "repeat"], ["append", "extend"]):
        REGISTRY["C11"].add("build", "x_history", {"geo": n, "L": L, "L2": L2, "ax": ax, "ops": ops, "off": off})
    REGISTRY["C11"].add("build", "x_history", {"geo": n, "L": L, "L2": L2, "ax": ax, "ops": ["append", "append", "append"], "off": off}, tier="thorough")
for n, L, L2, ax in (("chain2", [3], [2], 0), ("oblique", [2, 2], [2, 2], 0), ("hex", [2, 2], [2, 2], 1)):
    for ops in (["append", "append"], ["append", "repeat"], ["extend", "append"]):
        REGISTRY["C11"].add("build", "x_history", {"geo": n, "L": L, "L2": L2, "ax": ax, "ops": ops, "prim": True, "sort": ax})
for a in (60.0, 90.0, 75.0):
    REGISTRY["C16"].add("misc", "v_vectors", {"dim": 2, "ang": [a], "dec": 2})
REGISTRY["C16"].add("misc", "v_vectors", {"dim": 3, "ang": [90.0, 90.0, 60.0], "dec": 1})

REGISTRY["C12"].add("datah", "m_atoms")
for n in (253, 254, 255, 256):
    REGISTRY["C10"].add("datah", "d_many", {"n": n})
for f in ("list", "array"):
    REGISTRY["C09"].add("datah", "d_remove", {"N": 3, "cols": 2, "D": 1, "num": 0, "form": f})
for n, L, ax in (("chain", [4], []), ("dimer", [3], [0]), ("square2", [3, 3], [0, 1]), ("squareAB", [3, 4], [1])):
    REGISTRY["C12"].add("datah", "h_refuse", {"geo": n, "L": L, "axes": ax})

# lengths at the edge of the rounding of distances, with rounding errors of the computed distances
for lo, hi in ((13000000, 13000040), (16000000, 16000050), (64000000, 64000100)):
    REGISTRY["C07"].add("build", "b_tie", {"geo": "chain", "L": [8], "lo": lo, "hi": hi})
REGISTRY["C07"].add("build", "b_tie", {"geo": "chain", "L": [5], "lo": 10000000, "hi": 20000000})
REGISTRY["C07"].add("build", "b_tie", {"geo": "dimer", "L": [3], "lo": 10000000, "hi": 20000000})
for lo, hi in ((49000000, 49000100), (64000000, 64000100)):
    REGISTRY["C11"].add("build", "b_tie", {"geo": "chain", "L": [8], "lo": lo, "hi": hi, "op": "append"})
    REGISTRY["C08"].add("build", "b_tie", {"geo": "chain", "L": [8], "lo": lo, "hi": hi, "op": "periodic"})

# large systems and shapes, three dimensions
for s in ([100000], [40000, 60000], [3000, 2000, 1000], [300, 300]):
    REGISTRY["C03"].add("basis", "s_big", {"shape": s})
for op in ("scale", "periodic", "remove", "sort"):
    REGISTRY["C12"].add("build", "b_large", {"geo": "chain2", "L": [300], "op": op, "pick": [127, 256]}, budget=150)
for n in (255, 256, 257):
    REGISTRY["C07"].add("build", "b_large", {"geo": "chain2", "L": [n], "op": "scale"}, budget=150)
    REGISTRY["C12"].add("build", "b_large", {"geo": "chain", "L": [n], "op": "scale"}, budget=150)
for n in (127, 128, 255, 256, 257, 258):
    REGISTRY["C15"].add("misc", "u_lookup_big", {"n": n})
for a in ({"N": 3, "cols": 2, "D": 2}, {"N": 3, "cols": 2, "D": 3}):
    for d in (1, 3):
        REGISTRY["C10"].add("datah", "d_sortnb", {**a, "periodic": True, "dim": d})
        REGISTRY["C10"].add("datah", "d_rmper", {**a, "dim": d})
        REGISTRY["C10"].add("datah", "d_sort", {**a, "kind": "perm", "periodic": True, "dim": d})
        REGISTRY["C09"].add("datah", "d_remove", {**a, "num": 1, "form": "list", "periodic": True, "dim": d})
REGISTRY["C09"].add("datah", "d_remove", {"N": 4, "cols": 3, "D": 4, "num": 2, "form": "subset"})
REGISTRY["C09"].add("datah", "d_remove", {"N": 4, "cols": 2, "D": 3, "num": 2, "form": "subset", "periodic": True})
REGISTRY["C08"].add("build", "p_torus", {"geo": "sc3", "L": [3, 3, 3], "axes": [0, 1, 2], "scale": False, "views": False}, budget=300)

# unusual arguments
for deg in (-60, 200, 300):
    REGISTRY["C04"].add("basis", "g_oblique", {"deg": deg})
for d, fr in ((3, [1, 0]), (3, [0, 2]), (4, [1, 0]), (4, [0, 3]), (4, [3, 1]), (5, [4, 2])):
    REGISTRY["C04"].add("basis", "g_volume", {"dim": d, "free": fr})
for d, n in ((1, 3), (2, 2), (2, 3)):
    REGISTRY["C16"].add("misc", "v_tree", {"dim": d, "n": n, "what": "points"})
for n, k in ((80, 1000), (300, 50)):
    REGISTRY["C20"].add("misc", "k_long", {"num": n, "n": k})
for pr in (True, False):
    REGISTRY["C22"].add("config", "f_hyper", {"dim": 2, "prim": pr, "per": [0], "how": "int"})
    REGISTRY["C22"].add("config", "f_hyper", {"dim": 2, "prim": pr, "per": [1], "how": "int"})
    REGISTRY["C22"].add("config", "f_hyper", {"dim": 2, "prim": pr, "per": [0, 1], "how": "true"})
    REGISTRY["C22"].add("config", "f_hyper", {"dim": 2, "prim": pr, "how": "false"})
    REGISTRY["C22"].add("config", "f_hyper", {"dim": 1, "prim": pr, "per": [0], "how": "int"})
for n, L, off in (("chain2", [4], [-2]), ("dimer", [3], [-2]), ("square2", [3, 2], [-2, -1]), ("squareABmix", [3, 2], [1, -3]), ("sc", [2, 2, 2], [-1, -1, -1])):
    REGISTRY["C25"].add("config", "y_queries", {"geo": n, "L": L, "off": off})
for n, L, off in (("dimer", [3], [-2]), ("square", [2, 2], [-2, 0]), ("squareAB", [2, 1], [-1, -1])):
    REGISTRY["C25"].add("config", "y_frompos", {"geo": n, "L": L, "off": off})
for L in ([3, 3, 3], [3, 4, 3]):
    REGISTRY["C21"].add("build", "p_mindist", {"geo": "sc", "L": L, "axes": [0, 1, 2]})

# integers of NumPy
for pid, ws in (("C18", ("cons", "atom")), ("C22", ("hyper",)), ("C08", ("translation", "build", "bool", "set")), ("C12", ("edit",))):
    for w in ws:
        REGISTRY[pid].add("config", "q_npscalar", {"what": w})
for k in (126, 127, 128, 200, 256):
    REGISTRY["C12"].add("build", "b_manydist", {"num": k})

# four axes, cells far away from the origin
for s in ([9, 7, 5, 3], [1, 4, 1, 6], [200, 100, 300, 150], [2, 3, 2, 3, 2]):
    REGISTRY["C03"].add("basis", "s_big", {"shape": s})
for n in ("chain", "graphene", "squareAB", "outcell2d"):
    REGISTRY["C05"].add("lattice", "n_positions", {"geo": n, "top": 100000})
for off in ([150], [-150], [40000], [-40000]):
    REGISTRY["C06"].add("build", "b_distant", {"geo": "ssh", "off": off, "smax": 3})
for n, off in (("square", [40000, -200]), ("graphene", [200, 300]), ("oblique", [-40000, 33000])):
    REGISTRY["C06"].add("build", "b_distant", {"geo": n, "off": off, "smax": 2})
# lattices with more cells along the axis
for n, L1, L2, ax in (("square", [1, 7], [1, 6], 1), ("square", [9, 1], [5, 1], 0), ("chain", [20], [15], 0), ("dimer", [9], [12], 0),
                      ("sc", [1, 1, 6], [1, 1, 5], 2), ("sc", [1, 6, 1], [1, 5, 1], 1)):
    for side in (1, -1):
        REGISTRY["C11"].add("build", "x_append", {"geo": n, "L1": L1, "L2": L2, "ax": ax, "side": side})
        REGISTRY["C11"].add("build", "x_extend", {"geo": n, "L": L1, "n": 6, "ax": ax, "side": side})
for side in (1, -1):
    REGISTRY["C11"].add("build", "x_repeat", {"geo": "chain2", "L": [3], "ax": 0, "num": 8, "side": side})
    REGISTRY["C11"].add("build", "x_repeat", {"geo": "square", "L": [1, 2], "ax": 1, "num": 5, "side": side})
for d, b in ((1, False), (1, True), (2, False), (2, True), (3, False)):
    for e in (0.0625, 0.001):
        REGISTRY["C23"].add("config", "z_unequal", {"dim": d, "eps": e, "built": b})
for cl in ("Lattice", "LatticeStructure"):
    for d in (1, 2):
        REGISTRY["C23"].add("config", "z_empty", {"cls": cl, "dim": d})
for h in ("pair", "all"):
    REGISTRY["C18"].add("config", "q_conndefault", {"how": h})
for k, n in ((2, 3), (3, 3), (4, 2)):
    for d in (False, True):
        REGISTRY["C20"].add("misc", "k_plot", {"num": k, "n": n, "dos": d})
for per in (False, True):
    REGISTRY["C12"].add("datah", "h_edit", {"L": 5, "steps": 2, "per": per})
    REGISTRY["C12"].add("datah", "h_edit", {"L": 5, "steps": 3, "per": per}, tier="thorough")
for axes, form in (([0, 2], "list"), ([2, 0], "tuple"), ([1, 2], "list"), ([2, 1, 0], "list")):
    REGISTRY["C08"].add("build", "p_torus", {"geo": "sc", "L": [3, 3, 4], "axes": axes, "form": form, "scale": False, "views": False})
    REGISTRY["C21"].add("build", "p_mindist", {"geo": "sc", "L": [3, 2, 3], "axes": axes})
