"""C04: equivariance under the full translation group and the dihedral group of the torus."""
import itertools
import numpy as np
from mc import family as F, models as M
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C04"
RULE = ("states = (class, kernel, grid, group element); transition = step of the transformed grid compared with the "
        "transformed step; all H*W translations and all 8 symmetries are enumerated, two chained steps")
ASSUMPTIONS = ["tolerance 5e-5 (convolution summation order)"]
TOL = 5e-5
SYM = {"id": lambda a: a, "r90": lambda a: np.rot90(a, 1, (2, 3)), "r180": lambda a: np.rot90(a, 2, (2, 3)),
       "r270": lambda a: np.rot90(a, 3, (2, 3)), "fv": lambda a: a[:, :, ::-1], "fh": lambda a: a[:, :, :, ::-1],
       "tr": lambda a: a.transpose(0, 1, 3, 2), "atr": lambda a: np.rot90(a.transpose(0, 1, 3, 2), 2, (2, 3))}
SMOOTH = ("gm4", "gaus0", "poly", "si2")


def units(tier, seed):
    us = []
    for k in F.KERNELS:
        us.append({"kernel": k, "ext": 1, "shape": [7, 9]})
    for e in (2, 3, 4):
        us.append({"kernel": "gauss3", "ext": e, "shape": [8, 7]})
    us.append({"kernel": "gauss3", "ext": 1, "shape": [9, 9], "idk": "smooth"})
    us.append({"kernel": "smooth4", "ext": 1, "shape": [10, 9], "idk": "smooth"})
    if tier == "thorough":
        for k in F.KERNELS:
            for e in (1, 2, 4):
                us.append({"kernel": k, "ext": e, "shape": [9, 12], "idk": "none"})
                us.append({"kernel": k, "ext": e, "shape": [12, 12], "idk": "moore"})
    return us


def run2(mk, a):
    M.reseed(4)
    ca = mk()
    t = T(a)
    M.reseed(5)
    out = []
    for _ in range(2):
        t = ca(t)
        out.append(N(t))
    return out


def run_unit(u, ctx):
    h, w = u["shape"]
    cfg = F.config(u["kernel"], u.get("idk", "none"), "gm4", "gaus0", dt=0.25)
    cfg["genesis_config"]["parameters"] = F.tens([0.3, 0.2, 0.7, 0.15])
    for name, mk in M.every(u["ext"], cfg).items():
        if name in ("NCA", "RxnDfn") and u["kernel"] != "gauss3":
            continue
        for gk, g in grid_family((1, u["ext"], h, w), ("irr2", "dot")).items():
            try:
                with ctx.guard("symmetry", [name, gk]):
                    base = run2(mk, g)
                shifts = [(a, b) for a in range(h) for b in range(w)] if gk == "irr2" else [(0, w - 1), (h - 1, 0), (h - 1, w - 1), (1, 2)]
                for (a, b) in shifts:
                    if (a, b) == (0, 0):
                        continue
                    with ctx.guard("symmetry", [name, gk]):
                        r = run2(mk, np.roll(g, (a, b), (2, 3)))
                    d = max(maxdiff(x, np.roll(y, (a, b), (2, 3))) for x, y in zip(r, base))
                    ctx.transitions += 1
                    ctx.visit((name, gk, a, b))
                    ctx.expect(d <= TOL, "translation", "%s kernel %s: translating %s by %s changes the dynamics by %g" % (
                        name, u["kernel"], gk, (a, b), d))
                for sn, f in SYM.items():
                    with ctx.guard("symmetry", [name, gk, sn]):
                        r = run2(mk, np.ascontiguousarray(f(g)))
                    d = max(maxdiff(x, f(y)) for x, y in zip(r, base))
                    ctx.transitions += 1
                    ctx.visit((name, gk, sn))
                    ctx.expect(d <= TOL, "symmetry", "%s kernel %s: symmetry %s of %s changes the dynamics by %g" % (
                        name, u["kernel"], sn, gk, d))
                ctx.traces += 1
            except Skip:
                pass
    ctx.sample({"unit": u, "states": ctx.states})
