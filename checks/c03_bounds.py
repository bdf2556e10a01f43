"""C03: range, finiteness, shape, purity, batch independence, repeatability for every class."""
import itertools
import numpy as np
import torch
from mc import family as F, models as M
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C03"
RULE = ("states = (class, configuration, dt, precision, grid); transition = one real step, checked for range, finiteness, "
        "shape/dtype, unmodified input, repeatability and per-batch-item agreement with the singleton step")
ASSUMPTIONS = ["adaptive stepping picks one step size per batch, so batch independence is not judged for it",
               "neural automata are judged in evaluation mode for repeatability (training mode has dropout)"]

EXTREME = {
    "poly_big": {"name": "Polynomial", "coefficients": [900.0, -500.0, 30.0]},
    "poly_neg": {"name": "Polynomial", "coefficients": [-1000.0]},
    "narrow": {"name": "Gaussian", "mu": 0.15, "sigma": 1e-4, "mode": 1},
    "wide": {"name": "Gaussian", "mu": 0.5, "sigma": 50.0, "mode": 0},
    "mix": {"name": "GaussianMixture", "parameters": [9.0, 0.3, 0.2, 4.0, 0.6, 0.2], "mode": 1},
    "sharp": {"name": "SmoothIntervals", "parameters": [[0.1, 0.9]], "alpha": 1e-3, "mode": 1},
    "dog": {"name": "DoGaussian", "mu": 0.1, "sigma": 0.05, "mode": 1},
    "tanh": {"name": "Tanh"},
    "gaus1": {"name": "Gaussian", "mu": 0.35, "sigma": 0.07, "mode": 1},
}
DTS = (0.0, 0.1, 1.0, 10.0, -0.5, 1e4)


def units(tier, seed):
    us = [{"kind": "cca", "cls": c, "gen": g} for c in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA") for g in EXTREME]
    us += [{"kind": "nca", "act": a} for a in ("Gaussian", "Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity")]
    us += [{"kind": "rxn"}, {"kind": "neuromode"}]
    us += [{"kind": "batch", "ext": e} for e in (1, 2, 3, 4, 5)]
    if tier == "thorough":
        us += [{"kind": "cca", "cls": c, "gen": g, "kern": k} for c in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA")
               for g in EXTREME for k in F.KERNELS]
    return us


def ex(name):
    c = dict(EXTREME[name])
    for k in ("parameters", "coefficients"):
        if k in c:
            c[k] = F.tens(c[k])
    return c


def check_step(ctx, mk, t, what, repeat=True, steps=3):
    ca = mk()
    for s in range(steps):
        pre = t.clone()
        M.reseed(7)
        with ctx.guard("bounds", what):
            out = ca(t)
        ctx.transitions += 1
        ctx.expect(torch.equal(pre, t), "bounds:input-modified", "%s: the caller's grid was modified by a step" % what)
        ctx.expect(tuple(out.shape) == tuple(t.shape) and out.dtype == t.dtype, "bounds:shape",
                   lambda: "%s: %s %s -> %s %s" % (what, tuple(t.shape), t.dtype, tuple(out.shape), out.dtype))
        o = N(out)
        ctx.expect(np.isfinite(o).all() and o.min() >= 0.0 and o.max() <= 1.0, "bounds:range",
                   lambda: "%s: values leave [0,1]: min %s max %s" % (what, o.min(), o.max()))
        ctx.expect(not out.requires_grad, "bounds:grad", "%s: step result tracks gradients after they were disabled" % what)
        if repeat and s == 0:
            ca2 = mk()
            M.reseed(7)
            with ctx.guard("bounds", what):
                again = ca2(pre)
            ctx.expect(maxdiff(N(again), o) <= 1e-6, "bounds:repeat", "%s: repeating the step from the same state differs" % what)
        ctx.visit((what, s, o.round(3).tobytes()))
        t = out.detach()
    ctx.traces += 1


def run_unit(u, ctx):
    k = u["kind"]
    if k == "cca":
        for ext, dt, per in itertools.product((1, 4), DTS, ("gaus1", "poly_big", "sharp")):
            if u["cls"] == "CODE" and dt != 0.1:
                continue
            cfg = {"neighborhood_kernel_config": F.kernel_cfg(u.get("kern", "gmix4_3")), "genesis_config": ex(u["gen"]),
                   "persistence_config": ex(per), "dt": dt}
            mk = lambda: F.build(u["cls"], cfg, external_channels=ext)
            for gk, g in grid_family((2, ext, 7, 9), ("zeros", "ones", "irr", "checker")).items():
                try:
                    check_step(ctx, mk, T(g), "%s %s/%s ext=%d dt=%s %s" % (u["cls"], u["gen"], per, ext, dt, gk))
                except Skip:
                    pass
            if u["cls"] == "CCA":
                try:
                    check_step(ctx, mk, T(g).to(torch.float16), "half %s/%s ext=%d dt=%s" % (u["gen"], per, ext, dt))
                except Skip:
                    pass
        torch.set_default_dtype(torch.float64)
        try:
            cfg = {"neighborhood_kernel_config": F.kernel_cfg("gauss3"), "genesis_config": ex(u["gen"]),
                   "persistence_config": ex("gaus1"), "dt": 0.3}
            check_step(ctx, lambda: F.build(u["cls"], cfg), T(grid_family((2, 1, 7, 9), ("irr",))["irr"]).to(torch.float64),
                       "double %s %s" % (u["cls"], u["gen"]))
        except Skip:
            pass
        finally:
            torch.set_default_dtype(torch.float32)
    elif k == "nca":
        for (e, n), dt, scale in itertools.product(((1, 1), (2, 2), (3, 3), (4, 4), (1, 2)), (0.1, 10.0), (1.0, 40.0)):
            def mk():
                ca = M.nca(external_channels=e, internal_channels=n, hidden_channels=5, kernel_radius=2, activation=u["act"])
                p = ca.get_params()
                m = len(p) - len(ca.kernel_params)
                p = np.array(p)
                p[:m] = scale * np.sin(np.arange(m) * 1.7)
                ca.set_params(p)
                ca.set_dt(dt)
                ca.eval()
                return ca
            for gk, g in grid_family((2, e, 6, 7), ("irr", "ones", "dot")).items():
                try:
                    check_step(ctx, mk, T(g), "NCA %s %d/%d dt=%s x%s %s" % (u["act"], e, n, dt, scale, gk))
                except Skip:
                    pass
    elif k == "rxn":
        for dt, dx, du in itertools.product((0.5, 5.0, 1e3), (1 / 330., 1e-3, 1.0), (2e-5, 1e-2, 1.0)):
            for gk, g in grid_family((2, 2, 7, 8)).items():
                try:
                    check_step(ctx, lambda: M.rxn(dt=dt, dx=dx, du=du), T(g), "RxnDfn dt=%s dx=%s du=%s %s" % (dt, dx, du, gk))
                except Skip:
                    pass
    elif k == "neuromode":
        from yuca.ca.continuous import CCA
        for e, n, mode in itertools.product((1, 4), (1, 4), ("neurofunctional", "functional")):
            def mk():
                M.reseed(11)
                ca = CCA(external_channels=e, internal_channels=n, ca_mode=mode, kernel_radius=2)
                ca.no_grad()
                return ca
            for gk, g in grid_family((2, e, 6, 7), ("irr", "ones")).items():
                try:
                    check_step(ctx, mk, T(g), "CCA default %s %d/%d %s" % (mode, e, n, gk))
                except Skip:
                    pass
    elif k == "batch":
        e = u["ext"]
        grids = np.concatenate(list(grid_family((1, e, 6, 8)).values()))
        for name, mk in M.every(e).items():
            if name == "CODE":
                continue
            try:
                for perm in (list(range(len(grids))), list(range(len(grids)))[::-1]):
                    M.reseed(9)
                    ca = mk()
                    with ctx.guard("batch", name):
                        t = T(grids[perm])
                        M.reseed(10)
                        for _ in range(2):
                            t = ca(t)
                    whole = N(t)
                    for j, i in enumerate(perm):
                        M.reseed(9)
                        one = mk()
                        with ctx.guard("batch", name):
                            s = T(grids[i:i + 1])
                            M.reseed(10)
                            for _ in range(2):
                                s = one(s)
                        ctx.transitions += 1
                        ctx.visit((name, j, i))
                        ctx.expect(maxdiff(N(s)[0], whole[j]) <= 2e-5, "batch",
                                   lambda: "%s on %d channels: grid %d evolves differently in a batch (by %g)" % (
                                       name, e, i, maxdiff(N(s)[0], whole[j])))
                ctx.traces += 1
            except Skip:
                pass
    ctx.sample({"unit": u, "states": ctx.states})
