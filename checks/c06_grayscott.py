"""C06: explicit Euler Gray-Scott step for all parameters, however set; initial grid is an equilibrium."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, models as M
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C06"
RULE = ("states = (parameter assignment reached by a setter history, grid); all histories of setters up to the depth bound over a "
        "13-letter alphabet (numbers, tensors of both shapes, vectors, whose later changes by the caller must not matter) plus the full product of parameter values; transition = one real step against the float64 equations")
ASSUMPTIONS = ["tolerance 3e-4 relative to the size of dt*D/dx^2 (float32)"]

BASE = {"du": 2e-5, "dv": 1e-5, "f": 0.062, "k": 0.0609, "dt": 0.5, "dx": 1 / 330., "radius": 1}
OPS = [("dt", 1.0), ("dt", 0.1), ("dx", 0.01), ("dx", 0.004), ("du", 1e-5), ("du", 4e-5), ("dv", 3e-5), ("dv", 0.5e-5),
       ("vec", (1.5e-5, 0.8e-5, 0.03, 0.055)), ("vec", (0.0, 2e-5, 0.1, 0.01)), ("load", None), ("step", None), ("reset", None)]
FK = [(0.062, 0.0609), (0.03, 0.055), (0.04, 0.06), (0.025, 0.05), (0.01, 0.03), (0.05, 0.06), (0.0, 0.05), (0.02, 0.0)]


def lap(radius, sigma=0.5):
    return ref.kernel({"name": "LaplacianOfGaussian", "radius": radius, "kernel_kwargs": {"sigma": sigma}})


def units(tier, seed):
    d = 3 if tier == "quick" else 4
    us = [{"kind": "hist", "first": i, "depth": d} for i in range(len(OPS))]
    us += [{"kind": "prod", "fk": list(fk)} for fk in FK]
    us += [{"kind": "eq"}, {"kind": "lap"}]
    return us


def tol(p):
    return 3e-4 + 2e-6 * p["dt"] * max(p["du"], p["dv"]) / p["dx"] ** 2


def compare(ctx, ca, p, gr, what, key):
    t = T(gr)
    pre = t.clone()
    with ctx.guard(key, what):
        out = N(ca(t))
    exp = ref.gray_scott(N(pre), p["f"], p["k"], p["du"], p["dv"], p["dx"], p["dt"], lap(p["radius"], p.get("sigma", 0.5)))
    ctx.transitions += 1
    ctx.visit((what, out.round(4).tobytes()))
    d = maxdiff(out, exp)
    ctx.expect(d <= tol(p), key, "%s: step differs from the Gray-Scott equations by %g (parameters %s)" % (what, d, p))
    return T(out)


SETTERS = {"dt": "set_dt", "dx": "set_dx", "du": "set_diffusion_u", "dv": "set_diffusion_v"}


def apply(ca, p, op):
    k, v = op
    p = dict(p)
    if k in SETTERS:
        arg = {1.0: lambda: torch.tensor([v]), 0.01: lambda: torch.tensor(v), 1e-5: lambda: torch.tensor([v]), 3e-5: lambda: torch.tensor(v)}.get(v, lambda: v)()
        getattr(ca, SETTERS[k])(arg)
        if isinstance(arg, torch.Tensor):       # the caller goes on using its tensor
            arg += 0.37
        p[k] = v
    elif k == "vec":
        arg = np.array(v)
        ca.set_params(arg)
        arg += 0.37
        p["du"], p["dv"], p["f"], p["k"] = v
    elif k == "load":
        cfg = {"neighborhood_kernel_config": {"name": "LaplacianOfGaussian", "radius": 2, "kernel_kwargs": {"sigma": 0.5}},
               "params": np.array([1.2e-5, 0.6e-5, 0.04, 0.06]), "dt": 0.7, "dx": 0.005,
               "diffusion_u": 1.2e-5, "diffusion_v": 0.6e-5, "feed_rate": 0.04, "decay_rate": 0.06}
        ca.load_config(cfg)
        p = {"du": 1.2e-5, "dv": 0.6e-5, "f": 0.04, "k": 0.06, "dt": 0.7, "dx": 0.005, "radius": 2}
    elif k == "step":
        with torch.no_grad():
            ca(T(grid_family((1, 2, 5, 5), ("irr",))["irr"]))
    elif k == "reset":
        ca.reset()
    return p


def run_unit(u, ctx):
    if u["kind"] == "hist":
        g = grid_family((1, 2, 6, 7), ("irr", "irr2"))
        for d in range(0, u["depth"]):
            for tail in itertools.product(range(len(OPS)), repeat=d):
                seq = (u["first"],) + tail
                with suppress(Skip):
                    with ctx.guard("history", [OPS[i] for i in seq]):
                        ca = M.rxn()
                        p = dict(BASE)
                        for i in seq:
                            p = apply(ca, p, OPS[i])
                        got = [ca.get_dt(), ca.get_dx(), ca.get_diffusion_u(), ca.get_diffusion_v()] + list(ca.get_params())
                    want = [p["dt"], p["dx"], p["du"], p["dv"], p["du"], p["dv"], p["f"], p["k"]]
                    ctx.expect(np.allclose(got, want, rtol=1e-5, atol=1e-12), "history:read",
                               "after %s reported parameters %s, expected %s" % ([OPS[i] for i in seq], got, want), list(seq))
                    for gk, gr in g.items():
                        compare(ctx, ca, p, gr, "after %s on %s" % ([OPS[i] for i in seq], gk), "history")
                    ctx.traces += 1
    elif u["kind"] == "prod":
        f, k = u["fk"]
        for du, dv, dt, dx in itertools.product((2e-5, 0.0, 1e-4), (1e-5, 3e-5), (0.5, 0.05, 2.0), (1 / 330., 1 / 143., 0.05, 1 / 500.)):
            with suppress(Skip):
                with ctx.guard("product", u):
                    ca = M.rxn(dt=dt, dx=dx)
                    ca.set_params(np.array([du, dv, f, k]))
                p = {"du": du, "dv": dv, "f": f, "k": k, "dt": dt, "dx": dx, "radius": 1}
                for gk, gr in grid_family((2, 2, 5, 8)).items():
                    t = gr
                    x = N(T(gr))
                    nb = ref.conv(x, lap(1), 2)
                    new = ref.gray_scott(x, f, k, du, dv, dx, dt, lap(1))
                    a, b = x[:, 0], x[:, 1]
                    upd = np.stack([du * nb[:, 0] / dx ** 2 - a * b * b + f * (1 - a), dv * nb[:, 1] / dx ** 2 + a * b * b - (f + k) * b], axis=1)
                    M.frames(ctx, ca, T(gr), (new, x, nb, upd), "%s %s" % (p, gk), tol(dict(p, dt=max(1, dt))))
                    for s in range(2):
                        t = N(compare(ctx, ca, p, t, "%s %s step %d" % (p, gk, s), "equations"))
                    ctx.traces += 1
    elif u["kind"] == "eq":
        for (f, k), dim, b, dt in itertools.product(FK, (5, (4, 7), [6, 3]), (1, 3), (0.5, 1.0)):
            if f <= 0 or f / (f + k) ** 2 < 4:      # no such equilibrium
                continue
            with suppress(Skip):
                with ctx.guard("equilibrium", [f, k, dim]):
                    ca = M.rxn(dt=dt)
                    ca.set_params(np.array([2e-5, 1e-5, f, k]))
                    g = ca.initialize_grid(batch_size=b, dim=dim)
                shape = (b, 2, dim, dim) if isinstance(dim, int) else (b, 2, dim[0], dim[1])
                ctx.expect(tuple(g.shape) == shape, "equilibrium:shape", "initial grid has shape %s, wanted %s" % (tuple(g.shape), shape))
                x = N(g)
                ctx.expect(np.ptp(x[:, 0]) == 0 and np.ptp(x[:, 1]) == 0 and np.isfinite(x).all(), "equilibrium:uniform", "initial grid not uniform")
                a, v = x[0, 0, 0, 0], x[0, 1, 0, 0]
                ctx.expect(v > 1e-3, "equilibrium:trivial", "initial grid holds the trivial state")
                ctx.expect(abs(a * v * v - f * (1 - a)) < 1e-5 and abs(a * v - (f + k)) < 1e-4, "equilibrium:equation",
                           "initial (u,v)=(%g,%g) does not solve u v^2 = f(1-u), u v = f+k for f=%g k=%g" % (a, v, f, k))
                with ctx.guard("equilibrium", "step"):
                    t = g
                    for _ in range(5):
                        t = ca(t)
                        ctx.transitions += 1
                ctx.visit((f, k, str(dim), b, dt))
                ctx.traces += 1
                ctx.expect(maxdiff(N(t), x) < 2e-4, "equilibrium:drift", "the initial grid moves by %g in 5 steps" % maxdiff(N(t), x))
    elif u["kind"] == "lap":
        # other Laplacian radii and widths
        for r, s in itertools.product((1, 2, 3, 5), (0.3, 0.5, 1.0)):
            with suppress(Skip):
                with ctx.guard("laplacian", [r, s]):
                    ca = M.rxn()
                    ca.load_config({"neighborhood_kernel_config": {"name": "LaplacianOfGaussian", "radius": r, "kernel_kwargs": {"sigma": s}},
                                    "params": np.array([2e-5, 1e-5, 0.062, 0.0609]), "dt": 0.5, "dx": 1 / 330.})
                    ca.no_grad()
                p = dict(BASE, radius=r, sigma=s)
                for gk, gr in grid_family((1, 2, 11, 12)).items():
                    compare(ctx, ca, p, gr, "radius %d sigma %s %s" % (r, s, gk), "laplacian")
                # radius changed afterwards
                with ctx.guard("laplacian:radius", [r, s]):
                    ca.set_kernel_radius(r + 1)
                p = dict(p, radius=r + 1)
                for gk, gr in grid_family((1, 2, 13, 14), ("irr", "dot")).items():
                    compare(ctx, ca, p, gr, "radius %d->%d sigma %s %s" % (r, r + 1, s, gk), "laplacian:radius")
                ctx.traces += 1
    ctx.sample({"unit": u, "states": ctx.states})
