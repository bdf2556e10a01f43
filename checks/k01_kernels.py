"""K01: kernels against the float64 radial profiles."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F
from mc.util import N, maxdiff
from mc.core import Skip

PROPERTY = "K01"
RULE = ("states = (kernel name, radius, parameters) over the full product of the alphabets; transition = one construction through the "
        "configuration, through the helper, and through a configured automaton; each array compared with the reference profile")
ASSUMPTIONS = ["profiles that are constant over the kernel (nothing left after the shift to a zero minimum) are not judged",
               "the normalisation guard 1e-9 in the denominator is tolerated"]


def alphabet():
    out = []
    for mu, s in itertools.product((0.0, 0.25, 0.5, 0.9, 1.3), (0.05, 0.15, 0.5, 2.0)):
        out.append(("Gaussian", {"mu": mu, "sigma": s}))
    for p in ([0.5, 0.15], [0.2, 0.1, 0.8, 0.05], [0.7, 0.5, 0.15], [0.5, 0.1, 0.06, 1.0, 0.4, 0.08, 0.7, 0.75, 0.1],
              [1 / 3, 0.5, 0.15] * 3, [2.0, 0.3, 0.2], [0.3, 0.1, 0.7, 0.1, 0.9, 0.05, 0.1, 0.02], [1.0, 0.0, 0.3, 0.5, 1.0, 0.1],
              [0.3, 0.1, 0.06, 0.9, 0.35, 0.05, 0.5, 0.6, 0.08, 0.7, 0.85, 0.06], [0.2, 0.9, 0.04, 0.4, 0.7, 0.05, 0.6, 0.5, 0.06, 0.8, 0.3, 0.07, 1.0, 0.1, 0.08],
              [0.1, 0.05, 0.3, 0.06, 0.55, 0.04, 0.75, 0.03, 0.95, 0.05], [0.5, -0.3, 0.4], [0.4, 1.4, 0.3]):
        out.append(("GaussianMixture", {"parameters": p}))
    for mu, o in itertools.product((0.0, 0.3, 0.5, 1.0), (6.28, 12.56, 25.12)):
        out.append(("CosOverX2", {"mu": mu, "omega": o}))
    for mu, s, dx in itertools.product((0.3, 0.5), (0.15, 0.3), (0.01, 0.1, -0.05)):
        out.append(("DoGaussian", {"mu": mu, "sigma": s, "dx": dx}))
    for a, i in ((1.0, 1 / 3), (1.05, 1 / 3), (0.9, 0.5), (1 / 3, 0.0), (0.5, 0.25), (1.2, 0.0)):
        out.append(("SmoothLifeKernel", {"r_a": a, "r_i": i}))
    for s in (0.2, 0.5, 1.0):
        out.append(("LaplacianOfGaussian", {"sigma": s}))
    out += [("MooreLike", None), ("InnerMoore", None)]
    return out


def units(tier, seed):
    R = 12 if tier == "quick" else 40
    names = sorted({n for n, _ in alphabet()})
    return [{"name": n, "radii": list(r)} for n in names for r in ([range(1, R // 2 + 1), range(R // 2 + 1, R + 1)])] + [{"name": "helpers"}]


def judge(ctx, k, want, what, key, averaging=True):
    k = np.asarray(k, dtype=np.float64)
    ctx.expect(k.ndim == 4 and k.shape[:2] == (1, 1) and k.shape[2:] == want.shape, key + ":shape", "%s: shape %s, wanted %s" % (what, k.shape, want.shape))
    k = k[0, 0]
    if averaging:
        ctx.expect(k.min() >= -1e-9, key + ":negative", "%s: negative weight %g" % (what, k.min()))
        ctx.expect(abs(k.sum() - 1) < 1e-4 + 1.5 * abs(1 - want.sum()), key + ":sum", "%s: weights sum to %g" % (what, k.sum()))
    r = (k.shape[0] - 1) // 2
    ctx.expect(np.allclose(k, k[::-1]) and np.allclose(k, k[:, ::-1]) and np.allclose(k, k.T), key + ":radial", "%s: not symmetric" % what)
    d = maxdiff(k, want)
    scale = max(1e-3, np.abs(want).max())
    ctx.expect(d <= 2e-5 * max(1, scale) + 2e-4 * scale, key, "%s: differs from the %s profile by %g" % (what, key, d))
    ctx.visit((what, k.round(7).tobytes()))
    ctx.transitions += 1
    ctx.traces += 1


def run_unit(u, ctx):
    from yuca import kernels as K
    if u["name"] == "helpers":
        for r in range(1, 11):
            with suppress(Skip):
                for rs in (1.0, 0.5, 2.0):
                    g = np.array(ref.radial(r)) * rs
                    for mu, s in ((0.5, 0.15), (0.3, 0.4), (0.9, 0.2)):
                        with ctx.guard("helper", [r, mu, s]):
                            a = N(K.get_gaussian_kernel(radius=r, mu=mu, sigma=s, r_scale=rs))
                            b = N(K.get_gaussian_mixture_kernel(radius=r, parameters=[mu, s], r_scale=rs))
                            b2 = N(K.get_gaussian_mixture_kernel(radius=r, parameters=np.array([1.0, mu, s]), r_scale=rs))
                        w = ref.norm(ref.gauss(g, mu, s))
                        judge(ctx, a, w, "get_gaussian_kernel(%d,%s,%s,%s)" % (r, mu, s, rs), "helper:gaussian")
                        judge(ctx, b, w, "get_gaussian_mixture_kernel(%d,%s,%s,%s)" % (r, mu, s, rs), "helper:mixture")
                        judge(ctx, b2, w, "get_gaussian_mixture_kernel(%d,[1,%s,%s],%s)" % (r, mu, s, rs), "helper:mixture")
                    for par in ([0.2, 0.1, 0.7, 0.15], [0.8, 0.2, 0.1, 1.0, 0.6, 0.2], [1.0, 0.1, 0.1, 0.5, 0.4, 0.1, 0.3, 0.7, 0.1, 0.9, 1.0, 0.2]):
                        with ctx.guard("helper", [r, par]):
                            a = N(K.get_gaussian_mixture_kernel(radius=r, parameters=list(par), r_scale=rs))
                        judge(ctx, a, ref.norm(ref.growth({"name": "GaussianMixture", "parameters": par}, g)), "get_gaussian_mixture_kernel(%d,%s,%s)" % (r, par, rs), "helper:mixture")
                    for mu, o in ((0.5, 12.56), (0.0, 6.28)):
                        with ctx.guard("helper", [r, mu, o]):
                            a = N(K.get_cosx2_kernel(radius=r, mu=mu, omega=o, r_scale=rs))
                        judge(ctx, a, ref.norm(ref.growth({"name": "CosOverX2", "mu": mu, "omega": o}, g)), "get_cosx2_kernel(%d,%s,%s,%s)" % (r, mu, o, rs), "helper:cos")
                with ctx.guard("helper", r):
                    a = N(K.get_dogaussian_kernel(radius=r, mu=0.4, sigma=0.2))
                judge(ctx, a, ref.norm(ref.growth({"name": "DoGaussian", "mu": 0.4, "sigma": 0.2}, ref.radial(r))), "get_dogaussian_kernel(%d)" % r, "helper:dog")
                ax = np.arange(-r, r + 1, dtype=float)
                for mode, dx in itertools.product((0, 1), (0.01, 0.3, -0.2, 1.0)):
                    with ctx.guard("helper:edge", [r, mode, dx]):
                        a = N(K.get_gaussian_edge_kernel(radius=r, mu=0.5, sigma=0.15, mode=mode, dx=dx))[0, 0]
                        b = N(K.get_dogaussian_edge_kernel(radius=r, mu=0.5, sigma=0.15, mode=mode, dx=dx))[0, 0]
                    yy, xx = np.meshgrid(ax, ax, indexing="ij")
                    d = (dx, 0) if mode else (0, dx)
                    g1 = np.sqrt((xx - d[0]) ** 2 + (yy - d[1]) ** 2) / r
                    g2 = np.sqrt((xx + d[0]) ** 2 + (yy + d[1]) ** 2) / r
                    wa = ref.norm(ref.gauss(g1, 0.5, 0.15) - ref.gauss(g2, 0.5, 0.15))
                    c = {"name": "DoGaussian", "mu": 0.5, "sigma": 0.15}
                    wb = ref.norm(ref.growth(c, g1) - ref.growth(c, g2))
                    ctx.transitions += 2
                    ctx.visit((r, mode, dx))
                    for got, w, nm in ((a, wa, "gaussian"), (b, wb, "dogaussian")):
                        ctx.expect(maxdiff(got, w) < 1e-3 * max(1e-2, w.max()) + 1e-5, "helper:edge", "%s edge kernel radius %d mode %d dx %s off by %g" % (nm, r, mode, dx, maxdiff(got, w)))
        with suppress(Skip):
            with ctx.guard("helper", "laplacian"):
                lk = N(K.get_laplacian_kernel())
            ctx.expect(maxdiff(lk, np.array([[[[.25, .5, .25], [.5, -3, .5], [.25, .5, .25]]]])) < 1e-7, "helper:laplacian", "9-point stencil is %s" % lk)
            for nm, c in (("get_gaussian_kernel", {"name": "Gaussian", "mu": .5, "sigma": .15}), ("get_gaussian_mixture_kernel", {"name": "GaussianMixture", "parameters": [.5, .15]}),
                          ("get_cosx2_kernel", {"name": "CosOverX2", "mu": .5, "omega": 12.56}), ("get_dogaussian_kernel", {"name": "DoGaussian", "mu": .5, "sigma": .15})):
                for r in (13, 4):
                    with ctx.guard("defaults", nm):
                        a = N(getattr(K, nm)() if r == 13 else getattr(K, nm)(r))
                    judge(ctx, a, ref.norm(ref.growth(c, ref.radial(r))), "%s with default arguments" % nm, "defaults", averaging="dog" not in nm)
            for nm in ("get_gaussian_edge_kernel", "get_dogaussian_edge_kernel"):
                with ctx.guard("defaults", nm):
                    a, b = N(getattr(K, nm)()), N(getattr(K, nm)(radius=13, mu=.5, sigma=.15, mode=0, dx=.01))
                ctx.expect(maxdiff(a, b) == 0, "defaults", "%s with default arguments is not the one of radius 13" % nm)
                ctx.transitions += 1
            try:
                K.get_kernel({"name": "NoSuchKernel", "radius": 2, "kernel_kwargs": {}})
                ok = False
            except Exception:
                ok = True
            ctx.expect(ok, "unknown", "an unknown kernel name was accepted")
        return
    for (name, kw), r in itertools.product([a for a in alphabet() if a[0] == u["name"]], u["radii"]):
        cfg = {"name": name, "radius": r}
        if kw is not None:
            cfg["kernel_kwargs"] = kw
        want = ref.kernel(cfg)
        what = "%s radius %d %s" % (name, r, kw)
        if name == "SmoothLifeKernel":
            # weights exactly on the ring boundary may fall either side in floating point
            g = ref.radial(r)
            if np.abs(g - kw["r_a"]).min() < 1e-9 and kw["r_a"] not in (1.0,) or (kw["r_i"] > 0 and np.abs(g - kw["r_i"]).min() < 1e-12 and kw["r_i"] not in (0.5, 0.25, 1 / 3)):
                continue
        if np.ptp(want) == 0 or want.sum() < 0.5 and "aplacian" not in name:
            continue
        with suppress(Skip):
            with ctx.guard("kernel", what):
                k = N(K.get_kernel(cfg))
            lap = "aplacian" in name
            judge(ctx, k, want, what, name, averaging=not lap)
            if lap:
                ctx.expect(abs(k.sum()) < 1e-5 and k[0, 0, r, r] < 0 and abs(np.abs(k).sum() - 1) < 1e-4, "laplacian",
                           "%s: sum %g, centre %g" % (what, k.sum(), k[0, 0, r, r]))
    ctx.sample({"unit": u, "states": ctx.states})
