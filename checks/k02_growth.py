"""K02: growth functions against their formulas."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F
from mc.util import T, N, maxdiff
from mc.core import Skip

PROPERTY = "K02"
RULE = ("states = (function, mode, parameters, parameter container, input container/shape); transition = evaluation on a dense input grid "
        "over [-0.5,1.5]; every value compared with the formula")
ASSUMPTIONS = ["tolerance 2e-5 relative to the value scale; very narrow widths judged at 1e-3"]

CASES = []
for mu, s in itertools.product((0.0, 0.15, 0.5, 1.0), (0.005, 0.05, 0.3, 2.0)):
    CASES += [{"name": "Gaussian", "mu": mu, "sigma": s}, {"name": "DoGaussian", "mu": mu, "sigma": s, "dx": 0.01}]
CASES += [{"name": "DoGaussian", "mu": 0.4, "sigma": 0.1, "dx": d} for d in (0.1, -0.05, 0.0)]
for p in ([0.5, 0.15], [0.3, 0.08, 0.6, 0.05], [0.7, 0.4, 0.1], [0.7, 0.4, 0.1, 0.5, 0.2, 0.06], [3.0, 0.5, 0.3], [-1.0, 0.5, 0.2],
          [0.1, 0.05, 0.4, 0.05, 0.7, 0.05, 0.9, 0.05], [0.2, 0.1, 0.1, 0.4, 0.5, 0.1, 0.9, 0.8, 0.2], [0.2, 0.05] * 5):
    CASES.append({"name": "GaussianMixture", "parameters": p})
CASES += [{"name": "DoubleGaussian", "mu": m, "sigma": s} for m in ([0.2, 0.6], [0.4], [0.9, 0.1]) for s in ([0.1, 0.05], [0.2])]
CASES += [{"name": "SmoothIntervals", "parameters": p, "alpha": a} for p in ([[0.2, 0.4]], [[0.1, 0.3], [0.5, 0.8]], [[0.0, 1.0]], [[0.3, 0.3]])
          for a in (0.01, 0.05, 0.3)]
CASES += [{"name": "Polynomial", "coefficients": c} for c in ([0.3], [0.1, 0.9], [0.3, -1.0, 0.5, 0.25], [0, 0, 0, 0, 1.0], [1.0, -8.0, 20.0, -16.0, 2.0, 0.5, 0.1, 0.01])]
CASES += [{"name": "CosOverX2", "mu": m, "omega": o} for m in (0.0, 0.5, 1.0) for o in (3.14, 12.56, 25.12)]
CASES += [{"name": "Identity"}]
# longer mixtures and polynomials, every pairing of places and widths
CASES += [{"name": "GaussianMixture", "parameters": [round((0.37 + 0.618 * (7 * k + i)) % 1.0, 4) if i % w != w - 1 else 0.03 + 0.02 * (i % 5) for i in range(n)]}
          for k, (n, w) in enumerate([(12, 3), (15, 3), (18, 3), (24, 3), (8, 2), (14, 2), (16, 2), (20, 2)])]
CASES += [{"name": "Polynomial", "coefficients": [round(((0.29 + 0.618 * (i + n)) % 1.0) * 2 - 1, 3) / 1.3 ** i for i in range(n)]} for n in (2, 3, 5, 6, 7, 9, 10, 12)]
CASES += [{"name": "DoubleGaussian", "mu": m, "sigma": s} for m in ([0.2, 0.6], [0.6, 0.2], [0.0, 1.2], [-0.1, 0.3])
          for s in ([0.3, 0.05], [0.05, 0.3], [0.6, 0.25], [0.08, 0.08])]
CASES += [{"name": "DoGaussian", "mu": m, "sigma": s, "dx": d} for m in (-0.1, 0.6) for s in (0.05, 0.3) for d in (0.02, 0.3, -0.3)]
CASES += [{"name": "Gaussian", "mu": m, "sigma": s} for m in (-0.2, 1.3) for s in (0.02, 0.15, 1.0)]
CASES += [{"name": "CosOverX2", "mu": m, "omega": o} for m in (-0.2, 1.3) for o in (0.0, 1.0, 50.0)]
CASES += [{"name": "SmoothIntervals", "parameters": p, "alpha": a} for p in ([[0.1, 0.2], [0.3, 0.4], [0.5, 0.6], [0.8, 0.9]], [[0.5, 0.8], [0.1, 0.3]], [[-0.2, 0.1], [0.9, 1.3]], [[0.1, 0.5], [0.4, 0.8]])
          for a in (0.02, 0.1)]


def units(tier, seed):
    n = 2001 if tier == "quick" else 20001
    return [{"i": i, "n": n} for i in range(len(CASES))] + [{"i": -1}]


def containers(c):
    arr = [k for k in ("parameters", "coefficients") if k in c]
    if c["name"] == "DoubleGaussian":
        arr = ["mu", "sigma"]
    yield "list", dict(c)
    if arr:
        t = dict(c)
        for k in arr:
            t[k] = F.tens(c[k])
        yield "tensor", t
        a = dict(c)
        for k in arr:
            a[k] = np.array(c[k], dtype=np.float64)
        yield "ndarray", a
        a = dict(c)
        for k in arr:
            a[k] = np.array(c[k], dtype=np.float32)
        yield "ndarray32", a
    elif "mu" in c:
        t = dict(c)
        for k in ("mu", "sigma", "omega"):
            if k in t:
                t[k] = torch.tensor([t[k]])
        yield "tensor1", t
        t = dict(c)
        for k in ("mu", "sigma", "omega"):
            if k in t:
                t[k] = torch.tensor(t[k])
        yield "tensor0", t


def ref_value(c, mode, x):
    if c["name"] == "DoGaussian":
        r = ref.growth(dict(c, mode=0), x)
        return 2 * r - 1 if mode else r
    if c["name"] == "Identity":
        return x
    return ref.growth(dict(c, mode=mode), x)


def run_unit(u, ctx):
    from yuca import activations as A
    if u["i"] < 0:      # defaults and the plain-function helper
        with suppress(Skip):
            x = np.linspace(-0.5, 1.5, 401)
            for nm, ref_cfg in (("Gaussian", {"mu": 0.0, "sigma": 0.1}), ("GaussianMixture", {"parameters": [0.5, 0.15]}),
                                ("SmoothIntervals", {"parameters": [[0.185, 0.375]], "alpha": 0.0125}), ("Polynomial", {"coefficients": [0.1, 0.1, 0.1]}),
                                ("CosOverX2", {"mu": 0.0, "omega": 25.12}), ("DoGaussian", {"mu": 0.0, "sigma": 0.1, "dx": 0.01}),
                                ("DoubleGaussian", {"mu": [0.0, 0.0], "sigma": [0.1, 0.1]})):
                with ctx.guard("default", nm):
                    v = N(getattr(A, nm)()(T(x)))
                ctx.transitions += 1
                ctx.visit(nm)
                ctx.expect(maxdiff(v, ref_value(dict(ref_cfg, name=nm), 0, x)) < 1e-3, "default", "%s with default parameters off by %g" % (nm, maxdiff(v, ref_value(dict(ref_cfg, name=nm), 0, x))))
            # the per-cell mixture: value, mean and width come from the first three channels of the input
            v = np.mod(np.arange(2 * 4 * 5 * 6) * 0.6180339887, 1.0).reshape(2, 4, 5, 6)
            v[:, 2] = 0.05 + v[:, 2]
            for mode, ch in itertools.product((0, 1), (3, 4)):
                x4 = T(v[:, :ch])
                with ctx.guard("meta", [mode, ch]):
                    got = N(A.GaussianMetaMixture(mode=mode)(x4))
                w = np.exp(-0.5 * ((v[:, 0] - v[:, 1]) / v[:, 2]) ** 2)[:, None]
                ctx.transitions += 1
                ctx.visit(("meta", mode, ch))
                ctx.expect(maxdiff(got, 2 * w - 1 if mode else w) < 1e-4, "meta", "the per-cell Gaussian of mode %d is off by %g" % (mode, maxdiff(got, 2 * w - 1 if mode else w)))
            for iv in ([[0.2, 0.4]], [[0.1, 0.3], [0.5, 0.9]]):
                with ctx.guard("steps_fn", iv):
                    v = A.get_smooth_steps_fn(iv, alpha=0.05)(x)
                ctx.expect(maxdiff(v, ref.growth({"name": "SmoothIntervals", "parameters": iv, "alpha": 0.05}, x)) < 1e-6, "steps_fn", "get_smooth_steps_fn differs from its formula")
        return
    c = CASES[u["i"]]
    xs = np.linspace(-0.5, 1.5, u["n"])
    shapes = {"vec": xs, "nchw": xs[:1000].reshape(2, 1, 20, 25), "chan": xs[:600].reshape(1, 3, 10, 20), "col": xs[:400].reshape(-1, 1), "one": xs[1000:1001]}
    for mode, (cn, cc) in itertools.product((0, 1), list(containers(c))):
        what = "%s mode %d parameters as %s" % (c, mode, cn)
        with suppress(Skip):
            with ctx.guard("growth", what):
                f = getattr(A, c["name"])(**dict(cc, mode=mode))
            for sn, x in shapes.items():
                x32 = N(T(x))
                want = ref_value(c, mode, x32)
                t = T(x)
                with ctx.guard("growth", what):
                    with torch.no_grad():
                        got = f(t)
                    g2 = None
                    if c["name"] != "Identity":
                        with torch.no_grad():
                            g2 = f(np.array(x32)) if cn == "list" else None
                narrow = min([0.1] + [float(np.min(np.abs(c[k]))) for k in ("sigma", "alpha") if k in c])
                tol = (1e-3 if narrow < 0.03 else 1e-4) * max(1.0, float(np.abs(want).max()))
                ctx.transitions += 1
                ctx.traces += 1
                ctx.visit((what, sn, N(got).round(5).tobytes()))
                ctx.expect(maxdiff(N(got), want) <= tol, "growth:" + c["name"], "%s on %s: off by %g" % (what, sn, maxdiff(N(got), want)))
                ctx.expect(maxdiff(N(t), x32) == 0, "growth:input", "%s modified its input" % what)
                if g2 is not None:
                    ctx.expect(maxdiff(N(g2), want) <= tol, "growth:ndarray", "%s on an ndarray: off by %g" % (what, maxdiff(N(g2), want)))
    ctx.sample({"case": {k: str(v) for k, v in c.items()}})
