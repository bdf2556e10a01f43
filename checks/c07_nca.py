"""C07: neural CA step in evaluation mode against a float64 network fed with the written vector."""
import copy
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, models as M, family as F
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C07"
RULE = ("states = (activation, hidden size, channel counts, kernel, boundary, dt, weight vector, grid); transition = one real "
        "evaluation-mode step against the reference network; 3 chained steps per trace")
ASSUMPTIONS = ["tolerance 5e-4", "ReLU kinks and dropout only occur in training mode, not judged"]
ACTS = ("Gaussian", "Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity")


def units(tier, seed):
    us = [{"act": a, "ch": list(c)} for a in ACTS for c in ((1, 1), (2, 2), (3, 3), (4, 4), (1, 2), (2, 1), (3, 2), (5, 5))]
    if tier == "thorough":
        us += [{"act": a, "ch": list(c), "more": True} for a in ACTS for c in ((1, 1), (2, 2), (4, 4), (4, 8), (1, 3), (16, 16), (3, 6))]
    us += [{"kind": "file", "act": a, "ch": list(c)} for a in ("Gaussian", "Tanh") for c in ((1, 1), (2, 2), (3, 3), (4, 4))]
    return us


def run_file(u, ctx):
    """networks read from settings, with identity kernels other than the cell itself, on every boundary"""
    act, (e, n) = u["act"], u["ch"]
    for idk, kn, mode, dt, inst in itertools.product(("smooth", "moore", "none"), ("gmix4_3", "moore2"), ("circular", "zeros", "reflect", "replicate"), (0.2, None), (0, 1)):
        h = 3
        what = "NCA %s %d/%d identity %s kernel %s %s dt=%s" % (act, e, n, idk, kn, mode, dt)
        with suppress(Skip):
            kc = copy.deepcopy(F.KERNELS[kn])
            kp = np.ravel(kc.get("kernel_kwargs", {}).get("parameters", []))
            w = M.nca_vec(e, n, h, act, 1, 1.3)
            cfg = {"neighborhood_kernel_config": kc, "params": np.append(w, kp)}
            if dt is not None:
                cfg["dt"] = dt
            if F.IDK[idk] is not None:
                cfg["identity_kernel_config"] = copy.deepcopy(F.IDK[idk])
            kw = dict(external_channels=e, internal_channels=n, hidden_channels=h, activation=act, conv_mode=mode)
            if inst:
                cfg["instant_kwargs"] = kw
            with ctx.guard("nca", what):
                ca = M.nca(**({} if inst else kw))
                ca.load_config(cfg)
                ca.eval()
            kern = ref.kernel(F.KERNELS[kn])
            ik = None if F.IDK[idk] is None else ref.kernel(F.IDK[idk])
            for gk, gr in grid_family((2, e, 9, 10), ("irr", "dot")).items():
                t = T(gr)
                for s in range(2):
                    pre = N(t)
                    with ctx.guard("nca", what):
                        t = ca(t)
                    d = maxdiff(N(t), M.nca_step(pre, w, kern, e, n, h, act, 0.1 if dt is None else dt, mode, idk=ik))
                    ctx.transitions += 1
                    ctx.visit((what, inst, gk, s, N(t).round(4).tobytes()))
                    ctx.expect(d <= 5e-4, "nca:file", "%s %s step %d differs from the reference network by %g" % (what, gk, s, d))
                ctx.traces += 1


def run_unit(u, ctx):
    if u.get("kind") == "file":
        return run_file(u, ctx)
    act, (e, n) = u["act"], u["ch"]
    more = u.get("more")
    hs = (1, 4, 7, 16) if more else (1, 5)
    peaks = (1, 2, 3) if more else (1, 3)
    for h, r, pk, mode, dt, k in itertools.product(hs, (1, 2), peaks, ("circular", "zeros") if not more else ("circular", "zeros", "reflect", "replicate"),
                                                  (0.1, 1.0), (0, 1)):
        what = "NCA %s %d/%d hidden=%d radius=%d peaks=%d %s dt=%s vec%d" % (act, e, n, h, r, pk, mode, dt, k)
        with suppress(Skip):
            with ctx.guard("nca", what):
                ca = M.nca(external_channels=e, internal_channels=n, hidden_channels=h, kernel_radius=r, kernel_peaks=pk,
                           activation=act, conv_mode=mode)
                kp = np.ravel([[0.5 + 0.3 * k, 0.2 + 0.25 * i, 0.1 + 0.05 * i] for i in range(pk)])
                w = M.nca_vec(e, n, h, act, k, 1.3)
                vec = np.append(w, kp)
                ln = len(ca.get_params())
            ctx.expect(ln == len(vec), "nca:length", "%s: parameter vector has %d entries, expected %d" % (what, ln, len(vec)))
            with ctx.guard("nca", what):
                ca.set_params(vec)
                ca.set_dt(dt)
                ca.eval()
            kern = ref.kernel({"name": "GaussianMixture", "radius": r, "kernel_kwargs": {"parameters": kp}})
            for gk, gr in grid_family((2, e, 5, 6), ("irr", "irr2", "dot")).items():
                t = T(gr)
                M.frames(ctx, ca, t, M.nca_step(N(t), w, kern, e, n, h, act, dt, mode, parts=True), what + " " + gk, 5e-4)
                for s in range(3):
                    pre = N(t)
                    with ctx.guard("nca", what):
                        t = ca(t)
                    d = maxdiff(N(t), M.nca_step(pre, w, kern, e, n, h, act, dt, mode))
                    ctx.transitions += 1
                    ctx.visit((what, gk, s, N(t).round(4).tobytes()))
                    ctx.expect(d <= 5e-4, "nca", "%s %s step %d differs from the reference network by %g" % (what, gk, s, d))
                ctx.traces += 1
    ctx.sample({"unit": u, "states": ctx.states})
