"""C12: alive mask - every alive/dead pattern of a small grid."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F, models as M
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C12"
RULE = ("states = every assignment of {alive, dead} to the 6 cells of a 2x3 grid (dead = below, exactly at, or zero alpha in rotation) x "
        "threshold x channel count x class; transition = one real step (and frame) against the reference applied to the masked grid")
ASSUMPTIONS = ["tolerance 2e-4 (5e-4 neural)"]
CLASSES = ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA")


def units(tier, seed):
    return [{"cls": c, "ext": e, "thr": t} for c in CLASSES for e in (3, 4, 5, 8) + ((6, 12) if tier == "thorough" else ())
            for t in (0.1, 0.0, 0.5, 0.3) if e != 8 or t in (0.1, 0.3) or tier == "thorough"]


def run_unit(u, ctx):
    cls, e, thr = u["cls"], u["ext"], u["thr"]
    f32 = float(np.float32(thr))
    dead = [f32, max(0.0, f32 - 0.02), 0.0]
    live = [float(np.nextafter(np.float32(thr), np.float32(2))), f32 + 0.02, 1.0, f32 + 0.3]
    h, w = 2, 3
    for cfgn in (("gauss1", "none", "gm4", "gaus1"), ("moore1", "none", "si1", "poly")):
        cfg = F.config(*cfgn, dt=0.3)
        kern = ref.kernel(cfg["neighborhood_kernel_config"])
        wts = M.nca_vec(e, e, 3, "Tanh")
        kp = np.array([0.9, 0.5, 0.3])
        nk = ref.kernel({"name": "GaussianMixture", "radius": 1, "kernel_kwargs": {"parameters": kp}})
        for pat in range(2 ** (h * w)):
            for rot in (0, 1):
                with suppress(Skip):
                    g = 0.2 + 0.75 * grid_family((1, e, h, w), ("irr",))["irr"]
                    if e >= 4:
                        for c in range(h * w):
                            alive = pat >> c & 1
                            g[0, 3, c // w, c % w] = live[(c + rot) % 4] if alive else dead[(c + rot) % 3]
                    elif pat > 3:
                        break
                    what = "%s %s pattern %s rot %d" % (u, cfgn, format(pat, "06b"), rot)
                    M.reseed(3)
                    with ctx.guard("alive", what):
                        if cls == "NCA":
                            ca = M.nca(external_channels=e, internal_channels=e, hidden_channels=3, kernel_radius=1, kernel_peaks=1,
                                       activation="Tanh", alive_threshold=thr)
                            ca.set_params(np.append(wts, kp))
                            ca.set_dt(0.3)
                            ca.eval()
                        else:
                            ca = F.build(cls, cfg, external_channels=e, alive_threshold=thr)
                        t = T(g)
                        fr = N(ca.get_frame(t))
                        out = N(ca(t))
                        dt = ca.get_dt()
                    if cls == "NCA":
                        exp = fexp = M.nca_step(N(t), wts, nk, e, e, 3, "Tanh", 0.3, thr=f32)
                    else:
                        rf = ref.RefCCA(cfg, external=e, lenia=cls == "Lenia", thr=thr)
                        fexp = rf.step(N(t))
                        rf.dt = 0.3 * 0.25 if cls == "MetaCA" else dt
                        exp = rf.step(N(t))
                    ctx.transitions += 2
                    ctx.traces += 1
                    ctx.visit((what, out.round(4).tobytes()))
                    ctx.expect(maxdiff(out, exp) <= 5e-4, "alive:step", lambda: "%s: step differs from the update of the masked grid by %g" % (what, maxdiff(out, exp)))
                    ctx.expect(maxdiff(fr, fexp) <= 5e-4, "alive:frame", lambda: "%s: frame differs from the update of the masked grid by %g" % (what, maxdiff(fr, fexp)))
                    ctx.expect(maxdiff(N(t), g.astype(np.float32)) == 0, "alive:input", "%s: caller's grid was masked in place" % what)
    ctx.sample({"unit": u, "states": ctx.states})
