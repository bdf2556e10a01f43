"""C09: elapsed time = sum of applied steps; frames are free; reset is neutral; dt readable at any moment."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F, models as M
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C09"
RULE = ("states = (class, elapsed time, dt, radius) reached by every history up to the depth bound over {step, frame, dt 0.5, scalar dt tensor, one-element dt tensor, "
        "radius, reset, read}; transition = one operation; after each: elapsed time and dt against the model, and for steps the dt "
        "actually applied is recovered by matching the grid against the reference step")
ASSUMPTIONS = ["the momentum automaton keeps no time and is excluded", "tolerance 3e-4 on grids, 1e-5 on time"]
OPS = ("step", "frame", "dt", "dtt", "dt1", "dti", "radius", "reset", "read")
CLASSES = ("CCA", "Lenia", "CODE", "RandomStepCA", "NCA", "RxnDfn")


def units(tier, seed):
    d = 4 if tier == "quick" else 5
    return [{"cls": c, "ext": e, "prefix": [a], "depth": d} for c, e in [(c, 2) for c in CLASSES] + [("CCA", 1), ("CODE", 4)] for a in OPS]


class Sim:
    """real automaton + reference of one step as a function of dt"""

    def __init__(self, cls, e):
        self.cls, self.e, self.radius = cls, e, 3
        self.var = cls in ("CODE", "RandomStepCA")
        self.cfg = F.config("gauss3", "none", "gm4", "gaus1", dt=0.2)
        self.dt = 0.2
        if cls == "NCA":
            self.kp = np.array([0.5, 0.4, 0.15])
            self.w = M.nca_vec(e, e, 4, "Gaussian")
            self.ca = M.nca(external_channels=e, internal_channels=e, hidden_channels=4, kernel_radius=3, kernel_peaks=1)
            self.ca.set_params(np.append(self.w, self.kp))
            self.ca.set_kernel_config({"name": "GaussianMixture", "radius": 3, "kernel_kwargs": {"parameters": self.kp.copy()}})
            self.ca.set_kernel_radius(3)
            self.ca.set_dt(0.2)
            self.ca.eval()
        elif cls == "RxnDfn":
            self.radius = 1
            self.ca = M.rxn(dt=0.2)
        else:
            self.ca = F.build(cls, self.cfg, external_channels=e)

    def ref(self, u, dt):
        if self.cls == "NCA":
            k = ref.kernel({"name": "GaussianMixture", "radius": self.radius, "kernel_kwargs": {"parameters": self.kp}})
            return M.nca_step(u, self.w, k, self.e, self.e, 4, "Gaussian", dt)
        if self.cls == "RxnDfn":
            lap = ref.kernel({"name": "LaplacianOfGaussian", "radius": self.radius, "kernel_kwargs": {"sigma": 0.5}})
            return ref.gray_scott(u, 0.062, 0.0609, 2e-5, 1e-5, 1 / 330., dt, lap)
        cfg = dict(self.cfg, neighborhood_kernel_config=F.kernel_cfg("gauss3", self.radius))
        return ref.RefCCA(cfg, external=self.e, lenia=self.cls == "Lenia", dt=dt).step(u)


def run_unit(u, ctx):
    cls, e = u["cls"], u["ext"]
    g = grid_family((1, e, 7, 8), ("irr",))["irr"] * 0.8
    if e >= 4:
        g[:, 3] = 0.5 + 0.4 * g[:, 3]
    for tail in itertools.product(OPS, repeat=u["depth"] - 1):
        seq = tuple(u["prefix"]) + tail
        with suppress(Skip):
            with ctx.guard("time", list(seq)):
                M.reseed(4)
                s = Sim(cls, e)
                t0 = float(s.ca.t_count)
            ctx.expect(t0 == 0.0, "time:start", "elapsed time starts at %s" % t0, list(seq))
            t, grid = 0.0, T(g)
            for n, op in enumerate(seq):
                ctx.transitions += 1
                with ctx.guard("time:" + op, [cls, list(seq), n]):
                    if op == "step":
                        pre = N(grid)
                        grid = s.ca(grid)
                    elif op == "frame":
                        mode = (n + OPS.index(seq[0])) % 5
                        fr = s.ca.get_frame(grid, mode=mode)
                        fr = fr[0] if mode else fr
                    elif op == "dt":
                        s.ca.set_dt(0.5)
                        s.dt = 0.5
                    elif op == "dt1":
                        s.ca.set_dt(torch.tensor([0.15]))
                        s.dt = 0.15
                    elif op == "dtt":
                        s.ca.set_dt(torch.tensor(0.05))
                        s.dt = 0.05
                    elif op == "dti":
                        s.ca.set_dt(1 if n % 2 else torch.tensor(1))
                        s.dt = 1.0
                    elif op == "radius":
                        s.radius = 2 if s.radius != 2 else 4
                        s.ca.set_kernel_radius(s.radius)
                        rr = s.ca.get_kernel_radius()
                    elif op == "reset":
                        s.ca.reset()
                        t = 0.0
                    now, dt = float(s.ca.t_count), s.ca.get_dt()
                ctx.expect(isinstance(dt, float) or np.isscalar(dt), "time:dt", "%s: dt read back as %r" % (cls, type(dt)), list(seq))
                if op == "step":
                    if s.var:
                        s.dt = dt
                    t += s.dt
                    d = maxdiff(N(grid), s.ref(pre, s.dt))
                    ctx.expect(d <= 3e-4, "time:applied", "%s %s: step %d did not apply the reported dt %g (grid off by %g)" % (
                        cls, list(seq), n, s.dt, d), list(seq))
                if op == "frame" :
                    d = maxdiff(N(fr), s.ref(N(grid), s.dt))
                    ctx.expect(d <= 3e-4, "time:frame", "%s %s: frame %d is not the next state under dt %g (off by %g)" % (cls, list(seq), n, s.dt, d), list(seq))
                if op == "radius":
                    ctx.expect(rr == s.radius, "time:radius", "radius reported as %s after setting %s" % (rr, s.radius), list(seq))
                ctx.expect(abs(dt - s.dt) < 1e-6, "time:dt", "%s %s: dt reads %s after operation %d, expected %s" % (cls, list(seq), dt, n, s.dt), list(seq))
                ctx.expect(abs(now - t) < 1e-5, "time:elapsed", "%s %s: elapsed time %s after operation %d, applied steps sum to %s" % (
                    cls, list(seq), now, n, t), list(seq))
                ctx.visit((cls, seq[:n + 1]))
            ctx.traces += 1
    ctx.sample({"unit": u, "states": ctx.states})
