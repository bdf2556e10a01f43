"""C08: velocity automaton - all operation histories against an explicit velocity model."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C08"
RULE = ("states = (velocity, grid, dt) of two automata reached by every history up to the depth bound over an 8-letter alphabet "
        "(step own grid, step a fresh grid of equal shape, step a grid of other shape, other batch size, reset, dt change, on "
        "automaton 0; step and reset on automaton 1); transition = one operation; every step output compared with the model")
ASSUMPTIONS = ["tolerance 3e-4"]
OPS = ("own", "fresh", "shape", "batch", "reset", "dt", "own1", "reset1")
CFGS = {"a": ("gauss3", "none", "gm4", "gaus1"), "b": ("moore1", "none", "si1", "poly"), "c": ("smooth4", "smooth", "gm2", "gaus0")}


def units(tier, seed):
    d = 4 if tier == "quick" else 5
    us = [{"kind": "hist", "cfg": c, "ext": 1, "prefix": [a, b], "depth": d} for c in ("a",) for a in OPS for b in OPS]
    us += [{"kind": "hist", "cfg": c, "ext": e, "prefix": [a], "depth": 3} for c in CFGS for e in (1, 2, 4) for a in OPS]
    us += [{"kind": "long", "cfg": c, "ext": e} for c in CFGS for e in (1, 3, 4, 5)]
    us += [{"kind": "fast", "coef": list(c), "dt": dt, "ext": e} for c in ((30.0, 0.0), (-30.0, 5.0), (400.0, -20.0), (3.0, -12.0)) for dt in (0.4, 2 ** -12) for e in (1, 4)]
    return us


class Model:
    def __init__(self, rf):
        self.rf, self.v, self.dt = rf, None, rf.dt

    def step(self, g):
        if self.v is None or self.v.shape != g.shape:
            self.v = np.zeros_like(g)
        x = ref.alive(g, self.rf.thr)
        _, upd = self.rf.parts(x)
        self.v = self.v + 0.25 * upd
        return np.clip(x + self.dt * self.v, 0, 1)


def run_seq(ctx, cfg, e, seq):
    rfs = [ref.RefCCA(cfg, external=e) for _ in (0, 1)]
    with ctx.guard("momentum", seq):
        cas = [F.build("MetaCA", cfg, external_channels=e) for _ in (0, 1)]
    ms = [Model(r) for r in rfs]
    own = [T(grid_family((1, e, 5, 6), ("irr",))["irr"]), T(grid_family((1, e, 5, 6), ("irr2",))["irr2"])]
    for n, op in enumerate(seq):
        i = 1 if op.endswith("1") else 0
        ca, m = cas[i], ms[i]
        ctx.transitions += 1
        if op.startswith("reset"):
            with ctx.guard("momentum", seq):
                ca.reset()
            m.v = None
            continue
        if op == "dt":
            with ctx.guard("momentum", seq):
                ca.set_dt(1.0)
            m.dt = 1.0
            continue
        if op.startswith("own"):
            t = own[i]
        elif op == "fresh":
            t = T(grid_family((1, e, 5, 6), ("ramp",))["ramp"])
        elif op == "shape":
            t = T(grid_family((1, e, 6, 5), ("irr",))["irr"])
        else:
            t = T(grid_family((2, e, 5, 6), ("irr",))["irr"])
        pre = N(t)
        with ctx.guard("momentum", seq):
            out = ca(t)
        exp = m.step(pre)
        d = maxdiff(N(out), exp)
        ctx.expect(d <= 3e-4, "momentum", "history %s: operation %d (%s) gives a grid off by %g from the velocity model" % (
            list(seq), n, op, d), list(seq))
        ctx.expect(maxdiff(N(t), pre) == 0, "momentum:input", "input grid modified in %s" % (list(seq),), list(seq))
        if op.startswith("own"):
            own[i] = out
        ctx.visit((tuple(seq[:n + 1]), N(out).round(4).tobytes()))
    ctx.traces += 1


def run_unit(u, ctx):
    cfg = F.config(*CFGS[u.get("cfg", "a")], dt=0.4)
    e = u["ext"]
    if u["kind"] == "fast":
        # velocities far larger than the unit interval
        cfg = F.config("moore1", "none", "poly", "poly", dt=u["dt"])
        for k in ("genesis_config", "persistence_config"):
            cfg[k] = dict(cfg[k], coefficients=torch.tensor(u["coef"]))
        for seq in (("own",) * 6, ("own",) * 3 + ("fresh",) * 3 + ("reset",) + ("own",) * 2, ("own", "fresh", "shape", "own", "own")):
            with suppress(Skip):
                run_seq(ctx, cfg, e, seq)
    elif u["kind"] == "hist":
        k = u["depth"] - len(u["prefix"])
        for tail in itertools.product(OPS, repeat=k):
            with suppress(Skip):
                run_seq(ctx, cfg, e, tuple(u["prefix"]) + tail)
    else:
        for seq in (("own",) * 12, ("own",) * 5 + ("reset",) + ("own",) * 4, ("own", "own1") * 6, ("own", "own", "shape") * 3 + ("own",) * 2):
            with suppress(Skip):
                run_seq(ctx, cfg, e, seq)
    ctx.sample({"unit": u, "states": ctx.states})
