"""C05: Lenia = clip(u + dt * growth(k*u)); its parameter vector is the growth parameters."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C05"
RULE = ("states = (kernel, identity kernel, growth, persistence, channels, boundary, dt, grid); transition = one real step "
        "against the float64 reference; parameter histories = all write sequences to depth 2 over a 3-letter vector alphabet")
ASSUMPTIONS = ["tolerance 2e-4", "grids of 5..11 cells per side"]
TOL = 2e-4


def units(tier, seed):
    us = [{"kind": "step", "kernel": k} for k in F.KERNELS] + [{"kind": "chan", "ext": e} for e in (1, 2, 3, 4, 5, 6, 8)]
    us += [{"kind": "params", "gen": g} for g in F.FNS]
    if tier == "thorough":
        us += [{"kind": "full", "kernel": k, "gen": g} for k in F.KERNELS for g in F.FNS]
    return us


def one(ctx, ca, rf, g, what, key="step", steps=2):
    t = T(g)
    for s in range(steps):
        pre = t.clone()
        with ctx.guard(key, what):
            t = ca(t)
        ctx.transitions += 1
        d = maxdiff(N(t), rf.step(N(pre)))
        ctx.visit((what, s, N(t).round(4).tobytes()))
        ctx.expect(d <= TOL, key, "%s step %d: differs from u + dt*growth by %g" % (what, s, d))
    ctx.traces += 1


def run_unit(u, ctx):
    fns = list(F.FNS)
    if u["kind"] in ("step", "full"):
        gens = fns if u["kind"] == "step" else [u["gen"]]
        pers = ("gaus1", "poly", "si2") if u["kind"] == "step" else fns
        for idk, g, per in itertools.product(F.IDK, gens, pers):
            cfg = F.config(u["kernel"], idk, g, per, dt=0.25)
            with suppress(Skip):
                with ctx.guard("step", [u, idk, g, per]):
                    ca = F.build("Lenia", cfg)
                rf = ref.RefCCA(cfg, lenia=True)
                for gk, gr in grid_family((1, 1, 9, 7), ("irr", "stripe") if u["kind"] == "step" else ("irr", "dot", "ramp", "ones")).items():
                    one(ctx, ca, rf, gr, "%s/%s/%s/%s %s" % (u["kernel"], idk, g, per, gk))
    elif u["kind"] == "chan":
        e = u["ext"]
        for mode, k, g, dt in itertools.product(("circular", "zeros", "reflect", "replicate"), ("gauss1", "gmix4_3"), ("gm4", "si1", "dog0"), (None, 0.05, 1.0, -0.25)):
            cfg = F.config(k, "none", g, "gaus1", dt=dt)
            with suppress(Skip):
                with ctx.guard("channels", [u, mode]):
                    ca = F.build("Lenia", cfg, external_channels=e, conv_mode=mode)
                rf = ref.RefCCA(cfg, external=e, conv_mode=mode, lenia=True)
                for gk, gr in grid_family((2, e, 6, 7), ("irr", "irr2", "dot")).items():
                    one(ctx, ca, rf, gr, "ext=%d %s %s %s dt=%s %s" % (e, mode, k, g, dt, gk), "channels")
    elif u["kind"] == "params":
        g = u["gen"]
        for per, kern, seq in itertools.product(("gaus1", "poly"), ("gauss3", "moore2"),
                                                [s for d in (0, 1, 2) for s in itertools.product((0, 1, 2), repeat=d)]):
            cfg = F.config(kern, "none", g, per, dt=0.3)
            n = F.fn_len(cfg["genesis_config"])
            with suppress(Skip):
                with ctx.guard("params", [u, seq]):
                    ca = F.build("Lenia", cfg)
                    p0 = np.asarray(ca.get_params(), dtype=float)
                ctx.expect(maxdiff(p0, F.fn_vec(cfg["genesis_config"])) < 1e-6, "params:read",
                           "initial parameter vector %s is not the growth parameters %s" % (p0, F.fn_vec(cfg["genesis_config"])))
                cur = cfg
                for k in seq:
                    v = F.vec_like(n, k)
                    with ctx.guard("params:write", [u, seq]):
                        ca.set_params(np.array(v))
                        back = np.asarray(ca.get_params(), dtype=float)
                    ctx.expect(maxdiff(back, v) < 1e-6, "params:read", "vector read back %s, written %s" % (back, v))
                    cur = dict(cfg, genesis_config=F.fn_with(cfg["genesis_config"], v))
                rf = ref.RefCCA(cur, lenia=True)
                ctx.expect(ca.get_kernel_radius() == cfg["neighborhood_kernel_config"]["radius"] and abs(ca.get_dt() - 0.3) < 1e-6,
                           "params:other", "writing growth parameters changed radius or dt")
                for gk, gr in grid_family((1, 1, 8, 9), ("irr", "irr2")).items():
                    one(ctx, ca, rf, gr, "params %s %s %s %s" % (g, per, seq, gk), "params:effect", steps=1)
    ctx.sample({"unit": u, "states": ctx.states})
