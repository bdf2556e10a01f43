"""C02: one step of a configured Glaberish CA is exactly the configured update rule."""
import itertools
import numpy as np
import torch
from mc import ref, family as F
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C02"
RULE = ("states = (configuration, grid) over the full product of the listed kernel x identity-kernel x growth alphabets "
        "and the product channels x boundary x dt; transition = one real step / frame call compared with a float64 "
        "reference of the documented rule; every trace is 3 chained steps of the implementation")
ASSUMPTIONS = ["tolerance 2e-4 absolute on cell values (float32 arithmetic vs float64 reference)",
               "small grids (5..11 cells per side), kernel radius 1..4, alphabets listed in mc/family.py"]
TOL = 2e-4


def units(tier, seed):
    us = []
    fns = list(F.FNS)
    for k in F.KERNELS:
        us.append({"kind": "kern", "kernel": k})
    for g in fns:
        us.append({"kind": "fns", "gen": g})
    for e in (1, 2, 3, 4, 5, 6, 8):
        us.append({"kind": "chan", "ext": e})
    us.append({"kind": "internal"})
    us.append({"kind": "half"})
    us.append({"kind": "frames"})
    if tier == "thorough":
        for k in F.KERNELS:
            for g in fns:
                us.append({"kind": "full", "kernel": k, "gen": g})
    return us


def drive(ctx, ca, rf, g0, key, what, steps=3, tol=TOL):
    """chain real steps; after every one compare with the reference applied to the real pre-state"""
    t = T(g0)
    for s in range(steps):
        pre = t.clone()
        with ctx.guard(key, what):
            out = ca(t)
        exp = rf.step(N(pre))
        d = maxdiff(N(out), exp)
        ctx.transitions += 1
        if not ctx.expect(d <= tol, key, lambda: "%s step %d: state differs from the configured rule by %g\nexpected %s\ngot %s" % (
                what, s, d, np.round(exp.ravel()[:12], 5), np.round(N(out).ravel()[:12], 5)), what):
            raise Skip()
        ctx.visit((what, N(out).round(4).tobytes()))
        t = out
    ctx.traces += 1


def run_unit(u, ctx):
    k = u["kind"]
    fns = list(F.FNS)
    if k == "kern":
        for idk in F.IDK:
            for i, g in enumerate(fns):
                per = fns[(i * 4 + 3) % len(fns)]
                cfg = F.config(u["kernel"], idk, g, per, dt=0.2)
                try:
                    with ctx.guard("step", [u, idk, g]):
                        ca = F.build("CCA", cfg)
                    rf = ref.RefCCA(cfg)
                    for gk, gr in grid_family((1, 1, 9, 11), ("dot", "irr", "stripe")).items():
                        drive(ctx, ca, rf, gr, "step", "%s/%s/%s/%s %s" % (u["kernel"], idk, g, per, gk), steps=2)
                except Skip:
                    pass
    elif k == "fns":
        for per in fns:
            for dt in (None, 1.0):
                cfg = F.config("gauss3", "none", u["gen"], per, dt=dt)
                try:
                    with ctx.guard("step", [u, per]):
                        ca = F.build("CCA", cfg)
                    rf = ref.RefCCA(cfg)
                    for gk, gr in grid_family((2, 1, 8, 7), ("zeros", "ones", "irr2", "ramp")).items():
                        drive(ctx, ca, rf, gr, "step", "gauss3/none/%s/%s dt=%s %s" % (u["gen"], per, dt, gk), steps=2)
                except Skip:
                    pass
    elif k == "chan":
        e = u["ext"]
        for mode, kern, dt in itertools.product(("circular", "zeros", "reflect", "replicate"),
                                                ("gauss1", "gmix4_3", "moore2"), (0.05, 0.5, 1.0, -0.3)):
            cfg = F.config(kern, "none", "gm4", "gaus1", dt=dt)
            try:
                with ctx.guard("channels", [u, mode, kern]):
                    ca = F.build("CCA", cfg, external_channels=e, conv_mode=mode)
                rf = ref.RefCCA(cfg, external=e, conv_mode=mode)
                for gk, gr in grid_family((2, e, 6, 5), ("irr", "irr2", "dot")).items():
                    drive(ctx, ca, rf, gr, "channels", "ext=%d %s %s dt=%s %s" % (e, mode, kern, dt, gk), steps=2)
            except Skip:
                pass
    elif k == "internal":
        for e, n in ((1, 2), (1, 3), (2, 2), (2, 4), (3, 3), (4, 4), (4, 8), (2, 3), (3, 2), (5, 5), (1, 8), (1, 9), (2, 10), (9, 9), (1, 12)):
            for base in (("gm4", "gaus1"), ("poly", "si2")):
                cfg = F.config("gauss3", "none", base[0], base[1], dt=0.3)
                extra = [(fns[(3 * i + 1) % len(fns)], fns[(5 * i + 2) % len(fns)]) for i in range(n - 1)]
                try:
                    with ctx.guard("internal", [e, n]):
                        ca = F.build("CCA", cfg, external_channels=e, internal_channels=n)
                        for g, p in extra:
                            ca.add_genesis_fn(F.fn_cfg(g))
                            ca.add_persistence_fn(F.fn_cfg(p))
                        ca.no_grad()
                    gens = [base[0]] + [g for g, _ in extra]
                    pers = [base[1]] + [p for _, p in extra]
                    for gk, gr in grid_family((2, e, 7, 9), ("irr", "irr2")).items():
                        t = T(gr)
                        with ctx.guard("internal", [e, n, gk]):
                            out = N(ca(t))
                        x = ref.alive(N(t))
                        kk = ref.kernel(cfg["neighborhood_kernel_config"])
                        nb = ref.conv(x, kk, n)
                        idn = ref.conv(x, ref.kernel({"name": "InnerMoore"}), n)
                        upd = sum((1 - idn[:, i]) * ref.growth(F.fn_cfg(gens[i]), nb[:, i])
                                  + idn[:, i] * ref.growth(F.fn_cfg(pers[i]), nb[:, i]) for i in range(n)) / (e * n)
                        exp = np.clip(x + 0.3 * upd[:, None], 0, 1)
                        ctx.transitions += 1
                        ctx.traces += 1
                        ctx.visit((e, n, gk, base, out.round(4).tobytes()))
                        ctx.expect(maxdiff(out, exp) <= TOL, "internal",
                                   lambda: "channels %d external %d internal: update differs by %g" % (e, n, maxdiff(out, exp)))
                except Skip:
                    pass
    elif k == "half":
        for e in (1, 4):
            cfg = F.config("gauss1", "none", "gaus0", "gaus0", dt=0.5)
            cfg["genesis_config"]["sigma"] = 0.4
            cfg["genesis_config"]["mode"] = 1
            try:
                ca = F.build("CCA", cfg, external_channels=e)
                rf = ref.RefCCA(cfg, external=e)
                for gk, gr in grid_family((1, e, 6, 6)).items():
                    t = T(gr).to(torch.float16)
                    with ctx.guard("half", gk):
                        out = ca(t)
                    ctx.expect(out.dtype == torch.float16, "half", "half-precision grid came back as %s" % out.dtype)
                    exp = rf.step(N(t))
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.visit(("half", e, gk))
                    ctx.expect(maxdiff(N(out), exp) < 8e-3, "half", lambda: "half precision step off by %g (%s)" % (
                        maxdiff(N(out), exp), gk))
            except Skip:
                pass
    elif k == "frames":
        for kern, idk, gen, per in itertools.product(("gauss3", "moore1", "smooth4"), ("none", "smooth"), ("gm4", "si1"), ("gaus1", "poly")):
            cfg = F.config(kern, idk, gen, per, dt=0.4)
            try:
                for (gk, gr), (b, e, cm) in itertools.product((("irr", 0), ("dot", 0)), ((1, 1, "circular"), (3, 1, "circular"), (2, 4, "circular"), (1, 5, "zeros"), (2, 1, "reflect"))):
                    gr = grid_family((b, e, 9, 10), (gk,))[gk]
                    rf = ref.RefCCA(cfg, external=e, conv_mode=cm)
                    with ctx.guard("frames", [kern, idk, gen, per, gk, b, e, cm]):
                        ca = F.build("CCA", cfg, external_channels=e, conv_mode=cm)
                        t = T(gr)
                        o = [ca.get_frame(t, mode=m) for m in range(5)]
                        fwd = ca(t)
                    x = ref.alive(N(t), rf.thr)
                    nb, upd = rf.parts(x)
                    new = rf.step(x)
                    want = {0: [new], 1: [new, nb], 2: [new, upd], 3: [new, nb, upd], 4: [new, x, nb, upd]}
                    for m in range(5):
                        got = [o[m]] if m == 0 else list(o[m])
                        ctx.transitions += 1
                        ok = len(got) == len(want[m]) and all(
                            maxdiff(N(a), b) <= (TOL if j == 0 else 1e-3) for j, (a, b) in enumerate(zip(got, want[m])))
                        ctx.expect(ok, "frames", "frame mode %d does not return the documented grids (%s)" % (m, (kern, idk, gen, per)))
                    ctx.expect(maxdiff(N(fwd), N(o[0])) < 1e-6, "frames", "a frame and a step disagree on the next state")
                    ctx.traces += 1
                    ctx.visit((kern, idk, gen, per, gk, b, e, cm))
            except Skip:
                pass
    elif k == "full":
        for idk in F.IDK:
            for per in fns:
                for dt in (0.07, 1.0):
                    cfg = F.config(u["kernel"], idk, u["gen"], per, dt=dt)
                    try:
                        with ctx.guard("step", [u, idk, per]):
                            ca = F.build("CCA", cfg)
                        rf = ref.RefCCA(cfg)
                        for gk, gr in grid_family((1, 1, 9, 11), ("dot", "irr", "stripe", "ramp")).items():
                            drive(ctx, ca, rf, gr, "step", "%s %s %s dt=%s %s" % (u, idk, per, dt, gk), steps=4)
                    except Skip:
                        pass
    ctx.sample({"unit": u, "states": ctx.states})
