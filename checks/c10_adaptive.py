"""C10: adaptive Euler controller against a reference controller driving a plain fixed-step automaton."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F, models as M
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C10"
RULE = ("states = (configuration, limits, threshold, previous step, grid); transition = one adaptive step: accepted step must be in the "
        "reference controller's set (one element unless an error is within 2% of the threshold), grid = plain step with it, "
        "elapsed time and remembered step updated; traces = 4 chained steps")
ASSUMPTIONS = ["the reference controller measures its errors with a plain fixed-step continuous automaton of the tree (that stepping is "
               "itself decided by C02) because relative errors of tiny cells are float32-sensitive",
               "decisions within 2% of the threshold may go either way"]


def units(tier, seed):
    kern = ("gauss3", "moore1", "smooth4") if tier == "quick" else tuple(F.KERNELS)
    return [{"kernel": k, "gen": g, "ext": e} for k in kern for g in ("gm4", "si1", "poly", "gaus1") for e in (1, 2, 4)]


def run_unit(u, ctx):
    e = u["ext"]
    cfg = F.config(u["kernel"], "none", u["gen"], "gaus1", dt=0.1)
    plain = F.build("CCA", cfg, external_channels=e)

    def pstep(t, dt):
        plain.set_dt(float(dt))
        with torch.no_grad():
            return plain(t)

    def allowed(t, prev, mx, mn, thr):
        out = []
        cur = min(prev * 2, mx)
        while cur >= mn * (1 - 1e-9):
            if abs(cur - mn) < 1e-9 * mn:
                out.append(mn)
            big = N(pstep(t, cur))
            small = N(pstep(pstep(t, cur * 0.5), cur * 0.5))
            m = small > 0
            err = float((np.abs(big - small)[m] / small[m]).max()) if m.any() else 0.0
            if err < thr * 1.02:
                out.append(cur)
            if err < thr * 0.98:
                return out, err
            cur *= 0.75
        return out + [mn], None

    lims = [(0.5, 0.01), (0.5, 0.3), (1.0, 0.2), (0.1, 0.1), (2.0, 0.05)]
    prevs = (0.3, 0.05, 0.9, 0.004)
    thrs = (1e-3, 1e-1, 1e-2, 0.0)
    for (mx, mn), prev, thr in itertools.product(lims, prevs, thrs):
        if thr == 0.0 and mn < 0.05:
            continue
        for gk, g in grid_family((2, e, 7, 6), ("irr", "irr2", "zeros")).items():
            what = "%s max=%s min=%s prev=%s thr=%s %s" % (u, mx, mn, prev, thr, gk)
            with suppress(Skip):
                with ctx.guard("adaptive", what):
                    ca = F.build("CODE", cfg, external_channels=e, max_dt=mx, min_dt=mn, prev_dt=prev, error_threshold=thr)
                t, tt, p = T(g), 0.0, prev
                for s in range(4 if gk != "zeros" else 2):
                    pre = t.clone()
                    ok, _ = allowed(pre, p, mx, mn, thr)
                    with ctx.guard("adaptive", what):
                        t = ca(t)
                        dt, now = float(ca.get_dt()), float(ca.t_count)
                    ctx.transitions += 1
                    ctx.visit((what, s, round(dt, 6)))
                    ctx.outcome(round(dt, 4))
                    ctx.expect(any(abs(dt - a) <= 1e-6 * max(1, a) for a in ok), "adaptive:choice",
                               "%s step %d accepted dt=%g, the controller admits %s" % (what, s, dt, ok))
                    ctx.expect(maxdiff(N(t), N(pstep(pre, dt))) <= 1e-5, "adaptive:grid",
                               "%s step %d: grid is not the plain update with the accepted dt %g" % (what, s, dt))
                    tt += dt
                    ctx.expect(abs(now - tt) < 1e-5, "adaptive:time", "%s step %d: elapsed %g, accepted steps sum to %g" % (what, s, now, tt))
                    p = dt
                ctx.traces += 1
    ctx.sample({"unit": u, "states": ctx.states})
