"""C11: random stepping with the random source enumerated."""
import contextlib
import itertools
import random
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F, models as M
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "C11"
RULE = ("states = (configuration, bounds, sequence of random draws from a 7-letter alphabet of [0,1) incl. both ends, grid); all draw "
        "sequences up to length 3; transition = one step with the enumerated draw")
ASSUMPTIONS = ["uniform [0,1) draws of numpy, random or torch are replaced by the enumerated value"]
DRAWS = (0.0, 1e-6, 0.25, 0.5, 0.75, 0.9, 1 - 1e-9)


@contextlib.contextmanager
def source(nxt):
    def uni(low=0.0, high=1.0, size=None):
        return low + (high - low) * nxt() if size is None else np.full(size, low + (high - low) * nxt())

    def rnd(*a, **k):
        return nxt() if not a and not k.get("size") else np.full(a or k.get("size"), nxt())

    def trand(*a, **k):
        shape = a[0] if a and isinstance(a[0], (tuple, list)) else a
        return torch.full(tuple(shape), float(min(nxt(), 1 - 2 ** -24)))
    saved = [(np.random, n, getattr(np.random, n)) for n in ("rand", "random", "random_sample", "uniform")]
    saved += [(random, n, getattr(random, n)) for n in ("random", "uniform")] + [(torch, "rand", torch.rand)]
    try:
        for n in ("rand", "random", "random_sample"):
            setattr(np.random, n, rnd)
        np.random.uniform = uni
        random.random = lambda: nxt()
        random.uniform = lambda a, b: a + (b - a) * nxt()
        torch.rand = trand
        yield
    finally:
        for o, n, f in saved:
            setattr(o, n, f)


def units(tier, seed):
    L = 3 if tier == "quick" else 4
    return [{"kind": "draw", "kernel": k, "gen": g, "ext": e, "len": L} for k, g in (("gauss3", "gm4"), ("moore1", "si1")) for e in (1, 2, 4)] + \
        [{"kind": "seed"}]


def run_unit(u, ctx):
    if u["kind"] == "seed":
        cfg = F.config("gauss3", "none", "gm4", "gaus1")
        g = T(grid_family((1, 1, 8, 8), ("irr",))["irr"])
        for sd in range(20):
            runs = []
            with suppress(Skip):
                for _ in (0, 1):
                    with ctx.guard("seed", sd):
                        ca = F.build("RandomStepCA", cfg)
                        M.reseed(sd)
                        random.seed(sd)
                        t, dts = g, []
                        for _ in range(10):
                            t = ca(t)
                            dts.append(ca.get_dt())
                            ctx.transitions += 1
                    runs.append((dts, N(t)))
                ctx.expect(runs[0][0] == runs[1][0] and maxdiff(runs[0][1], runs[1][1]) == 0, "seed", "seed %d: two runs drew different steps" % sd)
                ctx.expect(len(set(runs[0][0])) == 10, "seed:fresh", "seed %d: repeated steps %s" % (sd, runs[0][0]))
                ctx.expect(all(0.05 - 1e-9 <= d <= 0.25 + 1e-9 for d in runs[0][0]), "bounds", "step outside [0.05, 0.25]: %s" % runs[0][0])
                ctx.visit(sd)
                ctx.traces += 1
        return
    e = u["ext"]
    cfg = F.config(u["kernel"], "none", u["gen"], "gaus1")
    g = grid_family((1, e, 6, 7), ("irr",))["irr"]
    for lo, hi in ((0.05, 0.25), (0.1, 0.1), (0.0, 1.0), (0.01, 0.5)):
        seen = []
        for seq in itertools.product(DRAWS, repeat=u["len"]):
            what = "%s bounds=(%s,%s) draws=%s" % (u, lo, hi, seq)
            with suppress(Skip):
                it = iter(seq)
                last = [0.5]

                def nxt():
                    last[0] = next(it, last[0])
                    return last[0]
                with ctx.guard("random", what):
                    ca = F.build("RandomStepCA", cfg, external_channels=e)
                    ca.min_dt, ca.max_dt = lo, hi
                rf = ref.RefCCA(cfg, external=e)
                t, tt = T(g), 0.0
                for s, d in enumerate(seq):
                    pre = N(t)
                    with ctx.guard("random", what):
                        with source(nxt):
                            t = ca(t)
                        dt, now = float(ca.get_dt()), float(ca.t_count)
                    rf.dt = dt
                    tt += dt
                    seen.append(dt)
                    ctx.transitions += 1
                    ctx.visit((what, s))
                    ctx.outcome(round(dt, 4))
                    ctx.expect(lo - 1e-9 <= dt <= hi + 1e-9, "random:bounds", "%s: step %g outside the bounds" % (what, dt))
                    ctx.expect(maxdiff(N(t), rf.step(pre)) <= 2e-4, "random:grid",
                               "%s: call %d returned a grid that is not the update with the reported dt %g" % (what, s, dt))
                    ctx.expect(abs(now - tt) < 1e-6, "random:time", "%s: elapsed %g, steps sum to %g" % (what, now, tt))
                ctx.traces += 1
        ctx.expect(abs(min(seen) - lo) < 1e-4 and abs(max(seen) - hi) < 1e-4, "random:cover",
                   "steps over all draws cover [%g, %g], bounds are [%g, %g]" % (min(seen), max(seen), lo, hi))
        ctx.expect(lo == hi or len(set(seen)) >= len(DRAWS), "random:fresh", "only %d distinct steps over all draws" % len(set(seen)))
    ctx.sample({"unit": u, "states": ctx.states})
