"""C01: Life-like rule sets run the exact Life-like automaton (explicit-state, all grids of small tori)."""
import itertools
import os
import numpy as np
import torch

from mc import ref
from mc.core import REPO, Skip

PROPERTY = "C01"
RULE = ("states = (rule, torus size, grid) for every binary grid of the torus; transition = one real CA step, compared "
        "cell for cell and bit for bit with the table automaton; successors are exactly binary, so one-step agreement "
        "on all states closes the whole reachable graph; plus single-instance trajectories")
ASSUMPTIONS = ["rules: every birth set and every survival set over 0..8 appears (512 pairs on 3x3), named rules on larger tori",
               "one step from every state of the torus + exactly binary successors => all step counts, by induction"]

NAMED = {"conway": ([3], [2, 3]), "morley": ([3, 6, 8], [2, 4, 5]), "highlife": ([3, 6], [2, 3]),
         "seeds": ([2], []), "b0": ([0, 3], [1, 8]), "daynight": ([3, 6, 7, 8], [3, 4, 6, 7, 8]),
         "replicator": ([1, 3, 5, 7], [1, 3, 5, 7]), "lwd": ([3], [0, 1, 2, 3, 4, 5, 6, 7, 8]),
         "none": ([], []), "all": (list(range(9)), list(range(9))), "rev": ([8, 3], [5, 2, 4])}


def sub(m):
    return [i for i in range(9) if m >> i & 1]


def units(tier, seed):
    us = []
    for lo in range(0, 512, 32):
        us.append({"kind": "pairs", "lo": lo, "hi": lo + 32})
    shapes = [(2, 2), (2, 3), (3, 4), (4, 3), (2, 5)]
    for nm in NAMED:
        us.append({"kind": "named", "rule": nm, "shapes": shapes})
        us.append({"kind": "named", "rule": nm, "shapes": [(4, 4)]})
    us.append({"kind": "traj"})
    us.append({"kind": "channels"})
    us.append({"kind": "shipped"})
    if tier == "thorough":
        for nm in NAMED:
            for part in range(8):
                us.append({"kind": "big", "rule": nm, "shape": (4, 5), "part": part, "of": 8})
            us.append({"kind": "named", "rule": nm, "shapes": [(3, 5), (5, 3), (6, 3)]})
        for k in range(1, 16):
            for lo in range(0, 512, 128):
                us.append({"kind": "pairs", "lo": lo, "hi": lo + 128, "mul": 2 * k + 1})
    return us


def all_grids(h, w, lo=0, hi=None):
    hi = 2 ** (h * w) if hi is None else hi
    ids = np.arange(lo, hi, dtype=np.int64)
    g = ((ids[:, None] >> np.arange(h * w)[None, :]) & 1).astype(np.float32)
    return g.reshape(-1, 1, h, w)


def make(b, s):
    from yuca.ca.continuous import CCA
    from yuca.configs import get_life_like_config
    ca = CCA()
    ca.load_config(get_life_like_config(birth=b, survival=s))
    ca.no_grad()
    return ca


def compare(ctx, ca, g, b, s, what, frames=False, dtype=None):
    """all grids in g: one real step vs one automaton step, exactly"""
    t = torch.from_numpy(g.copy())
    if dtype is not None:
        t = t.to(dtype)
    with ctx.guard("life", what):
        out = ca.get_frame(t) if frames else ca(t)
    exp = ref.life_step(g, b, s)
    got = out.to(torch.float32).numpy()
    if got.shape != exp.shape:
        ctx.fail("life:shape", "%s: shape %s -> %s" % (what, exp.shape, got.shape), what)
        raise Skip()
    bad = np.nonzero((got != exp).reshape(len(g), -1).any(axis=1))[0]
    if len(bad):
        i = int(bad[0])
        ctx.fail("life:step", "%s: grid\n%s\nexpected successor\n%s\ngot\n%s (%d of %d grids wrong)" % (
            what, g[i, 0].astype(int), exp[i, 0].astype(int), got[i, 0], len(bad), len(g)),
            {"what": what, "grid": g[i].tolist()})
        raise Skip()
    ctx.states += len(g)
    ctx.transitions += len(g)
    ctx.traces += len(g)
    ctx.outcome(exp.sum())
    return exp


def run_unit(u, ctx):
    try:
        _run(u, ctx)
    except Skip:
        pass


def _run(u, ctx):
    k = u["kind"]
    if k == "pairs":
        g = all_grids(3, 3)
        for m in range(u["lo"], u["hi"]):
            b, s = sub(m), sub((m * u.get("mul", 1) + 0b101100110) % 512 if "mul" in u else m ^ 0b101100110)
            with ctx.guard("life", [b, s]):
                ca = make(b, s)
            compare(ctx, ca, g, b, s, "B%s/S%s 3x3" % (b, s))
        ctx.sample("last rule B%s/S%s: all 512 grids of the 3x3 torus agree" % (b, s))
    elif k == "named":
        b, s = NAMED[u["rule"]]
        for (h, w) in u["shapes"]:
            with ctx.guard("life", [b, s]):
                ca = make(b, s)
            g = all_grids(h, w)
            for lo in range(0, len(g), 16384):
                compare(ctx, ca, g[lo:lo + 16384], b, s, "B%s/S%s %dx%d" % (b, s, h, w))
            if h * w <= 9:
                compare(ctx, ca, g, b, s, "B%s/S%s %dx%d frame" % (b, s, h, w), frames=True)
                compare(ctx, ca, g, b, s, "B%s/S%s %dx%d half precision" % (b, s, h, w), dtype=torch.float16)
    elif k == "big":
        b, s = NAMED[u["rule"]]
        h, w = u["shape"]
        n = 2 ** (h * w) // u["of"]
        ca = make(b, s)
        for lo in range(u["part"] * n, (u["part"] + 1) * n, 32768):
            compare(ctx, ca, all_grids(h, w, lo, lo + 32768), b, s, "B%s/S%s %dx%d" % (b, s, h, w))
    elif k == "traj":
        rng = np.random.RandomState(ctx.seed)
        glider = np.zeros((1, 1, 8, 8), np.float32)
        for (i, j) in ((0, 1), (1, 2), (2, 0), (2, 1), (2, 2)):
            glider[0, 0, i, j] = 1
        for nm, (b, s) in NAMED.items():
            with ctx.guard("life", nm):
                ca = make(b, s)
            for st in (glider, (rng.rand(2, 1, 9, 7) < 0.4).astype(np.float32), np.ones((1, 1, 6, 11), np.float32)):
                g = st
                for step in range(40):
                    g = compare(ctx, ca, g, b, s, "%s trajectory step %d" % (nm, step))
        # glider really travels: 4 steps = shift by (1,1); 32 steps around the 8-torus
        ca = make(*NAMED["conway"])
        t = torch.from_numpy(glider.copy())
        for step in range(1, 33):
            t = ca(t)
            if step % 4 == 0:
                ctx.expect(np.array_equal(t.numpy(), np.roll(glider, (step // 4, step // 4), (2, 3))), "life:glider",
                           "Conway glider not displaced by one cell diagonally every 4 steps (step %d)" % step)
    elif k == "channels":
        # batches mix nothing: the same grids alone and batched
        ca = make(*NAMED["conway"])
        g = all_grids(3, 3)
        with ctx.guard("life", "batch"):
            whole = ca(torch.from_numpy(g.copy())).numpy()
            for i in range(0, 512, 7):
                one = ca(torch.from_numpy(g[i:i + 1].copy())).numpy()
                ctx.transitions += 1
                ctx.expect(np.array_equal(one[0], whole[i]), "life:batch", "grid %d differs alone and in a batch" % i)
        # one instance re-configured between rules
        from yuca.configs import get_life_like_config
        for (n1, (b1, s1)), (n2, (b2, s2)) in itertools.product(list(NAMED.items())[:6], repeat=2):
            with ctx.guard("life", [n1, n2]):
                ca = make(b1, s1)
                ca(torch.from_numpy(g[:4].copy()))
                ca.load_config(get_life_like_config(birth=b2, survival=s2))
                ca.no_grad()
            compare(ctx, ca, g, b2, s2, "reconfigured %s -> %s" % (n1, n2))
    elif k == "shipped":
        from yuca.ca.continuous import CCA
        from yuca.lenia import Lenia
        for f, rule in (("conway_life.npy", "conway"), ("morley.npy", "morley")):
            b, s = NAMED[rule]
            for path in (f, os.path.join(REPO, "ca_configs", f)):
                with ctx.guard("life", f):
                    ca = CCA()
                    ca.restore_config(path)
                    ca.no_grad()
                compare(ctx, ca, all_grids(3, 3), b, s, "shipped " + f)
                compare(ctx, ca, all_grids(3, 4), b, s, "shipped " + f)
            with ctx.guard("life", f):
                ca = CCA(ca_config=f)
                ca.no_grad()
            compare(ctx, ca, all_grids(3, 3), b, s, "constructor " + f)
