"""A01: entropies of all small grids against a dictionary-counting oracle."""
import itertools
import math
from collections import Counter
from contextlib import suppress
import numpy as np
import torch
from mc.core import Skip

PROPERTY = "A01"
RULE = ("states = all grids of the given shapes over the given level sets, in several number types and affine scalings; transition = one "
        "entropy call (whole grid, each window, each direction, four directions), compared with exact counting")
ASSUMPTIONS = ["tolerance 1e-5 bits", "levels of the enumerated grids fall in different bins of the 256",
               "windows have odd side; the plain spatial entropy cuts windows at the border, the analyser's wraps them around"]
LEVELS = {2: (0.0, 1.0), 3: (0.0, 0.4, 1.0), 4: (0.0, 0.25, 0.6, 1.0)}
TOL = 1e-5


def bins(g):
    g = np.asarray(g, dtype=np.float64)
    lo, hi = g.min(), g.max()
    if hi == lo:
        return np.zeros(g.shape, dtype=int)
    return np.floor(255 * (g - lo) / (hi - lo) + 1e-6).astype(int)


def H(counts):
    n = sum(counts.values())
    return -sum(c / n * math.log2(c / n) for c in counts.values() if c)


def ent(g):
    return H(Counter(bins(g).ravel().tolist()))


STEP = [(-1, 0), (0, 1), (1, 0), (0, -1)]       # above, right, below, left


def cond(g, d):
    b = bins(g)
    h, w = b.shape
    pairs = Counter()
    nb = Counter()
    for i in range(h):
        for j in range(w):
            o = int(b[(i + STEP[d][0]) % h, (j + STEP[d][1]) % w])
            pairs[(int(b[i, j]), o)] += 1
            nb[o] += 1
    return H(pairs) - H(nb)


def clipped(g, win):
    k = (win - 1) // 2
    h, w = g.shape
    return np.array([[ent(g[max(0, i - k):i + k + 1, max(0, j - k):j + k + 1]) for j in range(w)] for i in range(h)])


def wrapped(g, win):
    k = (win - 1) // 2
    h, w = g.shape
    r = range(-k, k + 1)
    return np.array([[ent(np.array([[g[(i + a) % h, (j + b) % w] for b in r] for a in r])) for j in range(w)] for i in range(h)])


def near(a, b):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and not np.isnan(a).any() and bool((np.abs(a - b) <= TOL).all())


def grids(h, w, lv):
    for t in itertools.product(LEVELS[lv], repeat=h * w):
        yield np.array(t).reshape(h, w)


def one(ctx, an, ph, g, spatial, conditional, tr):
    with ctx.guard("entropy", tr):
        e, e2 = an.get_grid_entropy(g), ph.get_grid_entropy(g)
    want = ent(g)
    ctx.transitions += 2
    ctx.outcome(round(want, 6))
    ctx.expect(near(e, want), "entropy", lambda: "entropy %r, exact %r of %s" % (e, want, g.tolist()), tr)
    ctx.expect(near(e2, want), "entropy:analyser", lambda: "entropy %r, exact %r of %s" % (e2, want, g.tolist()), tr)
    if conditional:
        ws = [cond(g, d) for d in range(4)]
        for d in range(4):
            with ctx.guard("conditional", tr):
                c = an.get_conditional_grid_entropy(g, direction=d)
            ctx.transitions += 1
            ctx.expect(near(c, ws[d]), "conditional", lambda: "conditional entropy given direction %d is %r, exact %r of %s" % (d, c, ws[d], g.tolist()), tr)
        if conditional > 1:
            with ctx.guard("multi", tr):
                m = an.get_multiconditional_grid_entropy(g)
            ctx.transitions += 1
            ctx.expect(near(m, sum(ws) / 4), "multi", lambda: "four-direction entropy %r, exact %r of %s" % (m, sum(ws) / 4, g.tolist()), tr)
    for win in spatial:
        with ctx.guard("spatial", tr):
            s = an.get_spatial_entropy(g, window_size=win)
            s2 = ph.get_spatial_entropy(g, window_size=win)
        ctx.transitions += 2
        w1, w2 = clipped(g, win), wrapped(g, win)
        ctx.expect(near(s, w1), "spatial", lambda: "window %d: %s, exact %s of %s" % (win, np.asarray(s).tolist(), w1.tolist(), g.tolist()), tr)
        ctx.expect(near(s2, w2), "spatial:analyser", lambda: "window %d: %s, exact %s of %s" % (win, np.asarray(s2).tolist(), w2.tolist(), g.tolist()), tr)


def run_unit(u, ctx):
    from yuca import analyze as an
    ph = an.Phanes()
    if u["kind"] == "all":
        for i, g in enumerate(grids(u["h"], u["w"], u["lv"])):
            if i % u["of"] != u["part"]:
                continue
            with suppress(Skip):
                keep = g.copy()
                ctx.visit(("g", g.tobytes(), g.shape))
                one(ctx, an, ph, g, u["spatial"], 2 if i % 7 == 0 else 1, g.tolist())
                ctx.expect(np.array_equal(g, keep), "grid-changed", "the grid was changed", g.tolist())
                ctx.traces += 1
    elif u["kind"] == "types":
        for g in grids(2, u["w"], 3):
            for name, f in (("f32", lambda x: x.astype(np.float32)), ("int", lambda x: np.round(10 * x).astype(np.int64)),
                            ("u8", lambda x: np.round(250 * x).astype(np.uint8)), ("neg", lambda x: -3.0 * x + 1), ("big", lambda x: 1e3 * x + 5e3),
                            ("small", lambda x: 0.01 * x + 0.3), ("tiny", lambda x: 1e-7 * x), ("thin", lambda x: 1e-5 * x + 0.5), ("huge", lambda x: 1e7 * x - 3e6)):
                if name != u["name"]:
                    continue
                with suppress(Skip):
                    x = f(g)
                    ctx.visit((name, g.tobytes()))
                    one(ctx, an, ph, x, (1, 3), 1 if name in ("int", "neg") else 0, [name, g.tolist()])
                    ctx.traces += 1
    elif u["kind"] == "levels":
        # 256 levels: values in one bin are equal, values in different bins are not
        for n, k in itertools.product((2, 3, 5, 16, 64, 128, 255), (0, 1, 2)):
            with suppress(Skip):
                v = [(int(255 * i / n) + 0.3 + 0.1 * (i * k % 3)) / 255 for i in range(n)]
                g = np.array([0.0, 1.0] + v * 2)
                g = np.concatenate([g, g[: (-len(g)) % 4]]).reshape(-1, 4)
                with ctx.guard("entropy", [n, k]):
                    e = an.get_grid_entropy(g)
                ctx.transitions += 1
                ctx.visit((n, k))
                ctx.expect(near(e, ent(g)), "levels", lambda: "entropy %r, exact %r with %d levels" % (e, ent(g), n), [n, k])
                for d in range(4):
                    with ctx.guard("conditional", [n, k]):
                        c = an.get_conditional_grid_entropy(g, direction=d)
                    ctx.transitions += 1
                    ctx.expect(near(c, cond(g, d)), "levels:conditional", "direction %d: %r, exact %r" % (d, c, cond(g, d)), [n, k, d])
                ctx.traces += 1
    else:
        # batches: every sample and channel on its own
        # (3x3 and 3x4: on 2x2 grids mirroring and wrapping are the same)
        gs = list(grids(u["h"], u["w"], u["lv"]))[::u["every"]]
        for c in (1, 2):
            for i in range(u["part"], len(gs), u["of"]):
                with suppress(Skip):
                    b = np.stack([np.stack([gs[(i + 5 * a + 3 * k) % len(gs)] for k in range(c)]) for a in range(2)])
                    for win in (1, 3):
                        for t in (torch.tensor(b.tolist()), b):
                            with ctx.guard("batch", [i, c, win]):
                                s = ph.get_spatial_entropy(t, window_size=win)
                            ctx.transitions += 1
                            ctx.visit((i, c, win))
                            w = np.array([[wrapped(b[a, k], win) for k in range(c)] for a in range(2)])
                            ctx.expect(near(s, w), "batch", "sample/channel entropies differ from those of the single grids", [i, c, win])
                    ctx.traces += 1
    ctx.sample({"unit": u, "states": ctx.states})


def units(tier, seed):
    th = tier == "thorough"
    us = []

    def add(h, w, lv, spatial, of=4):
        us.extend(dict(kind="all", h=h, w=w, lv=lv, spatial=spatial, part=p, of=of) for p in range(of))
    add(1, 1, 2, [1, 3], 1)
    add(2, 2, 4, [1, 3, 5], 4)
    add(2, 3, 3, [3], 8)
    add(1, 4, 3, [3], 2)
    add(4, 1, 3, [3], 2)
    add(3, 3, 2, [3], 8)
    if th:
        add(3, 3, 3, [], 64)
        add(3, 4, 2, [3], 32)
        add(2, 3, 4, [3], 32)
        add(4, 2, 3, [5], 32)
    us += [dict(kind="types", name=n, w=3 if th else 2) for n in ("f32", "int", "u8", "neg", "big", "small", "tiny", "thin", "huge")]
    us += [dict(kind="levels")] + [dict(kind="batch", h=2, w=2, lv=3, every=1, part=p, of=4) for p in range(4)]
    us += [dict(kind="batch", h=h, w=w, lv=2, every=1 if th else v, part=p, of=8) for h, w, v in ((3, 3, 5), (3, 4, 41)) for p in range(8)]
    return us
