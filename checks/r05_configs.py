"""R05: ready-made configurations hold the documented rules, fresh on every call."""
import copy
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F
from mc.util import T, N, same, maxdiff, grid_family
from mc.core import Skip

PROPERTY = "R05"
RULE = ("states = (builder, arguments): all 512 birth and 512 survival subsets, radii 1..31, interval lists, positional and keyword forms; plus "
        "every sequence of builder calls up to depth 3 with every earlier result overwritten in place; transition = one call")
ASSUMPTIONS = ["growth functions are compared by their values on a dense input grid, so equal intervals given in another order or container pass",
               "an empty rule list means growth is -1 everywhere in the signed mode"]
XS = np.linspace(-0.05, 1.05, 221)


def units(tier, seed):
    return [{"kind": "life", "part": p} for p in range(8)] + [{"kind": "smooth"}, {"kind": "named"}, {"kind": "seq"}, {"kind": "live"}]


def fn_value(c):
    """the growth function the library makes of a growth configuration"""
    from yuca.ca.continuous import CCA
    ca = CCA()
    ca.genesis_fns = []
    ca.add_genesis_fn(c)
    with torch.no_grad():
        return N(ca.genesis_fns[0](T(XS.reshape(1, 1, 1, -1)))).ravel()


def kernel_value(c):
    from yuca.kernels import get_kernel
    return N(get_kernel(copy.deepcopy(c)))[0, 0]


def si(iv, alpha):
    return ref.growth({"name": "SmoothIntervals", "parameters": iv, "alpha": alpha, "mode": 1}, XS)


def life_iv(r):
    return [[(b - 0.5) / 8, (b + 0.5) / 8] for b in r]


def ring(r, lo, hi):
    """cells with lo <= distance/r < hi, normalised"""
    return ref.kernel({"name": "SmoothLifeKernel", "radius": r, "kernel_kwargs": {"r_a": hi, "r_i": lo}})


def expect_life(ctx, c, r, b, s, tr):
    what = "life-like configuration %s" % (tr,)
    with ctx.guard("life", tr):
        k = kernel_value(c["neighborhood_kernel_config"])
        g, p = fn_value(c["genesis_config"]), fn_value(c["persistence_config"])
    w = np.full((2 * r + 1, 2 * r + 1), 1.0 / ((2 * r + 1) ** 2 - 1))
    w[r, r] = 0
    ctx.expect(maxdiff(k, w) < 1e-6, "life:kernel", what + ": not the Moore neighbourhood", tr)
    ctx.expect(float(c.get("dt", -1)) == 1.0, "life:dt", what + ": dt %s" % c.get("dt"), tr)
    idk = c.get("identity_kernel_config")
    ctx.expect(idk is None or maxdiff(kernel_value(idk), np.eye(3) * np.diag([0, 1, 0])) < 1e-6 or idk["name"] == "InnerMoore", "life:identity", what + ": identity kernel", tr)
    alpha = float(c["genesis_config"].get("alpha", 0.01))
    for name, got, rule in (("genesis", g, b), ("persistence", p, s)):
        m = np.zeros(9)
        for i in range(9):      # value at every count
            m[i] = np.interp(i / 8.0, XS, got)
        w = np.array([1.0 if i in rule else -1.0 for i in range(9)])
        ctx.expect(maxdiff(np.round(m), w) == 0 and maxdiff(m, w) < 0.05, "life:" + name, what + ": %s values at counts %s, rule %s" % (name, np.round(m, 3), rule), tr)
        # the interval edges are half way between counts
        iv = np.array(life_iv(rule)).reshape(-1, 2)
        inside = np.zeros_like(XS, dtype=bool)
        for lo, hi in iv:
            inside |= (XS > lo + 0.012) & (XS < hi - 0.012)
        outside = np.ones_like(XS, dtype=bool)
        for lo, hi in iv:
            outside &= (XS < lo - 0.012) | (XS > hi + 0.012)
        ctx.expect((got[inside] > 0).all() and (got[outside] < 0).all(), "life:edges", what + ": %s intervals are not (count +- 1/2)/8" % name, tr)


def smooth_expect(ctx, c, r, bi, si_, tr):
    what = "smoothlife configuration %s" % (tr,)
    with ctx.guard("smooth", tr):
        k, i = kernel_value(c["neighborhood_kernel_config"]), kernel_value(c["identity_kernel_config"])
        g, p = fn_value(c["genesis_config"]), fn_value(c["persistence_config"])
    ctx.expect(k.shape == (2 * r + 1,) * 2 and maxdiff(k, ring(r, 1 / 3., 1.05)) < 1e-6, "smooth:kernel", what + ": neighbourhood ring", tr)
    ctx.expect(maxdiff(i, ring(r, 0.0, 1 / 3.)) < 1e-6, "smooth:identity", what + ": identity disc", tr)
    ctx.expect(maxdiff(g, si(bi, 0.028)) < 1e-3, "smooth:genesis", what + ": birth intervals", tr)
    ctx.expect(maxdiff(p, si(si_, 0.147)) < 1e-3, "smooth:persistence", what + ": survival intervals", tr)
    ctx.expect(float(c.get("dt", -1)) == 1.0, "smooth:dt", what + ": dt", tr)


def named_expect(ctx, c, which, r, tr):
    what = "%s configuration %s" % (which, tr)
    with ctx.guard(which, tr):
        k = kernel_value(c["neighborhood_kernel_config"])
        g, p = fn_value(c["genesis_config"]), fn_value(c["persistence_config"])
    if which == "orbium":
        kc, par = {"name": "Gaussian", "radius": r, "kernel_kwargs": {"mu": 0.5, "sigma": 0.15}}, [0.15, 0.015]
    else:
        kc = {"name": "GaussianMixture", "radius": r, "kernel_kwargs": {"parameters": [0.5, 0.093809, 0.033, 1.0, 0.28143, 0.033, 2 / 3.0, 0.46904, 0.033]}}
        par = [0.26, 0.036]
    ctx.expect(k.shape == (2 * r + 1,) * 2 and maxdiff(k, ref.kernel(kc)) < 2e-5, which + ":kernel", what + ": kernel", tr)
    w = ref.growth({"name": "Gaussian", "mu": par[0], "sigma": par[1], "mode": 1}, XS)
    ctx.expect(maxdiff(g, w) < 1e-3 and maxdiff(p, w) < 1e-3, which + ":growth", what + ": growth", tr)
    ctx.expect(c["genesis_config"] is not c["persistence_config"], which + ":alias", what + ": genesis and persistence are one object", tr)


def scramble(x):
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
            if isinstance(x[k], (int, float)):
                x[k] = x[k] * 3 + 1
    elif isinstance(x, torch.Tensor):
        if x.numel():
            x += 0.37
    elif isinstance(x, list):
        x.append(7)


def run_unit(u, ctx):
    from yuca import configs as C
    if u["kind"] == "life":
        subs = [[i for i in range(9) if (m >> i) & 1] for m in range(512)]
        part = subs[u["part"]::8]
        for n, b in enumerate(part):
            for form in range(2):
                with suppress(Skip):
                    s = part[(n * 7 + 3) % len(part)]
                    b_, s_ = list(b), list(s)
                    if form:
                        b_.reverse()
                        s_.reverse()
                    if not b or not s:
                        # an empty rule list cannot be expressed as a tensor of intervals; see C01 for its dynamics
                        pass
                    tr = [b_, s_]
                    with ctx.guard("life", tr):
                        c = C.get_life_like_config(birth=b_, survival=s_) if not form else C.get_life_like_config(1 + n % 3, b_, s_)
                    ctx.expect(b_ == (b if not form else b[::-1]), "life:args", "rule list modified", tr)
                    if b and s:
                        expect_life(ctx, c, 1 if not form else 1 + n % 3, b, s, tr)
                    else:
                        with ctx.guard("life:empty", tr):
                            for cc, rr in ((c["genesis_config"], b), (c["persistence_config"], s)):
                                if not rr:
                                    v = fn_value(cc)
                                    ctx.expect(v.shape == XS.shape and (v < -0.99).all(), "life:empty", "empty rule gives growth %s" % v[:3], tr)
                    ctx.transitions += 1
                    ctx.visit(("life", form, tuple(b_), tuple(s_)))
        with ctx.guard("interval", None):
            for b in part:
                iv = C.get_smooth_interval(b)
                ctx.expect(maxdiff(np.array(iv).reshape(-1, 2), np.array(life_iv(b)).reshape(-1, 2)) < 1e-9, "interval", "get_smooth_interval(%s) = %s" % (b, iv), b)
                ctx.transitions += 1
    elif u["kind"] == "smooth":
        ivs = ([[0.278, 0.365]], [[0.267, 0.445]], [[0.1, 0.2], [0.5, 0.7]], [[0.0, 0.3], [0.4, 0.5], [0.8, 0.95]])
        for r in range(1, 32):
            for bi, su in itertools.product((None,) + ivs, repeat=2):
                with suppress(Skip):
                    tr = [r, bi, su]
                    if r not in (1, 2, 5, 10, 13, 31) and (bi or su):
                        continue
                    with ctx.guard("smooth", tr):
                        c = C.get_smooth_life_config(radius=r, birth_intervals=bi, survival_intervals=su) if r != 10 else (
                            C.get_smooth_life_config(birth_intervals=bi, survival_intervals=su))
                    smooth_expect(ctx, c, r, bi or [[0.278, 0.365]], su or [[0.267, 0.445]], tr)
                    ctx.transitions += 1
                    ctx.visit(repr(tr))
    elif u["kind"] == "named":
        for r in range(1, 41):
            for which in ("orbium", "geminium"):
                with suppress(Skip):
                    with ctx.guard(which, [r]):
                        f = getattr(C, "get_%s_config" % which)
                        c = f(radius=r) if r % 2 else f(r)
                        if r == {"orbium": 13, "geminium": 31}[which]:
                            c = f()
                    named_expect(ctx, c, which, r, [which, r])
                    ctx.transitions += 1
                    ctx.visit((which, r))
    elif u["kind"] == "seq":
        for a, b, c in itertools.product(range(4), repeat=3):
            with suppress(Skip):
                tr = ["calls", a, b, c]
                for n, w in enumerate((a, b, c)):
                    with ctx.guard("seq", tr):
                        if w == 0:
                            cfg = C.get_life_like_config()
                        elif w == 1:
                            cfg = C.get_smooth_life_config()
                        elif w == 2:
                            cfg = C.get_orbium_config()
                        else:
                            cfg = C.get_geminium_config()
                    if w == 0:
                        expect_life(ctx, cfg, 1, [3], [2, 3], tr)
                    elif w == 1:
                        smooth_expect(ctx, cfg, 10, [[0.278, 0.365]], [[0.267, 0.445]], tr)
                    else:
                        named_expect(ctx, cfg, ("orbium", "geminium")[w - 2], (13, 31)[w - 2], tr)
                    ctx.transitions += 1
                    ctx.visit(tuple(tr[:2 + n]))
                    scramble(cfg)
                    cfg["neighborhood_kernel_config"]["radius"] = 3
                ctx.traces += 1
        # the caller's rule lists stay the caller's
        with suppress(Skip), ctx.guard("seq", "lists"):
            b, s = [3], [2, 3]
            c1 = C.get_life_like_config(birth=b, survival=s)
            b.append(6)
            expect_life(ctx, c1, 1, [3], [2, 3], ["lists"])
            expect_life(ctx, C.get_life_like_config(birth=b, survival=s), 1, [3, 6], [2, 3], ["lists", 2])
            iv = [[0.278, 0.365]]
            c2 = C.get_smooth_life_config(birth_intervals=iv)
            iv[0][0] = 0.1
            smooth_expect(ctx, c2, 10, [[0.278, 0.365]], [[0.267, 0.445]], ["lists", 3])
    else:
        # loaded into an automaton they run the rule
        for which, r in itertools.product(("orbium", "geminium", "smooth"), (3, 5, 13)):
            with suppress(Skip):
                tr = ["live", which, r]
                with ctx.guard("live", tr):
                    c = {"orbium": C.get_orbium_config, "geminium": C.get_geminium_config, "smooth": C.get_smooth_life_config}[which](radius=r)
                    ca = F.build("CCA", c)
                    rf = ref.RefCCA(c, external=1)
                    for g in grid_family((1, 1, 28, 29), ("irr", "irr2")).values():
                        o = N(ca(T(g)))
                        ctx.expect(maxdiff(o, rf.step(N(T(g)))) < 5e-4, "live", "%s: step differs by %g" % (tr, maxdiff(o, rf.step(g))), tr)
                        ctx.transitions += 1
    ctx.sample({"unit": u, "states": ctx.states})
