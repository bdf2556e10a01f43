"""R06: a new automaton is what its arguments and the random source say."""
import copy
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import auto as A, evo, family as F, models as M, ref
from mc.util import T, N, grid_family, maxdiff, same
from mc.core import Skip

PROPERTY = "R06"
RULE = ("states = (class, arguments, answers of the random source): every combination of channels, radius, peaks, boundary and threshold, every sequence of coin answers for the kinds of functions and "
        "three levels of drawn values; transition = creating the automaton (twice, and once under another tag) and one step on each probe grid, compared with the reference built from its export "
        "(one internal channel) or from its functions taken one by one")
ASSUMPTIONS = ["the random source answers are enumerated where numpy's global functions are used, and seeded elsewhere", "tolerance 5e-4"]
CCAS = ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA")


class Source:
    """answers of the random source: coins by pattern, values by level"""

    def __init__(self, coins, level):
        self.coins, self.level, self.c, self.n = coins, level, 0, 0

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        k = 1 if size is None else int(np.prod(size))
        out = []
        for _ in range(k):
            out.append(int(low) + (self.coins >> (self.c % 16)) % 2 * (1 if int(high) - int(low) > 1 else 0))
            self.c += 1
        return out[0] if size is None else np.array(out).reshape(size)

    def values(self, size):
        k = 1 if not size else int(np.prod(size))
        i = np.arange(self.n, self.n + k)
        self.n += k
        v = np.mod((i + 1) * 0.6180339887 + 0.13 * self.level, 1.0)
        return float(v[0]) if not size else v.reshape(size)

    def rand(self, *size):
        return self.values(size)

    def randn(self, *size):
        return (self.values(size) - 0.5) * (0.0, 2.0, 5.0)[self.level]


def create(cls, kw, src):
    """(automaton, arguments as left behind)"""
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    M.reseed(11)
    s = Source(*src)
    given = copy.deepcopy(kw)
    with evo.patched(randint=s.randint, rand=s.rand, randn=s.randn):
        ca = dict(F.classes(), NCA=NCA, RxnDfn=RxnDfn)[cls](**given)
    return ca, given


def probe(cls, ca, g):
    ca.eval()
    with torch.no_grad():
        t = T(g)
        return N(ca(t)) if cls in ("CCA", "Lenia", "NCA", "RxnDfn") else N(ca.get_frame(t))


def blackbox(cls, ca, kw, g):
    """reference step with the automaton's functions taken one by one"""
    e, n = kw.get("external_channels", 1), kw.get("internal_channels", 1)
    u = ref.alive(g, kw.get("alive_threshold", 0.1))
    cfg = ca.make_config()
    k = ref.kernel(plain(cfg["neighborhood_kernel_config"]))
    mode = kw.get("conv_mode", "circular")
    ident, nb = ref.conv(u, ref.kernel({"name": "InnerMoore"}), n, mode), ref.conv(u, k, n, mode)
    tot = np.zeros_like(nb[:, :1])
    with torch.no_grad():
        for i in range(n):
            x = torch.tensor(nb[:, i:i + 1], dtype=torch.float32)
            gi = np.asarray(ca.genesis_fns[i](x).tolist(), dtype=float)
            if cls == "Lenia":
                tot += gi
            else:
                pi = np.asarray(ca.persistence_fns[i](x).tolist(), dtype=float)
                tot += (1 - ident[:, i:i + 1]) * gi + ident[:, i:i + 1] * pi
    return np.clip(u + 0.1 * np.repeat(tot / (e * n), e, axis=1), 0, 1)


def plain(c):
    c = copy.deepcopy(c)
    for k, v in c.get("kernel_kwargs", {}).items():
        c["kernel_kwargs"][k] = v.tolist() if hasattr(v, "tolist") else v
    return c


def u_family(unit, ctx):
    cls = unit["cls"]
    for kw, coins, level in itertools.product(unit["args"], unit["coins"], unit["levels"]):
        tr = dict(unit, arguments=kw, coins=coins, level=level, args=None, levels=None)
        e, n = kw.get("external_channels", 1), kw.get("internal_channels", 1)
        with suppress(Skip), ctx.guard("create", tr):
            a, left = create(cls, kw, (coins, level))
            b, _ = create(cls, dict(kw, tag="another-pattern"), (coins, level))
            ctx.transitions += 2
            ctx.expect(left == kw, "arguments", "creating the automaton changed its arguments to %r" % (left,), tr)
            r = kw.get("kernel_radius", 13)
            ctx.expect(a.get_kernel_radius() == r, "radius", "kernel radius %s for %s" % (a.get_kernel_radius(), r), tr)
            ctx.expect(abs(a.get_dt() - 0.1) < 1e-6, "dt", "dt %s" % a.get_dt(), tr)
            ctx.expect(len(a.genesis_fns) == n and len(a.persistence_fns) == n, "functions", "%d genesis and %d persistence functions for %d channels" % (len(a.genesis_fns), len(a.persistence_fns), n), tr)
            grads = [p.requires_grad for p in a.parameters()]
            if not kw.get("use_grad"):
                ctx.expect(not any(grads), "grad", "parameters of a new automaton track gradients", tr)
            else:
                ctx.expect(any(grads), "grad", "no parameter of an automaton created for training tracks gradients", tr)
            p = np.asarray(a.get_params(), dtype=float)
            ctx.expect(same(p, np.asarray(b.get_params(), dtype=float)), "tag", "the same source gives other parameters under another tag", tr)
            ctx.expect(np.isfinite(p).all(), "params", "parameters %s" % p, tr)
            cfg = a.make_config()
            kc = plain(cfg["neighborhood_kernel_config"])
            peaks = 3 * kw.get("kernel_peaks", 3)
            ctx.expect(len(np.ravel(kc["kernel_kwargs"]["parameters"])) == peaks and kc["radius"] == r, "peaks", "kernel %s for %d peaks, radius %d" % (kc, peaks // 3, r), tr)
            ctx.visit((cls, repr(sorted(kw.items())), np.round(p, 9).tobytes(), tuple(type(f).__name__ for f in list(a.genesis_fns) + list(a.persistence_fns))))
            ctx.outcome((tuple(type(f).__name__ for f in a.genesis_fns), tuple(type(f).__name__ for f in a.persistence_fns)))
            for which in ("new", "after writing its own parameters"):
                for name, g in grid_family((2, e, 9, 10) if r < 9 else (2, e, 28, 29), ("irr", "dot", "ones")).items():
                    o, ob = probe(cls, a, g), probe(cls, b, g)
                    ctx.transitions += 2
                    ctx.expect(same(o, ob), "repeat", "%s grid: two automata from the same source differ by %g in one step" % (name, maxdiff(o, ob)), tr)
                    ctx.expect(np.isfinite(o).all() and o.min() >= 0 and o.max() <= 1, "bounds", "%s grid: a step leaves [0, 1]" % name, tr)
                    w = blackbox(cls, a, kw, N(T(g)))
                    ctx.expect(maxdiff(o, w) < 5e-4, "step", "%s grid, %s: one step differs from its functions' update by %g" % (name, which, maxdiff(o, w)), tr)
                    if n == 1:
                        rc = ref.RefCCA(dict(cfg, neighborhood_kernel_config=kc, identity_kernel_config={"name": "InnerMoore"}), external=e, internal=1, conv_mode=kw.get("conv_mode", "circular"),
                                        lenia=cls == "Lenia", thr=kw.get("alive_threshold", 0.1), dt=0.1)
                        w = rc.step(N(T(g)))
                        ctx.expect(maxdiff(o, w) < 5e-4, "export", "%s grid, %s: one step differs from the exported rule by %g" % (name, which, maxdiff(o, w)), tr)
                for x in (a, b):
                    x.set_params(p)
                    x.no_grad()
        ctx.traces += 1
    ctx.sample({"class": cls, "arguments": kw, "coins": coins})


def u_nca(unit, ctx):
    for kw in unit["args"]:
        tr = dict(unit, arguments=kw, args=None)
        with suppress(Skip), ctx.guard("create", tr):
            a, left = create("NCA", kw, (0, 1))
            b, _ = create("NCA", dict(kw, tag="x"), (0, 1))
            ctx.expect(left == kw, "arguments", "creating the automaton changed its arguments to %r" % (left,), tr)
            e, n, h, act = kw.get("external_channels", 1), kw.get("internal_channels", 1), kw.get("hidden_channels", 64), kw.get("activation", "Gaussian")
            p = np.asarray(a.get_params(), dtype=float)
            ctx.expect(same(p, np.asarray(b.get_params(), dtype=float)), "tag", "the same source gives other weights under another tag", tr)
            m = M.nca_len(e, n, h, act)
            kp = kw.get("kernel_peaks", 3)
            ctx.expect(len(p) == m + 3 * kp, "length", "%d parameters, expected %d weights and %d of the kernel" % (len(p), m, 3 * kp), tr)
            kc = plain(a.make_config()["neighborhood_kernel_config"])
            ctx.expect(kc["radius"] == kw.get("kernel_radius", 13) and len(np.ravel(kc["kernel_kwargs"]["parameters"])) == 3 * kp, "peaks", "kernel %s" % kc, tr)
            ctx.expect(not any(q.requires_grad for q in a.parameters()) or kw.get("use_grad"), "grad", "weights of a new network track gradients", tr)
            k = ref.kernel(kc)
            for name, g in grid_family((2, e, 9, 10) if kc["radius"] < 9 else (2, e, 28, 29), ("irr", "dot")).items():
                o, ob = probe("NCA", a, g), probe("NCA", b, g)
                ctx.transitions += 2
                ctx.expect(same(o, ob), "repeat", "%s grid: two automata from the same source differ" % name, tr)
                w = M.nca_step(N(T(g)), p[:m], k, e, n, h, act, 0.1, kw.get("conv_mode", "circular"), thr=kw.get("alive_threshold", 0.1))
                ctx.expect(maxdiff(o, w) < 5e-4, "step", "%s grid: one step differs from the network of its parameters by %g" % (name, maxdiff(o, w)), tr)
            ctx.visit(repr(sorted(kw.items())))
        ctx.traces += 1


def u_blank(unit, ctx):
    """blank grids of the sizes asked for; the base automaton with given kernels"""
    from yuca.ca.common import CA
    from yuca.ca.neural import NCA
    cls = unit["cls"]
    for e, b, dim in itertools.product((1, 2, 4), (None, 1, 3), (None, 1, 5, (4, 7), [3, 2])):
        kw = {"external_channels": e, "kernel_radius": 2}
        tr = dict(unit, channels=e, batch=b, dim=dim)
        with suppress(Skip), ctx.guard("blank", tr):
            ca = dict(F.classes(), NCA=NCA, CA=CA)[cls](**kw)
            args = {k: copy.copy(v) for k, v in (("batch_size", b), ("dim", dim)) if v is not None}
            g = ca.initialize_grid(**args)
            ctx.transitions += 1
            side = [256, 256] if dim is None else [dim, dim] if isinstance(dim, int) else list(dim)
            ctx.expect(list(g.shape) == [b or 1, e] + side and not N(g).any(), "blank", "blank grid of %r has shape %s, sum %s" % (args, tuple(g.shape), float(g.sum())), tr)
            ctx.expect(args.get("dim") == (dim if dim is not None else None), "blank", "the size asked for was changed", tr)
            g2 = ca.initialize_grid(**args)
            g2 += 1
            ctx.expect(not N(g).any(), "blank", "two blank grids share memory", tr)
            ctx.visit((cls, e, b, repr(dim)))
        ctx.traces += 1
    if cls != "CA":
        return
    for e, mode, dt, rad in itertools.product((1, 2, 3, 4), ("circular", "zeros", "reflect"), (0.1, 0.75), (1, 2)):
        tr = dict(unit, channels=e, conv_mode=mode, dt=dt, radius=rad)
        with suppress(Skip), ctx.guard("base", tr):
            ca = CA(external_channels=e, internal_channels=e, conv_mode=mode)
            k = np.mod(np.arange((2 * rad + 1) ** 2).reshape(2 * rad + 1, -1) * 0.618, 1.0) / 10 - 0.03
            ca.add_identity_kernel()
            ca.initialize_id_layer()
            ca.add_neighborhood_kernel(torch.tensor(k[None, None], dtype=torch.float32))
            ca.initialize_neighborhood_layer()
            ca.set_dt(dt)
            ca.reset()
            ctx.expect(ca.get_dx() == 0, "base", "spacing %s" % ca.get_dx(), tr)
            for i, g in enumerate(grid_family((2, e, 6, 7), ("irr", "dot", "ones")).values()):
                u = ref.alive(N(T(g)), 0.1)
                with torch.no_grad():
                    o = N(ca(T(g)))
                w = np.clip(u + dt * (u + ref.conv(u, k, e, mode)), 0, 1)
                ctx.transitions += 1
                ctx.expect(maxdiff(o, w) < 1e-5, "base", "the base automaton's step differs from state + dt * (state + neighbourhood) by %g" % maxdiff(o, w), tr)
                ctx.expect(abs(float(ca.t_count) - (i + 1) * dt) < 1e-5, "base", "elapsed time %s" % float(ca.t_count), tr)
            ctx.visit(("base", e, mode, dt, rad))
        ctx.traces += 1


def products(**kw):
    ks = list(kw)
    return [{k: v for k, v in zip(ks, vs) if v is not None} for vs in itertools.product(*kw.values())]


def units(tier, seed):
    th = tier == "thorough"
    us = []
    for c in CCAS:
        for n in (1, 2, 3, 9) + ((4, 8, 12) if th else ()):
            for e in (1, 2, 3) if th or c == "CCA" else (1, 2):
                args = products(internal_channels=[n], external_channels=[e], kernel_radius=[1, 4] + ([2, 3] if th else []), kernel_peaks=[None, 1, 2] if c == "CCA" else [None], conv_mode=[None, "zeros", "reflect"] if n == 1 else [None])
                us.append({"kind": "family", "cls": c, "args": args, "coins": list(range(4 if n == 1 else 16 if n <= 2 else 8)) if n < 9 else [0, 0x5555, 0xffff], "levels": [0, 1, 2] if n == 1 or th else [1]})
        us.append({"kind": "family", "cls": c, "args": products(external_channels=[4], kernel_radius=[2], alive_threshold=[None, 0.0, 0.4, 0.9]), "coins": [0, 3], "levels": [1]})
        us.append({"kind": "family", "cls": c, "args": [{}, {"use_grad": True, "kernel_radius": 2}, {"device": "cpu", "kernel_radius": 3, "ca_mode": "functional"}], "coins": [0, 1, 2, 3], "levels": [1]})
    for act in ("Gaussian", "Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity", None):
        us.append({"kind": "nca", "args": products(activation=[act], hidden_channels=[1, 5], external_channels=[1, 2, 4], internal_channels=[1, 2, 4], kernel_radius=[1, 3], conv_mode=[None, "zeros"], kernel_peaks=[None, 1])})
    us += [{"kind": "blank", "cls": c} for c in CCAS + ("NCA", "CA")]
    us.append({"kind": "nca", "args": [{}, {"external_channels": 4, "alive_threshold": 0.6, "kernel_radius": 2, "internal_channels": 4}]})
    return us


def run_unit(unit, ctx):
    globals()["u_" + unit["kind"]](unit, ctx)
