"""U03: the plots of a search log show the log."""
import contextlib
import io
import itertools
import os
import runpy
import sys
import numpy as np
from mc import evo, ref
from mc import family as F

PROPERTY = "U03"
RULE = ("states = search logs; transition = one call of the plotting entry point on a log: every pair of growth functions as genesis and persistence function, every sequence of "
        "fitness figures over an alphabet, every number of elites and generations, real logs of every automaton and kind of search; every ordered pair of logs plotted one after the other; "
        "every line of every figure is compared")
ASSUMPTIONS = ["figures are inspected in memory (Agg), not as pixels", "a growth function without a real value somewhere is compared where the reference is finite"]

FIT = [(0.0, 0.0, 0.0, 0.0), (-1.0, 0.5, 2.0, 0.75), (1.0, 1.0, 3.0, 0.25), (-3.5, -2.0, -1.0, 0.5)]    # min mean max deviation


def make_log(cfgs, fits, cls="CCA"):
    old = F.build(cls, F.config("gauss3", "none", "gaus0", "gaus0", dt=0.5)).make_config()
    conf = [F.build(cls, c).make_config() for c in cfgs]
    g = len(fits)
    # earlier generations had other elites
    return {"elite_configs": [[old] * len(conf)] * (g - 1) + [conf],
            "mean_fitness": [f[1] for f in fits], "min_fitness": [f[0] for f in fits], "max_fitness": [f[2] for f in fits],
            "std_dev_fitness": [f[3] for f in fits], "elite_params": [np.zeros((len(conf), 2))] * g}


def plot(path, show=0, cli=False):
    """figures added by one call, and the number of times they were shown"""
    import matplotlib.pyplot as plt
    before, shown = set(plt.get_fignums()), []
    orig = plt.show
    plt.show = lambda *a, **k: shown.append(1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if cli:
                argv = sys.argv
                sys.argv = ["plot.py", "-i", path, "-s", str(show)]
                sys.modules.pop("yuca.plot", None)
                try:
                    runpy.run_module("yuca.plot", run_name="__main__")
                finally:
                    sys.argv = argv
            else:
                from yuca import plot as P
                P.plot_exp(input_filepath=path, show=show)
    finally:
        plt.show = orig
    return [plt.figure(n) for n in sorted(set(plt.get_fignums()) - before)], len(shown)


def lines(fig):
    return [l for a in fig.axes for l in a.lines]


def judge(ctx, figs, cfgs, fits, key, what, tr):
    """cfgs None: no growth functions to show"""
    rules = [f for f in figs if any("genesis" in str(l.get_label()) or "persistence" in str(l.get_label()) for l in lines(f))]
    rest = [f for f in figs if f not in rules]
    ctx.expect(len(rules) == len(cfgs), key + ":count", "%s: %d figures of update functions for %d elite rules" % (what, len(rules), len(cfgs)), tr)
    for i, (f, c) in enumerate(zip(rules, cfgs)):
        for part in ("genesis", "persistence"):
            ls = [l for l in lines(f) if part in str(l.get_label())]
            if not ctx.expect(len(ls) == 1, key + ":line", "%s: %d %s lines in the figure of elite %d" % (what, len(ls), part, i), tr):
                continue
            x, y = np.asarray(ls[0].get_xdata(), float), np.asarray(ls[0].get_ydata(), float)
            ctx.expect(len(x) > 100 and x.min() <= 0 and x.max() >= 0.999, key + ":range", "%s: %s curve of elite %d spans %g to %g" % (what, part, i, x.min(), x.max()), tr)
            w = np.asarray(ref.growth(c[part + "_config"], x), float)
            ok = np.isfinite(w)
            d = np.abs(y - w)[ok]
            ctx.expect(y.shape == x.shape and (d <= 1e-4 * (1 + np.abs(w[ok]))).all(), key + ":curve",
                       lambda: "%s: %s curve of elite %d is off by %g at %g" % (what, part, i, d.max(), x[ok][d.argmax()]), tr)
    if not ctx.expect(len(rest) == 1, key + ":fitness", "%s: %d figures of fitness" % (what, len(rest)), tr):
        return
    fig = rest[0]
    n = len(fits)
    for j, part in ((1, "mean"), (2, "max"), (0, "min")):
        ls = [l for l in lines(fig) if part in str(l.get_label())]
        if not ctx.expect(len(ls) == 1, key + ":label", "%s: %d lines labelled %s fitness" % (what, len(ls), part), tr):
            continue
        x, y = np.asarray(ls[0].get_xdata(), float), np.asarray(ls[0].get_ydata(), float)
        ctx.expect(x.tolist() == list(range(n)) and np.allclose(y, [f[j] for f in fits], rtol=1e-12, atol=0), key + ":statistics",
                   lambda: "%s: %s fitness is drawn as %s over %s instead of %s" % (what, part, y, x, [f[j] for f in fits]), tr)
    band = [p.vertices for a in fig.axes for c in a.collections for p in c.get_paths()]
    band = np.concatenate(band) if band else np.zeros((0, 2))
    for g, f in enumerate(fits):
        tol = 1e-6 * (1 + abs(f[1]) + f[3])
        ys = band[band[:, 0] == g][:, 1]
        ctx.expect(len(ys) > 0 and abs(ys.min() - (f[1] - f[3])) < tol and abs(ys.max() - (f[1] + f[3])) < tol, key + ":band",
                   "%s: the band of generation %d spans %s instead of %g to %g" % (what, g, ys, f[1] - f[3], f[1] + f[3]), tr)


def one(ctx, d, log, cfgs, fits, key, tr, **kw):
    import matplotlib.pyplot as plt
    path = os.path.join(d, kw.pop("name", "log.npy"))
    if log is not None:
        np.save(path, log)
    data = open(path, "rb").read()
    with ctx.guard(key, tr):
        figs, shown = plot(path, **kw)
        ctx.transitions += 1
        judge(ctx, figs, cfgs, fits, key, "log %s" % os.path.basename(path), tr)
        ctx.expect(shown == (1 if kw.get("show") else 0), key + ":show", "figures shown %d times with show=%r" % (shown, kw.get("show")), tr)
        ctx.expect(open(path, "rb").read() == data, key + ":log", "plotting changed the log", tr)
    if not kw.get("keep"):
        plt.close("all")


def u_curves(unit, ctx, d):
    for per in F.FNS:
        cfg = F.config("gauss3", "none", unit["gen"], per, dt=0.25)
        ctx.visit((unit["gen"], per))
        one(ctx, d, make_log([cfg], [FIT[1]], unit["cls"]), [cfg], [FIT[1]], "curves", dict(unit, persistence=per))
        ctx.traces += 1
    ctx.sample({"genesis": unit["gen"], "persistence": per})


def u_stats(unit, ctx, d):
    for fits in itertools.product(FIT, repeat=unit["gens"]):
        for elites in unit["elites"]:
            cfgs = [F.config("gauss3", "none", g, p, dt=0.25) for g, p in [("gm4", "gaus1"), ("gm2", "gm4"), ("gaus1", "gm2"), ("poly", "gm4")][:elites]]
            ctx.visit((fits, elites))
            k = len(fits) + elites
            one(ctx, d, make_log(cfgs, fits), cfgs, fits, "stats", dict(unit, fitness=fits, elites=elites), show=k % 2, cli=(k % 3 == 0))
            ctx.traces += 1


def u_pairs(unit, ctx, d):
    """one log after the other, figures left open"""
    import matplotlib.pyplot as plt
    logs = []
    for k, (g, p) in enumerate([("gm4", "gaus1"), ("gaus1", "gm4"), ("si2", "tanh"), ("poly", "gm2")]):
        cfgs = [F.config("gauss3", "none", g, p, dt=0.25)] + ([F.config("gauss3", "none", p, g, dt=0.25)] if k % 2 else [])
        logs.append((cfgs, FIT[:k + 1]))
    for seq in itertools.product(range(len(logs)), repeat=unit["depth"]):
        plt.close("all")
        for s in seq:
            cfgs, fits = logs[s]
            one(ctx, d, make_log(cfgs, fits), cfgs, fits, "pairs", dict(unit, order=seq), name="log%d.npy" % s)
        ctx.visit(seq)
        ctx.traces += 1


def u_real(unit, ctx, d):
    """a real search, then the plot of the log it wrote"""
    import glob
    from checks import e06_cli as E
    cheap = lambda m, c, *a, **k: m + np.sqrt(np.abs(np.diag(c))) * np.random.standard_normal(len(m))
    opts = dict(E.SMALL, **{"-ca": unit["ca"], "-t": unit["tag"], "-f": "SimpleHaltingWrapper" if unit["tag"] == "rules" else "HaltingWrapper", "-g": str(unit["gens"]), "-p": str(unit["pop"])})
    tr = dict(unit)
    with ctx.guard("real:run", tr), evo.patched(multivariate_normal=cheap):
        E.start(d, E.line(opts), run=True)
    fs = glob.glob(os.path.join(d, "logs", "*.npy"))
    if not ctx.expect(len(fs) == 1, "real:log", "%d logs" % len(fs), tr):
        return
    L = np.load(fs[0], allow_pickle=True).reshape(1)[0]
    fits = [tuple(float(L[k][g]) for k in ("min_fitness", "mean_fitness", "max_fitness", "std_dev_fitness")) for g in range(len(L["mean_fitness"]))]
    cfgs = L["elite_configs"][-1]
    if unit["ca"] in ("NCA", "RxnDfn"):
        cfgs = []
    ctx.visit((unit["ca"], unit["tag"]))
    for cli in (False, True):
        one(ctx, "", None, cfgs, fits, "real", tr, name=fs[0], cli=cli)
    ctx.traces += 1


def u_missing(unit, ctx, d):
    import matplotlib.pyplot as plt
    for name in ("nothing.npy", "", "sub/none.npy"):
        n = len(plt.get_fignums())
        try:
            plot(os.path.join(d, name, "x.npy"))
            ctx.fail("missing", "plotting a log that does not exist is not reported", dict(unit))
        except (AssertionError, OSError):
            pass
        ctx.expect(len(plt.get_fignums()) == n, "missing", "figures for a log that does not exist", dict(unit))
        ctx.transitions += 1
        ctx.visit(name)


def u_helpers(unit, ctx, d):
    """the two figure helpers: every image, curve and title"""
    import matplotlib.pyplot as plt
    from yuca import utils, activations as act
    import torch
    G = {"ramp": np.arange(12.).reshape(3, 4) / 11, "dot": np.eye(4)[:, :3], "high": np.full((2, 2), 3.0) - np.eye(2), "neg": -np.arange(6.).reshape(2, 3), "half": np.full((1, 5), 0.5)}
    for (a, b, c), (titles, (lo, hi)) in itertools.product(itertools.permutations(G, 3), ((None, (0, 1)), (["x", "y", "z"], (-0.5, 2)))):
        tr = dict(unit, grids=(a, b, c), titles=titles, limits=(lo, hi))
        arrs = [G[k].copy() for k in (a, b, c)]
        with ctx.guard("helper:grids", tr):
            fig = utils.plot_grid_nbhd(*arrs, titles=titles, vmin=lo, vmax=hi)
        im = [i for x in fig.axes for i in x.images]
        ok = len(im) == 3 and all(np.array_equal(np.asarray(i.get_array()), G[k]) for i, k in zip(im, (a, b, c)))
        ctx.expect(ok, "helper:grids", lambda: "images of %s do not show grid, neighbourhood and update in this order" % (tr,), tr)
        if ok:
            ctx.expect([i.axes.get_title() for i in im] == (titles or ["CA grid", "Neighborhood", "Update"]), "helper:titles", "titles are %s" % [i.axes.get_title() for i in im], tr)
            ctx.expect(all(i.get_clim() == (lo, hi) for i in im[:2]), "helper:limits", "colour limits are %s" % [i.get_clim() for i in im[:2]], tr)
        ctx.expect(all(np.array_equal(x, G[k]) for x, k in zip(arrs, (a, b, c))), "helper:argument", "drawing changed an argument", tr)
        plt.close(fig)
        ctx.transitions += 1
        ctx.visit((a, b, c, titles is None, lo))
    fns = {"steps": (act.get_smooth_steps_fn([[0.2, 0.4], [0.6, 0.7]], alpha=0.05), lambda x: ref.growth({"name": "SmoothIntervals", "parameters": [[0.2, 0.4], [0.6, 0.7]], "alpha": 0.05, "mode": 0}, x)), "square": (lambda x: x ** 2, lambda x: x ** 2),
           "step": (lambda x: 1.0 * (x > 0.3), lambda x: 1.0 * (x > 0.3))}
    for k, f, xr in itertools.product(G, fns, (None, [0.0, 1.0], [-1.0, 3.0])):
        tr = dict(unit, kernel=k, growth=f, range=xr)
        with ctx.guard("helper:growth", tr):
            fig = utils.plot_kernel_growth(G[k].copy(), fns[f][0], **({} if xr is None else {"my_xrange": xr}))
        im, ls = [i for x in fig.axes for i in x.images], lines(fig)
        ok = len(im) == 1 and len(ls) == 1 and np.array_equal(np.asarray(im[0].get_array()), G[k])
        if ctx.expect(ok, "helper:growth", "figure of kernel and growth function is not one image and one curve", tr):
            x, y = np.asarray(ls[0].get_xdata(), float), np.asarray([float(v) for v in ls[0].get_ydata()])
            a, b = xr or (-0.1, 1.1)
            ctx.expect(abs(x.min() - a) < 1e-9 and x.max() >= b - 0.01 * (b - a) and len(x) >= 100, "helper:range", "curve spans %g to %g" % (x.min(), x.max()), tr)
            ctx.expect(np.allclose(y, fns[f][1](x), atol=1e-4), "helper:curve", "the curve is not the growth function", tr)
        plt.close(fig)
        ctx.transitions += 1
        ctx.visit((k, f, str(xr)))
    ctx.traces += 1


def units(tier, seed):
    th = tier == "thorough"
    us = [{"kind": "curves", "gen": g, "cls": c} for g in F.FNS for c in (("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA") if th else ("CCA",))]
    us += [{"kind": "curves", "gen": "gm4", "cls": c} for c in ("Lenia", "CODE", "RandomStepCA", "MetaCA") if not th]
    us += [{"kind": "stats", "gens": g, "elites": [1, 2, 4] if g < 3 else [1]} for g in ((1, 2, 3, 4) if th else (1, 2, 3))]
    us += [{"kind": "pairs", "depth": n} for n in ((2, 3) if th else (2,))]
    us += [{"kind": "real", "ca": ca, "tag": t, "gens": g, "pop": p} for ca in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")
           for t in ("rules", "pattern", "coevo") for g, p in (((2, 3), (1, 8), (3, 5)) if th else ((2, 8 if t == "rules" else 3),))]
    us += [{"kind": "missing"}, {"kind": "helpers"}]
    return us


def run_unit(unit, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    with evo.scratch() as d:
        globals()["u_" + unit["kind"]](unit, ctx, d)
    plt.close("all")
