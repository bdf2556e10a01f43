"""E05: a search resumed from a log continues from that log's elites."""
import glob
import hashlib
import itertools
import os
import shutil
import numpy as np
import torch
from mc import evo, core
from mc.core import Skip
from mc.util import T, N, maxdiff, grid_family

PROPERTY = "E05"
RULE = ("states = (log file contents, settings of the search resumed from it); transition = one whole search started from the log of the state before: all chains of searches up to length 3 (4 thorough) "
        "over population sizes x selection modes x generations, for rule, pattern and joint searches; plus every kind of log against every kind of search and automaton class")
ASSUMPTIONS = ["fitness is a fixed function of the parameters in the chains; sampling draws are replaced by identifiable vectors", "a log whose parameter count does not fit is only required to leave a pattern search's starting distribution alone"]


def fitness(p):
    p = np.asarray(p, dtype=np.float64)
    return float(np.cos(7.3 * p.sum()) + 0.1 * np.sin(31.0 * p[0]))


def scripted(base, rec):
    class S(base):
        def get_fitness(self, agent_index, steps=10, replicates=1, seed=13):
            p = np.array(self.population[agent_index].get_params(), dtype=np.float64)
            rec.append(p)
            return np.float64(fitness(p)), torch.tensor(0.5)
    return S


def settings(kind, **kw):
    from yuca import cmaes, cppn
    from yuca.wrappers import halting_wrapper, glider_wrapper
    from yuca.params_agent import ParamsAgent
    from yuca.ca.continuous import CCA
    base = dict(ca_fn=CCA, kernel_radius=2, dim=8, ca_steps=1, batch_size=1, replicates=1, workers=0)
    if kind == "rule":
        base.update(env_fn=halting_wrapper.SimpleHaltingWrapper, agent_fn=ParamsAgent, tag="mc")
    else:
        base.update(env_fn=glider_wrapper.GliderWrapper, agent_fn=cppn.CPPN if kind == "pattern" else cppn.CPPNPlus, tag="pattern" if kind == "pattern" else "coevo")
    base.update(kw)
    return (cmaes.CMACES if kind == "coevo" else cmaes.CMAES), base


def clear(d):
    for s in ("logs", "ca_configs"):
        for f in glob.glob(os.path.join(d, s, "*")):
            os.unlink(f)


def digest(f):
    with open(f, "rb") as h:
        return hashlib.sha1(h.read()).hexdigest()


def near(a, b, tol=1e-5):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def started(ctx, cls, kw, log, tr, what):
    """construct a resumed search and check the state it starts from; returns the search"""
    keep = digest(log)
    with ctx.guard("resume", tr):
        core.seed_everything(17)
        plain = cls(**kw)
        with evo.patched(multivariate_normal=evo.Sampler()):
            plain.reset()
        core.seed_everything(17)
        cm = cls(input_filepath=log, **kw)
    sampler = evo.Sampler()
    with ctx.guard("reset", tr), evo.patched(multivariate_normal=sampler):
        cm.reset()
    ctx.transitions += 1
    n = kw["population_size"]
    L = np.load(log, allow_pickle=True).reshape(1)[0]
    E = np.asarray(L["elite_params"][-1], dtype=np.float64)
    pop = evo.pop_params(cm)
    ctx.expect(len(pop) == n, "size", "%s: population of %d instead of %d" % (what, len(pop), n), tr)
    k = min(n // 8 + 1, len(E))
    ctx.expect(near(cm.means, E[:k].mean(axis=0)), "mean", lambda: "%s: the search starts from mean %s, the %d best logged elites average %s" % (what, np.asarray(cm.means)[:5], k, E[:k].mean(axis=0)[:5]), tr)
    # written vectors pass through single precision in networks
    for i in range(min(k, n)):
        ctx.expect(near(pop[i], E[i]), "elite", lambda: "%s: candidate %d is %s, logged elite %s" % (what, i, pop[i][:5], E[i][:5]), tr)
    rest = list(range(k, n))
    ctx.expect(near(cm.covar, plain.covar), "covariance", "%s: the starting covariance differs from a search without log" % what, tr)
    draws = [c for c in sampler.calls]
    got = [pop[i] for i in rest]
    ctx.expect(all(evo.find([c[2] for c in draws], g, 1e-4) for g in got), "sampled", "%s: the other candidates are not samples of the distribution" % what, tr)
    ctx.expect(all(near(c[0], cm.means) and near(c[1], cm.covar) for c in draws), "sampled", "%s: candidates sampled from another distribution" % what, tr)
    ctx.expect(len({g.tobytes() for g in got}) == len(got), "sampled", "%s: sampled candidates repeat" % what, tr)
    ctx.expect(digest(log) == keep, "log", "%s: resuming changed the log" % what, tr)
    return E


def search(ctx, d, kind, kw, log, tr):
    """run a (resumed) search; returns (evaluated parameters, path of a copy of its log)"""
    cls, _ = settings(kind)
    clear(d)
    rec = []
    extra = {} if log is None else {"input_filepath": log}
    with ctx.guard("search", tr), evo.patched(multivariate_normal=evo.Sampler()):
        core.seed_everything(3)
        scripted(cls, rec)(**extra, **kw).search()
    fs = glob.glob(os.path.join(d, "logs", "*.npy"))
    if not ctx.expect(len(fs) == 1, "search:log", "%d logs" % len(fs), tr):
        raise Skip()
    out = os.path.join(d, "kept-%s.npy" % hashlib.sha1(repr(tr).encode()).hexdigest()[:12])
    shutil.copy(fs[0], out)
    return rec, out


def u_chain(unit, ctx, d):
    kind = unit["kind2"]
    cls, base = settings(kind)

    def go(log, tr, best, depth):
        for op in unit["ops"] if depth else [unit["first"]]:
            n, mode, gens = op
            t = tr + [op]
            kw = dict(base, population_size=n, selection_mode=mode, generations=gens, seed=[depth + 2])
            what = "search %d of %s" % (depth + 1, t)
            E = None
            try:
                if log is not None:
                    E = started(ctx, cls, kw, log, t, what)
                rec, out = search(ctx, d, kind, kw, log, t)
            except Skip:
                continue
            ctx.visit((kind, repr(t), digest(out)))
            ctx.traces += 1
            if E is not None:
                k = min(n // 8 + 1, len(E))
                ctx.expect(all(near(a, b) for a, b in zip(rec[:k], E[:k])), "evaluated", "%s: the first candidates evaluated are not the logged elites" % what, t)
                L = np.load(out, allow_pickle=True).reshape(1)[0]
                top = fitness(E[0])
                ctx.expect(float(L["max_fitness"][0]) >= top - 1e-3, "regress", "%s: best fitness %g after resuming from an elite of fitness %g" % (what, L["max_fitness"][0], top), t)
            if depth + 1 < unit["depth"]:
                go(out, t, None, depth + 1)
            os.unlink(out)

    go(None, [], None, 0)
    ctx.sample({"first": unit["first"], "depth": unit["depth"], "kind": kind})


def classes_():
    from mc.family import classes
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    return dict(classes(), NCA=NCA, RxnDfn=RxnDfn)


def u_cross(unit, ctx, d):
    """a pattern search from a rule log plays by the best logged rule; an explicit rule file wins over the log"""
    ca = unit["ca"]
    extra = {"ca_fn": classes_()[ca]}
    ch = 1
    if ca == "RxnDfn":
        extra["external_channels"] = ch = 2
    if ca == "NCA":
        extra["hidden_channels"] = 2
    _, kw = settings("rule", population_size=unit["n"], generations=unit["gens"], selection_mode=unit["mode"], seed=[4], **extra)
    tr = dict(unit)
    rec, log = search(ctx, d, "rule", kw, None, tr)
    L = np.load(log, allow_pickle=True).reshape(1)[0]
    E = np.asarray(L["elite_params"][-1], dtype=np.float64)
    for n in (1, 8, 9):
        for cfg in (None, "given"):
            # other seeds draw other default rules (kinds of growth functions, kernels)
            cls, pk = settings("pattern", population_size=n, generations=1, seed=[n + 20], **extra)
            if cfg:
                if ca == "NCA" or ca == "RxnDfn":
                    continue
                pk["ca_config"] = "orbium.npy"
            what = "%s pattern search, population %d, from a rule log%s" % (ca, n, " with a rule file" if cfg else "")
            started_tr = dict(tr, pattern=n, config=cfg)
            before = digest(log)
            with ctx.guard("cross", started_tr):
                core.seed_everything(17)
                plain = cls(**pk)
                core.seed_everything(17)
                cm = cls(input_filepath=log, **pk)
                with evo.patched(multivariate_normal=evo.Sampler()):
                    plain.reset()
                    cm.reset()
                want = extra["ca_fn"](**{k: v for k, v in pk.items() if k not in ("ca_fn", "env_fn", "agent_fn")})
                if not cfg and ca in ("NCA", "RxnDfn"):
                    want.set_params(E[0])
                elif not cfg:
                    want.load_config(dict(L["elite_configs"][-1][0], instant_kwargs={k: v for k, v in pk.items() if k not in ("ca_fn", "env_fn", "agent_fn")}))
                    ctx.expect(near(want.get_params(), E[0]), "cross:config", "%s: the logged configuration holds other parameters than the logged elite" % what, started_tr)
                for a in (want, cm.env.ca):
                    a.no_grad()
                    a.eval()
                    a.reset()
                gs = list(grid_family((1, ch, 29, 29), ("irr", "dot")).values())
                if ca == "RandomStepCA":
                    out = []
                    for a in (want, cm.env.ca):
                        core.seed_everything(5)
                        out.append([N(a(T(g))) for g in gs])
                else:
                    out = [[N(a(T(g))) for g in gs] for a in (want, cm.env.ca)]
            ctx.transitions += 1
            ctx.visit((ca, n, cfg, unit["n"], unit["gens"], unit["mode"]))
            ctx.expect(len(cm.population) == n, "size", "%s: population of %d" % (what, len(cm.population)), started_tr)
            ctx.expect(np.shape(cm.means) == np.shape(plain.means) and np.isfinite(cm.means).all() and near(cm.covar, plain.covar), "cross:distribution",
                       "%s: the pattern distribution has mean of shape %s and another covariance than a search without log" % (what, np.shape(cm.means)), started_tr)
            d_ = max(maxdiff(a, b) for a, b in zip(*out))
            ctx.expect(d_ <= 1e-5, "cross:rule", "%s: the rule played differs by %g from %s" % (what, d_, "the rule file" if cfg else "the best logged one"), started_tr)
            ctx.expect(digest(log) == before, "log", "%s: resuming changed the log" % what, started_tr)
            ctx.traces += 1
            if n != 9 or cfg or ca in ("NCA", "RxnDfn"):
                continue
            # the patterns that search finds are resumed under the same rule, as is a rule search, and its saved rule does not need the log
            _, plog = search(ctx, d, "pattern", pk, log, dict(started_tr, then="search"))
            saved = glob.glob(os.path.join(d, "ca_configs", "*.npy"))
            with ctx.guard("cross", started_tr):
                core.seed_everything(91)
                pcls, ppk = settings("pattern", population_size=3, generations=1, seed=[77], **extra)
                rcls, rpk = settings("rule", population_size=3, generations=1, seed=[78], **extra)
                cas = {"a pattern search resumed from the pattern log": pcls(input_filepath=plog, **ppk).env.ca,
                       "a rule search resumed from the rule log": rcls(input_filepath=log, **rpk).env.ca}
                os.rename(log, log + ".away")
                fresh = extra["ca_fn"](kernel_radius=2)
                if ctx.expect(len(saved) == 1, "cross:saved", "%s: %d saved rules" % (what, len(saved)), started_tr):
                    fresh.restore_config(saved[0])
                    cas["the rule it saved (log deleted)"] = fresh
            os.rename(log + ".away", log)
            for nme, a in cas.items():
                with ctx.guard("cross", started_tr):
                    a.no_grad()
                    a.eval()
                    a.reset()
                    core.seed_everything(5)
                    got = [N(a(T(g))) for g in gs]
                d_ = max(maxdiff(x, y) for x, y in zip(got, out[0]))
                ctx.transitions += 1
                ctx.expect(d_ <= 1e-5, "cross:continued", "%s, then %s: plays a rule that differs by %g from the best logged one" % (what, nme, d_), started_tr)
            os.unlink(plog)


def u_patternlog(unit, ctx, d):
    """patterns resumed under an explicit rule"""
    n0, n1 = unit["n"]
    _, kw = settings("pattern", population_size=n0, generations=2, selection_mode=unit["mode"], seed=[4], ca_config="orbium.npy", dim=16)
    tr = dict(unit)
    rec, log = search(ctx, d, "pattern", kw, None, tr)
    cls, pk = settings("pattern", population_size=n1, generations=1, selection_mode=unit["mode"], seed=[4], ca_config="orbium.npy", dim=16)
    E = started(ctx, cls, pk, log, tr, "pattern search %s resumed" % (unit["n"],))
    ctx.visit(tr)
    with ctx.guard("patternlog", tr):
        cm = cls(input_filepath=log, **pk)
        with evo.patched(multivariate_normal=evo.Sampler()):
            cm.reset()
        agent = pk["agent_fn"](params=E[0], external_channels=1, dim=pk["dim"])
        d_ = maxdiff(N(agent.get_action()), N(cm.population[0].get_action()))
        from yuca.ca.continuous import CCA
        want = CCA(ca_config="orbium.npy", kernel_radius=2)
        g = grid_family((1, 1, 29, 29), ("irr",))["irr"]
        r_ = maxdiff(N(want(T(g))), N(cm.env.ca(T(g))))
    ctx.expect(d_ <= 1e-6, "patternlog:pattern", "the first candidate's pattern differs by %g from the logged elite's" % d_, tr)
    ctx.expect(r_ <= 1e-6, "patternlog:rule", "the rule played is not the rule file given (%g)" % r_, tr)
    ctx.traces += 1
    os.unlink(log)


def units(tier, seed):
    th = tier == "thorough"
    pops = (1, 3, 8, 16) + ((9, 17) if th else ())
    ops = [(n, m, g) for n in pops for m in ((0, 1, 2) if th else (0, 2)) for g in (1, 2)]
    us = [{"kind": "chain", "kind2": "rule", "first": f, "ops": ops, "depth": 3} for f in ops]
    few = [(1, 0, 1), (8, 0, 2), (16, 2, 1)]
    us += [{"kind": "chain", "kind2": k, "first": f, "ops": few, "depth": 2} for k in ("coevo",) for f in few]
    for ca in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn"):
        for n, g, m in ((3, 1, 0), (9, 2, 0)) + (((16, 3, 1), (8, 2, 2)) if th else ()):
            us.append({"kind": "cross", "ca": ca, "n": n, "gens": g, "mode": m})
    for n0, n1 in itertools.product((2, 9), (1, 8, 17)):
        us.append({"kind": "patternlog", "n": [n0, n1], "mode": (n0 + n1) % 3})
    return us


def run_unit(unit, ctx):
    with evo.scratch() as d:
        try:
            globals()["u_" + unit["kind"]](unit, ctx, d)
        except Skip:
            return
