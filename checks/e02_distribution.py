"""E02: the search distribution is re-estimated from the elites."""
import itertools
import os
import numpy as np
from mc import evo
from mc.core import Skip

PROPERTY = "E02"
RULE = ("states = (selection mode per generation, fitness ordering per generation, reset or final ranking interleaved, population size, starting distribution, agent); every history up to "
        "the depth bound over {update with each ordering of the alphabet, final ranking, reset}; the sampler is a recording stand-in, and mean, covariance, sampler calls and population are "
        "compared with a reference model after each operation; transition = one operation")
ASSUMPTIONS = ["which candidates are elites is E01's business: the reference model takes the recorded elites and re-derives mean and covariance from them",
               "tolerance 1e-9 relative on means and covariances"]


def units(tier, seed):
    q = tier == "quick"
    us = []
    for n in (1, 4, 8, 12, 16) + (() if q else (24, 33)):
        for mode in (0, 1, 2):
            for first in range(len(OPS)):
                us.append({"kind": "hist", "n": n, "mode": mode, "first": first, "depth": 4 if q else (5 if n <= 16 else 4)})
    us += [{"kind": "start", "n": n, "tag": t, "agent": a} for n in (4, 17) for t, a in
           (("mc", "ParamsAgent"), ("halt", "ParamsAgent"), ("pattern_x", "CPPN"), ("coevo", "CPPNPlus"))]
    us += [{"kind": "log", "n": n, "keep": k} for n in (4, 8, 16, 24) for k in (1, 2, 3, 4, 5) if k >= n // 8 + 1]
    us += [{"kind": "log_mismatch", "n": 8}]
    us += [{"kind": "perm", "n": n, "mode": m} for n in (2, 3, 4, 5) + (() if q else (6,)) for m in (0, 1, 2)]
    us += [{"kind": "agents", "agent": a} for a in ("CPPN", "CPPNPlus")]
    return us


OPS = ["up", "down", "mid", "rank", "reset"]


def ordering(name, n):
    r = {"up": list(range(n)), "down": list(range(n))[::-1], "mid": [-abs(i - n // 2) for i in range(n)], "rank": [(3 * i + 1) % n if n % 3 else (5 * i + 1) % n for i in range(n)]}[name]
    return [np.float64(-0.3 + 0.07 * x) for x in r]


class Model:
    def __init__(self, cm, n, mean0, cov0):
        self.n, self.keep = n, n // 8 + 1
        self.mean0, self.cov0 = mean0, cov0
        self.elites = None


def close(a, b, s=1.0):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= 1e-9 * (s + np.abs(b))))


def check_update(ctx, cm, old_mean, rows, sm, before, tr, what, sampled=True, ftol=0.0):
    """mean/covariance from the recorded elites; the rest of the population from the new distribution"""
    n = len(rows)
    keep = n // 8 + 1
    el = np.array(cm.elite_params, dtype=np.float64)
    if not ctx.expect(el.shape == (keep, rows[0].shape[0]), "elites", "%s: elites of shape %s" % (what, el.shape), tr):
        return
    mean = el.mean(axis=0)
    d = el - old_mean
    cov = d.T @ d / keep
    ctx.expect(close(cm.means, mean), "mean", lambda: "%s: mean %s, elites average to %s" % (what, np.asarray(cm.means)[:4], mean[:4]), tr)
    ctx.expect(close(cm.covar, cov, 1e-3), "covar", lambda: "%s: covariance %s, expected %s" % (what, np.asarray(cm.covar).ravel()[:4], cov.ravel()[:4]), tr)
    new = evo.pop_params(cm)
    if not ctx.expect(len(new) == n, "size", "%s: population of %d, expected %d" % (what, len(new), n), tr):
        return
    if not sampled:
        return
    calls = sm.calls[before:]
    check_sampled(ctx, new, calls, [(e, "elite") for e in el[:keep // 2]], mean, cov, tr, what, ftol)


def check_sampled(ctx, new, calls, carried, mean, cov, tr, what, ftol=0.0, need_cov=True):
    left = list(range(len(new)))
    for e, name in carried:
        hit = [i for i in left if np.max(np.abs(new[i] - e), initial=0) <= ftol]
        if not ctx.expect(bool(hit), "carried", "%s: an elite that should be carried over is missing" % what, tr):
            return
        left.remove(hit[0])
    pool = list(range(len(calls)))
    for i in left:
        hit = [j for j in pool if np.max(np.abs(calls[j][2] - new[i]), initial=0) <= ftol]
        if not ctx.expect(bool(hit), "sampled", "%s: candidate %d was not sampled afresh from the new distribution" % (what, i), tr):
            return
        pool.remove(hit[0])
        m, c, _ = calls[hit[0]]
        ctx.expect(close(m, mean), "sampled:mean", "%s: candidate %d was sampled around another mean" % (what, i), tr)
        ctx.expect(close(c, cov, 1e-3), "sampled:covar", "%s: candidate %d was sampled with another covariance" % (what, i), tr)


def check_reset(ctx, cm, n, mean0, cov0, elites, sm, before, tr, what, ftol=0.0):
    ctx.expect(close(cm.means, mean0), "reset:mean", "%s: mean after reset is not the starting mean" % what, tr)
    ctx.expect(close(cm.covar, cov0, 1e-3), "reset:covar", "%s: covariance after reset is not the starting covariance" % what, tr)
    new = evo.pop_params(cm)
    if ctx.expect(len(new) == n, "reset:size", "%s: population of %d after reset, expected %d" % (what, len(new), n), tr):
        check_sampled(ctx, new, sm.calls[before:], [(e, "") for e in (elites if elites is not None else [])], mean0, cov0, tr, what, ftol)


def run_unit(unit, ctx):
    with evo.scratch() as d:
        try:
            globals()["u_" + unit["kind"]](unit, ctx, d)
        except Skip:
            return


def start_of(cm, tag):
    k = np.asarray(cm.starting_means).shape[0]
    if "pattern" in tag:
        return np.eye(k)
    w = np.full(k, 0.15 * 5e-4)
    w[0] = 0.15
    return np.diag(w)


def u_hist(unit, ctx, d):
    n, mode = unit["n"], unit["mode"]
    keep = n // 8 + 1
    with ctx.guard("construct"):
        cm = evo.make(population_size=n, selection_mode=mode)
    mean0, cov0 = np.array(cm.starting_means, dtype=np.float64), start_of(cm, "mc")
    ca0 = np.array(cm.env.ca.get_params(), dtype=np.float64)
    for tail in itertools.product(range(len(OPS)), repeat=unit["depth"] - 1):
        hist = [OPS[unit["first"]]] + [OPS[i] for i in tail]
        sm = evo.Sampler()
        tape = evo.Tape([(7 * i + 2) for i in range(97)])
        lot = evo.Lottery([(2 * i + 1) % n for i in range(keep)] if n > 2 * keep else list(range(keep)))
        with evo.patched(multivariate_normal=sm, randint=tape.randint,
                         choice=lambda a, size=None, replace=True, p=None: (lot if not replace else tape.randint)(a, size=size, **({} if replace else {"replace": False, "p": p}))):
            cm.elite_params = None
            cm.env.ca.set_params(ca0.copy())
            with ctx.guard("reset", hist):
                cm.reset()
            check_reset(ctx, cm, n, mean0, cov0, None, sm, 0, hist, "first reset")
            for i, op in enumerate(hist):
                what = "population %d, mode %d, %s" % (n, mode, "/".join(hist[:i + 1]))
                old = np.array(cm.means, dtype=np.float64)
                rows, before = evo.pop_params(cm), len(sm.calls)
                el = None if cm.elite_params is None else np.array(cm.elite_params)
                new_state = ctx.visit((n, mode, tuple(hist[:i + 1])))
                with ctx.guard(op, hist[:i + 1]):
                    if op == "reset":
                        cm.reset()
                    elif op == "rank":
                        cm.rank_population(ordering(op, n), seed=5)
                    else:
                        cm.update_population(ordering(op, n))
                ctx.transitions += 1
                if not new_state:
                    continue
                if op == "reset":
                    check_reset(ctx, cm, n, mean0, cov0, el, sm, before, hist[:i + 1], what)
                else:
                    check_update(ctx, cm, old, rows, sm, before, hist[:i + 1], what, sampled=op != "rank")
                ctx.outcome(np.round(np.asarray(cm.means)[:2], 6).tolist())
    ctx.sample({"history": hist, "population": n, "mode": mode})


def u_perm(unit, ctx, d):
    n, mode = unit["n"], unit["mode"]
    cm = evo.make(population_size=n, selection_mode=mode)
    for p in itertools.permutations(range(n)):
        for q in itertools.permutations(range(n)) if n <= 3 else [tuple(reversed(p))]:
            sm = evo.Sampler()
            with evo.patched(multivariate_normal=sm):
                cm.elite_params = None
                with ctx.guard("reset"):
                    cm.reset()
                for r in (p, q):
                    old, rows, before = np.array(cm.means), evo.pop_params(cm), len(sm.calls)
                    with ctx.guard("update", [p, q]):
                        cm.update_population([np.float64(x - 2.5) for x in r])
                    ctx.transitions += 1
                    check_update(ctx, cm, old, rows, sm, before, [p, q], "population %d mode %d orders %s" % (n, mode, [p, q]))
            ctx.visit((n, mode, p, q))


def u_start(unit, ctx, d):
    """the starting distribution: centred on the rule's (or the generator's) own parameters"""
    from yuca import cppn, params_agent
    fn = getattr(cppn, unit["agent"], None) or params_agent.ParamsAgent
    cls = "CMACES" if unit["agent"] == "CPPNPlus" else "CMAES"
    n = unit["n"]
    with ctx.guard("construct"):
        cm = evo.make(cls, agent_fn=fn, tag=unit["tag"], population_size=n)
    rule = np.array(cm.env.ca.get_params(), dtype=np.float64)
    mean0 = np.array(cm.starting_means, dtype=np.float64)
    cov0 = start_of(cm, unit["tag"])
    ctx.visit((unit["agent"], unit["tag"], n))
    if unit["agent"] == "ParamsAgent":
        ctx.expect(close(mean0, rule), "start:mean", "starting mean %s is not the rule's parameter vector %s" % (mean0, rule))
    elif unit["agent"] == "CPPNPlus":
        ctx.expect(close(mean0[-len(rule):], rule), "start:mean", "starting mean ends with %s, the rule's parameters are %s" % (mean0[-len(rule):], rule))
    ctx.expect(close(cm.starting_covar, cov0, 1e-3), "start:covar", "starting covariance %s" % np.diag(cm.starting_covar)[:4])
    sm = evo.Sampler()
    with evo.patched(multivariate_normal=sm):
        for k in range(3):
            before = len(sm.calls)
            with ctx.guard("reset"):
                cm.reset()
            ctx.transitions += 1
            check_reset(ctx, cm, n, mean0, cov0, None, sm, before, None, "reset %d" % k, ftol=1e-4 if "CPPN" in unit["agent"] else 0)
            # writing the candidates or the current distribution must not move the starting one
            for a in cm.population:
                a.set_params(a.get_params() * 0 + 3.0)
            cm.means *= 0
            cm.covar *= 0


def u_log(unit, ctx, d):
    """starting from a log: the elites of its last generation and their average"""
    n, k = unit["n"], unit["keep"]
    keep = n // 8 + 1
    probe = evo.make(population_size=n)
    dim = np.asarray(probe.starting_means).shape[0]
    for gens in (1, 2, 3):
        el = [np.arange(k * dim, dtype=np.float64).reshape(k, dim) * 0.01 + 0.1 * g for g in range(gens)]
        path = os.path.join(d, "logs", "in_%d.npy" % gens)
        np.save(path, {"elite_params": el})
        with ctx.guard("construct"):
            cm = evo.make(population_size=n, input_filepath=path)
        want = el[-1][:keep]
        ctx.visit((n, k, gens))
        ctx.expect(close(np.array(cm.elite_params), want), "log:elites", "elites from the log are not the last generation's first %d" % keep)
        ctx.expect(close(cm.starting_means, want.mean(axis=0)), "log:mean", "starting mean %s, the elites average to %s" % (cm.starting_means, want.mean(axis=0)))
        sm = evo.Sampler()
        with evo.patched(multivariate_normal=sm):
            with ctx.guard("reset"):
                cm.reset()
            check_reset(ctx, cm, n, want.mean(axis=0), start_of(cm, "mc"), want, sm, 0, [n, k, gens], "reset after a log")
            old, rows, before = np.array(cm.means), evo.pop_params(cm), len(sm.calls)
            with ctx.guard("update"):
                cm.update_population(ordering("mid", n))
            check_update(ctx, cm, old, rows, sm, before, [n, k, gens], "update after a log")
        ctx.transitions += 3


def u_log_mismatch(unit, ctx, d):
    """a log of rules does not fit a search for patterns: the generator's own start is used"""
    from yuca import cppn
    from mc.core import seed_everything
    dim = np.asarray(evo.make().starting_means).shape[0]
    path = os.path.join(d, "logs", "rules.npy")
    np.save(path, {"elite_params": [np.full((3, dim), 0.3)]})
    kw = dict(population_size=8, agent_fn=cppn.CPPN, tag="pattern")
    with ctx.guard("construct"):
        seed_everything(3)
        a = evo.make(input_filepath=path, **kw)
    ctx.visit("mismatch")
    ctx.transitions += 1
    k = a.agent_fn(external_channels=1, dim=8).get_params().shape
    ctx.expect(np.shape(a.starting_means) == k and a.elite_params is None, "log:mismatch", "a log of another size changed the starting distribution")
    ctx.expect(close(a.starting_covar, np.eye(k[0]), 1e-3), "log:mismatch", "starting covariance")


def u_agents(unit, ctx, d):
    from yuca import cppn
    fn = getattr(cppn, unit["agent"])
    cls = "CMACES" if unit["agent"] == "CPPNPlus" else "CMAES"
    for n in (3, 16):
        with ctx.guard("construct"):
            cm = evo.make(cls, agent_fn=fn, population_size=n, tag="pattern" if cls == "CMAES" else "coevo")
        sm = evo.Sampler()
        with evo.patched(multivariate_normal=sm):
            cm.reset()
            for g, op in enumerate(("up", "mid", "down")):
                old, rows, before = np.array(cm.means), evo.pop_params(cm), len(sm.calls)
                with ctx.guard("update"):
                    cm.update_population(ordering(op, n))
                ctx.transitions += 1
                ctx.visit((unit["agent"], n, g))
                check_update(ctx, cm, old, rows, sm, before, [op], "%s generation %d" % (unit["agent"], g), ftol=1e-4)
