"""E04: a seeded search is reproducible and logs what happened."""
import glob
import itertools
import os
import numpy as np
from mc import evo, core
from mc.core import Skip
from mc.util import same

PROPERTY = "E04"
RULE = ("states = (population size, selection mode, seeds, generations, fitness table, point of interruption): every fitness ordering of small populations per generation, constant "
        "fitness (early stop), every evaluation at which the run is interrupted; plus each search twice per (environment, automaton, agent, mode, seeds) from different "
        "surrounding random states; transition = one search or one interrupted search")
ASSUMPTIONS = ["scripted fitness replaces get_fitness in the log checks; the reproducibility checks use the real one with tiny environments",
               "the random-reward environment reseeds from the clock on purpose and is excluded"]


def units(tier, seed):
    q = tier == "quick"
    us = []
    for n in (1, 2, 3) + (() if q else (4,)):
        for mode in (0, 1, 2):
            for seeds in ([7], [1, 2]):
                us.append({"kind": "orders", "n": n, "mode": mode, "gens": 2, "seeds": seeds})
            us.append({"kind": "orders", "n": n, "mode": mode, "gens": 1, "seeds": [3]})
    us.append({"kind": "orders", "n": 4, "mode": 0, "gens": 1, "seeds": [3]})
    for mode in (0, 1, 2):
        for n in (8, 17):
            us.append({"kind": "tables", "n": n, "mode": mode, "gens": 3, "seeds": [4]})
        us.append({"kind": "early", "mode": mode})
        us.append({"kind": "crash", "mode": mode, "n": 3, "gens": 3, "seeds": [7] if mode else [7, 8]})
    us += [{"kind": "agents", "agent": a, "mode": m} for a in ("CPPN", "CPPNPlus") for m in (0, 1, 2)]
    us += [{"kind": "fitness", "env": e, "ca": c} for e in ("SimpleHaltingWrapper", "HaltingWrapper", "pattern", "coevo") for c in ("CCA", "NCA", "MetaCA")]
    for env in ("SimpleHaltingWrapper", "HaltingWrapper", "pattern", "coevo"):
        for ca in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn"):
            for mode in ((0, 1, 2) if ca == "CCA" else (1,)):
                us.append({"kind": "twice", "env": env, "ca": ca, "mode": mode})
    return us


def run_unit(unit, ctx):
    with evo.scratch() as d:
        try:
            globals()["u_" + unit["kind"]](unit, ctx, d)
        except Skip:
            return


length = []


class Interrupt(Exception):
    pass


def scripted(base, table, rec, stop_at=None):
    """fitness from a table indexed by (how many evaluations so far)"""
    import torch

    class S(base):
        def get_fitness(self, agent_index, steps=10, replicates=1, seed=13):
            k = len(rec)
            if stop_at is not None and k == stop_at:
                raise Interrupt()
            f = np.float64(table[k % len(table)])
            length.append((self.env.ca_steps, self.ca_steps, replicates))
            rec.append((int(agent_index), int(seed), f, np.array(self.population[agent_index].get_params(), dtype=np.float64)))
            return f, torch.tensor(0.5)
    return S


def kwargs(**kw):
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
    from yuca.params_agent import ParamsAgent
    from yuca.ca.continuous import CCA
    base = dict(ca_fn=CCA, env_fn=SimpleHaltingWrapper, agent_fn=ParamsAgent, kernel_radius=2, dim=8, ca_steps=3, batch_size=1, replicates=2, workers=0, tag="mc")
    base.update(kw)
    return base


def clear(d):
    for s in ("logs", "ca_configs"):
        for f in glob.glob(os.path.join(d, s, "*")):
            os.unlink(f)


def logs(d, seed):
    f = glob.glob(os.path.join(d, "logs", "*_seed%s.npy" % seed))
    return [np.load(x, allow_pickle=True).reshape(1)[0] for x in f]


def saved(d, seed):
    f = glob.glob(os.path.join(d, "ca_configs", "*_seed%s.npy" % seed))
    return [np.load(x, allow_pickle=True).reshape(1)[0] for x in f]


def rule_of(cfg, ca_kw):
    """parameter vector of an automaton restored from a configuration"""
    import copy
    from yuca.ca.continuous import CCA
    ca = ca_kw.get("ca_fn", CCA)(**{k: v for k, v in ca_kw.items() if k in ("kernel_radius", "external_channels")})
    ca.load_config(copy.deepcopy(cfg))
    return np.array(ca.get_params(), dtype=np.float64)


def near(a, b):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 2e-5 * (1 + np.abs(b))))


def judge_log(ctx, d, rec, n, gens_run, seeds, tr, what, rule=lambda p: p, kw=None, pattern=False, finished=True):
    """the log of the last seed holds one entry per generation run so far, and the saved rules are the best candidates'"""
    per = [rec[i:i + n] for i in range(0, len(rec), n)]
    done = 0
    for si, s in enumerate(seeds):
        lo, hi = sum(gens_run[:si]), sum(gens_run[:si + 1])
        if hi == lo:
            continue
        L = logs(d, s)
        if not ctx.expect(len(L) == 1, "log:file", "%s: %d log files for seed %s" % (what, len(L), s), tr):
            continue
        L = L[0]
        for key, fn in (("mean_fitness", np.mean), ("max_fitness", np.max), ("min_fitness", np.min), ("std_dev_fitness", np.std)):
            want = [float(fn([e[2] for e in g])) for g in per[:hi]]
            got = [float(x) for x in L[key]]
            ctx.expect(len(got) == len(want) and np.allclose(got, want, rtol=1e-6, atol=1e-9), "log:" + key, "%s: seed %s: %s is %s, the fitness was %s" % (what, s, key, got, want), tr)
        el, cf, ds = L["elite_params"], L["elite_configs"], L["distribution"]
        m = 1 if pattern else hi
        if ctx.expect(len(el) == m and len(ds) == m and len(cf) == hi, "log:entries", "%s: seed %s: %d elite, %d distribution, %d configuration entries for %d generations" % (
                what, s, len(el), len(ds), len(cf), hi), tr):
            for g in range(hi):
                k = n // 8 + 1
                if not pattern or g == hi - 1:
                    E = np.array(el[-1] if pattern else el[g], dtype=np.float64)
                    pops = [e[3] for e in per[g]]
                    ctx.expect(E.shape[0] == k and all(evo.find(pops, e) for e in E), "log:elites", "%s: generation %d: logged elites are not that generation's candidates" % (what, g), tr)
                    dm, dc = ds[-1] if pattern else ds[g]
                    ctx.expect(near(dm, E.mean(axis=0)), "log:distribution", "%s: generation %d: logged mean is not the elites' mean" % (what, g), tr)
                    if not pattern and g > lo:
                        X = E - np.asarray(ds[g - 1][0], dtype=np.float64)
                        ctx.expect(near(dc, X.T @ X / k), "log:distribution", "%s: generation %d: logged covariance is not the elites' spread around the previous mean" % (what, g), tr)
                    if len(cf[g]) == k and not pattern:
                        for e, c in zip(E, cf[g]):
                            ctx.expect(near(rule_of(c, kw), rule(e)), "log:configs", "%s: generation %d: logged configuration holds %s, the elite is %s" % (
                                what, g, rule_of(c, kw)[:4], rule(e)[:4]), tr)
                ctx.expect(len(cf[g]) == k, "log:configs", "%s: generation %d: %d elite configurations, expected %d" % (what, g, len(cf[g]), k), tr)
        if finished is True or finished[si]:
            C = saved(d, s)
            if ctx.expect(len(C) == 1, "saved:file", "%s: %d saved rules for seed %s" % (what, len(C), s), tr) and not pattern:
                last = per[hi - 1]
                top = max(e[2] for e in last)
                best = [rule(e[3]) for e in last if e[2] == top]
                got = rule_of(C[0], kw)
                ctx.expect(any(near(got, b) for b in best), "saved:best", "%s: seed %s: saved rule %s is not the best candidate %s" % (what, s, got[:4], best[0][:4]), tr)
        done += 1
    return done


def once(ctx, d, base, kw, table, n, seeds, tr, what, gens, rule=lambda p: p, pattern=False, early=False):
    clear(d)
    rec = []
    evo.GIFS.clear()
    length.clear()
    key = (what, str(tr))
    new = ctx.visit(key)
    with ctx.guard("search", tr):
        core.seed_everything(1 + len(ctx.outcomes))
        cm = scripted(base, table, rec)(population_size=n, generations=gens, seed=list(seeds), **kw)
        cm.search()
    once.search = cm
    ctx.transitions += 1
    ctx.expect(set(length) <= {(kw["ca_steps"], kw["ca_steps"], kw["replicates"])}, "episode", "%s: candidates are played for (environment's, search's steps, replicates) %s, configured %d, %d" % (
        what, sorted(set(length)), kw["ca_steps"], kw["replicates"]), tr)
    if not early:
        if not ctx.expect(len(rec) == n * gens * len(seeds), "generations", "%s: %d evaluations, expected %d" % (what, len(rec), n * gens * len(seeds)), tr):
            return rec
        run = [gens] * len(seeds)
    else:
        if not ctx.expect(len(rec) % n == 0 and len(rec) > 0, "generations", "%s: %d evaluations of %d candidates" % (what, len(rec), n), tr):
            return rec
        run = [len(rec) // n]
    ctx.expect([e[0] for e in rec] == list(range(n)) * (len(rec) // n), "evaluations", "%s: candidates evaluated in order %s" % (what, [e[0] for e in rec][:12]), tr)
    judge_log(ctx, d, rec, n, run, seeds, tr, what, rule, kw, pattern)
    first = [[e[3] for e in rec[i * gens * n:i * gens * n + n]] for i in range(len(seeds) if not early else 0)]
    for i, j in itertools.combinations(range(len(first)), 2):
        # (a later seed starts with the elites of the one before)
        for k in range(n // 8 + 1, n):
            ctx.expect(not evo.find(first[i], first[j][k]), "seeds", "%s: seed %s samples the starting candidate %d that seed %s sampled" % (what, seeds[j], k, seeds[i]), tr)
    ctx.outcome((what, len(rec)))
    return rec


def u_orders(unit, ctx, d):
    from yuca import cmaes
    n, gens, seeds = unit["n"], unit["gens"], unit["seeds"]
    kw = kwargs(selection_mode=unit["mode"])
    perms = list(itertools.permutations(range(n)))
    for tab in itertools.product(perms, repeat=gens):
        t = [-0.4 + 0.13 * x for p in tab for x in p]
        once(ctx, d, cmaes.CMAES, kw, t, n, seeds, {"ranks": tab}, "population %d, mode %d, %d generations, seeds %s" % (n, unit["mode"], gens, seeds), gens)
    ctx.sample({"fitness": t, **unit})


def u_tables(unit, ctx, d):
    from yuca import cmaes
    n, gens = unit["n"], unit["gens"]
    kw = kwargs(selection_mode=unit["mode"])
    for best in itertools.product((0, n // 2, n - 1), repeat=gens):
        t = [(1.0 if i == b else -0.02 * ((i * 5 + b) % n)) for b in best for i in range(n)]
        once(ctx, d, cmaes.CMAES, kw, t, n, unit["seeds"], {"best": best}, "population %d, mode %d" % (n, unit["mode"]), gens)


def u_early(unit, ctx, d):
    """fitness spread collapses from generation k on"""
    from yuca import cmaes
    n, gens = 3, 12
    kw = kwargs(selection_mode=unit["mode"])
    for spread in (0.0, 0.01, 0.03, 1.0):
        for k in (0, 3, 7, 8, 10):
            t = []
            for g in range(gens):
                t += [0.1, 0.1 + (spread if g >= k else 1.0), 0.1 - (spread if g >= k else 1.0)]
            tr = {"spread": spread, "from": k}
            rec = once(ctx, d, cmaes.CMAES, kw, t, n, [4], tr, "spread %s from generation %d, mode %d" % (spread, k, unit["mode"]), gens, early=True)
            ran = len(rec) // n
            sd = [float(np.std([e[2] for e in rec[g * n:g * n + n]])) for g in range(ran)]
            want = gens
            for g in range(gens):
                if g > 6 and float(np.std([t[(g * n + i)] for i in range(n)])) < 0.02:
                    want = g + 1
                    break
            ctx.expect(ran == want, "early", "spread %s from generation %d: ran %d generations, expected %d (spreads %s)" % (spread, k, ran, want, sd[-3:]), tr)


def u_crash(unit, ctx, d):
    """interrupted at any evaluation, the log on disk holds the completed generations"""
    from yuca import cmaes
    n, gens, seeds = unit["n"], unit["gens"], unit["seeds"]
    kw = kwargs(selection_mode=unit["mode"])
    t = [0.3, -0.2, 0.1, 0.5, 0.0, -0.4, 0.2, 0.9]
    total = n * gens * len(seeds)
    for stop in range(total):
        clear(d)
        rec = []
        try:
            scripted(cmaes.CMAES, t, rec, stop)(population_size=n, generations=gens, seed=list(seeds), **kw).search()
        except Interrupt:
            pass
        ctx.visit(("crash", unit["mode"], stop))
        ctx.transitions += 1
        done = stop // n
        run = [min(gens, max(0, done - gens * i)) for i in range(len(seeds))]
        for i, s in enumerate(seeds):
            if run[i] == 0:
                ctx.expect(not logs(d, s), "crash:early", "a log for seed %s exists before its first generation" % s, stop)
        judge_log(ctx, d, rec, n, run, seeds, {"interrupted at evaluation": stop}, "interrupted at evaluation %d" % stop, kw=kw,
                  finished=[r == gens for r in run])


def u_agents(unit, ctx, d):
    from yuca import cmaes, cppn
    from yuca.wrappers.glider_wrapper import GliderWrapper
    fn = getattr(cppn, unit["agent"])
    co = unit["agent"] == "CPPNPlus"
    kw = kwargs(agent_fn=fn, env_fn=GliderWrapper, tag="coevo" if co else "pattern", selection_mode=unit["mode"])
    base = cmaes.CMACES if co else cmaes.CMAES
    with evo.patched(multivariate_normal=evo.Sampler()):
        k = 0
        if co:
            k = np.asarray(base(population_size=2, **kw).env.ca.get_params()).shape[0]
        for n in (2, 3, 9):
            for gens in (1, 2):
                for b in itertools.product(range(min(n, 3)), repeat=gens):
                    t = [(1.0 if i == x else -0.1 * i) for x in b for i in range(n)]
                    once(ctx, d, base, kw, t, n, [3], {"best": b, "n": n, "gens": gens}, "%s, population %d, %d generations" % (unit["agent"], n, gens), gens,
                         rule=lambda p: p[-k:], pattern=not co)
                    animations(ctx, d, once.search, fn, n // 8 + 1, co, {"best": b, "n": n, "gens": gens})


def animations(ctx, d, cm, fn, keep, co, tr):
    """the last animations show the elites of the last generation"""
    import torch
    L = logs(d, 3)
    if not L:
        return
    E = np.array(L[0]["elite_params"][-1], dtype=np.float64)
    if not ctx.expect(len(evo.GIFS) >= keep, "animations", "%s: %d animations, %d elites" % (tr, len(evo.GIFS), keep), tr):
        return
    for i, (grid, rule) in enumerate(evo.GIFS[-keep:]):
        a = fn(params=E[i], dim=8, external_channels=1)
        act = a.get_action()
        if co:
            r, want = act
            ctx.expect(near(rule, r), "animations", "%s: animation of elite %d plays the rule %s, the elite's is %s" % (tr, i, rule[:4], np.asarray(r)[:4]), tr)
        else:
            cm.env.ca.set_params(rule)
            want = cm.env.ca(act)
        ctx.expect(grid.shape == want.shape and bool(torch.allclose(grid, want.detach(), atol=1e-5)), "animations", "%s: animation %d does not start from the pattern of elite %d" % (tr, i, i), tr)


def u_twice(unit, ctx, d):
    from yuca import cmaes, cppn, params_agent
    from yuca.wrappers import halting_wrapper, glider_wrapper
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    from mc.family import classes
    env = unit["env"]
    kw = kwargs(ca_fn=dict(classes(), NCA=NCA, RxnDfn=RxnDfn)[unit["ca"]], selection_mode=unit["mode"], ca_steps=2, batch_size=2)
    base = cmaes.CMAES
    if env in ("pattern", "coevo"):
        kw.update(env_fn=glider_wrapper.GliderWrapper, tag=env, agent_fn=cppn.CPPN if env == "pattern" else cppn.CPPNPlus)
        if env == "coevo":
            base = cmaes.CMACES
    else:
        kw.update(env_fn=getattr(halting_wrapper, env))
    if env == "HaltingWrapper":
        kw.update(dim=16)
    if unit["ca"] == "RxnDfn":
        kw.update(external_channels=2)
    if unit["ca"] == "NCA":
        kw.update(hidden_channels=2)
    plan = [([3], 2), ([3, 4], 2)] if unit["ca"] == "CCA" and env != "HaltingWrapper" else [([3], 2)]
    fast = contextless() if env in ("pattern", "coevo") else None
    for seeds, gens in plan:
        out = []
        for around in (1, 2):
            clear(d)
            core.seed_everything(around)
            if around == 2:
                np.random.rand(7)
            given = seeds[0] if around == 2 and len(seeds) == 1 else list(seeds)        # one seed may be given as a number
            with ctx.guard("search", unit):
                if fast:
                    with evo.patched(multivariate_normal=diag_normal):
                        base(population_size=3, generations=gens, seed=given, **kw).search()
                else:
                    base(population_size=3, generations=gens, seed=given, **kw).search()
            ctx.transitions += 1
            run = {}
            for s in seeds:
                L = logs(d, s)
                ctx.expect(len(L) == 1, "log:file", "%d logs for seed %s" % (len(L), s), unit)
                L = L[0]
                L.pop("kwargs", None)
                run[s] = {"log": unseeded(L), "rule": unseeded(saved(d, s)[0])}
            out.append(run)
        ctx.visit((env, unit["ca"], unit["mode"], tuple(seeds)))
        for s in seeds:
            a, b = out[0][s], out[1][s]
            for key in a["log"]:
                ctx.expect(deep(a["log"][key], b["log"].get(key)), "twice:" + key, "%s: %s differs between two searches with seeds %s" % (unit, key, seeds), unit)
            ctx.expect(deep(a["rule"], b["rule"]), "twice:rule", "%s: saved rule differs between two searches with seeds %s" % (unit, seeds), unit)
            ctx.outcome((unit["ca"], str(a["log"]["mean_fitness"])))
    ctx.sample({"unit": unit, "mean fitness": [float(x) for x in a["log"]["mean_fitness"]]})


def unseeded(x):
    """without the copies of the seed argument kept among an automaton's arguments"""
    if isinstance(x, dict):
        return {k: unseeded(v) for k, v in x.items() if k != "seed"}
    if isinstance(x, (list, tuple)):
        return [unseeded(v) for v in x]
    return x


def contextless():
    return True


def diag_normal(mean, cov, size=None, **kw):
    """the full sampler factors an 800 x 800 matrix; its diagonal and the same random source serve here"""
    m = np.asarray(mean, dtype=np.float64)
    s = np.sqrt(np.clip(np.diag(np.asarray(cov)), 0, None))
    return m + s * np.random.standard_normal(m.shape if size is None else tuple(np.atleast_1d(size)) + m.shape)


def deep(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(deep(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(deep(a[k], b[k]) for k in a)
    return same(a, b) or (a is b) or bool(np.all(np.asarray(a == b, dtype=bool)))


def u_fitness(unit, ctx, d):
    """a candidate's fitness is the mean of its replicates' episodes, each played by that candidate, from a reset environment, for the whole number of steps"""
    import torch
    from yuca import cmaes, cppn
    from yuca.wrappers import halting_wrapper, glider_wrapper
    from yuca.ca.neural import NCA
    from mc.family import classes
    env = unit["env"]
    co = env == "coevo"
    real = glider_wrapper.GliderWrapper if env in ("pattern", "coevo") else getattr(halting_wrapper, env)
    log = []

    def noisy(ca):
        """two steps of a neural rule from one grid differ: it is not in evaluation mode"""
        if unit["ca"] != "NCA":
            return False
        with torch.random.fork_rng():
            torch.manual_seed(1)
            return not torch.equal(ca(probe), ca(probe))
    probe = torch.linspace(0.1, 0.9, 64).reshape(1, 1, 8, 8).to(torch.get_default_dtype())

    class Env(real):
        def reset(self):
            log.append(("reset",))
            return super().reset()

        def step(self, action):
            a = np.array(torch.as_tensor(action).detach().cpu(), dtype=np.float64)
            # the scripted environment draws from both random sources, as real ones may
            log.append(("step", a, np.array(self.ca.get_params(), dtype=np.float64), noisy(self.ca), float(torch.rand(1)), float(np.random.rand()), self.ca_steps))
            k = sum(1 for e in log if e[0] == "step") - 1
            return 0, torch.tensor(plan[k][0]), False, {"active_grid": torch.tensor(plan[k][1])}
    kw = kwargs(ca_fn=dict(classes(), NCA=NCA)[unit["ca"]], env_fn=Env, dim=16 if env == "HaltingWrapper" else 8)
    if unit["ca"] == "NCA":
        kw.update(hidden_channels=8)
    if env in ("pattern", "coevo"):
        kw.update(tag=env, agent_fn=cppn.CPPNPlus if co else cppn.CPPN)
    with ctx.guard("construct", unit):
        core.seed_everything(7)
        with evo.patched(multivariate_normal=evo.Sampler()):
            cm = (cmaes.CMACES if co else cmaes.CMAES)(population_size=3, generations=1, seed=[3], **kw)
            cm.reset()
    draws = {}
    vals = (0.25, -0.5, 1.0, 0.125)
    for i, reps, steps, seed in itertools.product(range(3), (1, 2, 3), (1, 2), (0, 4)):
        for rot in range(4):
            plan = [(vals[(k + rot) % 4], (0.5, 0.0, 1.0)[(k + rot) % 3]) for k in range(reps * steps)]
            for around in (1, 2):
                log.clear()
                core.seed_everything(around * 17 + i)
                tr = {"unit": unit, "candidate": i, "replicates": reps, "steps": steps, "seed": seed, "plan": plan}
                with ctx.guard("fitness", tr):
                    f, alive = cm.get_fitness(i, steps=steps, replicates=reps, seed=seed)
                ctx.transitions += 1
                ctx.visit((i, reps, steps, seed, rot))
                ctx.expect(abs(float(f) - np.mean([p[0] for p in plan])) < 1e-6, "fitness:mean", "%s: fitness %s from episode rewards %s" % (tr, f, [p[0] for p in plan]), tr)
                ctx.expect(abs(float(torch.as_tensor(alive).mean()) - np.mean([p[1] for p in plan])) < 1e-6, "fitness:alive", "%s: alive %s from %s" % (tr, alive, [p[1] for p in plan]), tr)
                ep = [e for e in log if e[0] == "step"]
                if not ctx.expect(len(ep) == reps * steps, "fitness:episodes", "%s: %d episodes" % (tr, len(ep)), tr):
                    continue
                # a reset stands before the first episode of every replicate
                k, since = 0, False
                for e in log:
                    if e[0] == "reset":
                        since = True
                    else:
                        if k % steps == 0:
                            ctx.expect(since, "fitness:reset", "%s: replicate %d starts without a reset" % (tr, k // steps), tr)
                        since = False
                        k += 1
                own = cm.population[i].get_action()
                rule, act = own if co else (None, own)
                act = np.array(torch.as_tensor(act).detach().cpu(), dtype=np.float64)
                for e in ep:
                    ctx.expect(near(e[1], act), "fitness:candidate", "%s: an episode is played by another candidate's action" % tr, tr)
                    if co:
                        ctx.expect(near(e[2], np.array(torch.as_tensor(rule).detach(), dtype=np.float64)), "fitness:rule", "%s: an episode is played under another rule" % tr, tr)
                    ctx.expect(e[6] == kw["ca_steps"], "fitness:steps", "%s: played for %d steps, configured %d" % (tr, e[6], kw["ca_steps"]), tr)
                    ctx.expect(not e[3], "fitness:mode", "%s: the neural rule drops units at random, as in training, instead of being evaluated" % tr, tr)
                rnd = [(e[4], e[5]) for e in ep]
                ctx.expect(draws.setdefault((seed, reps, steps), rnd) == rnd, "fitness:seed", "%s: the random draws of an episode depend on more than the seed" % tr, tr)
        ctx.outcome((i, reps, steps))
    ctx.expect(len({str(v[0]) for (s, r, t), v in draws.items()}) == 2, "fitness:seeds", "%s: both seeds draw the same numbers" % unit, unit)
    ctx.sample({"unit": unit, "episodes": len(draws)})
