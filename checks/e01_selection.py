"""E01: selection keeps the fittest candidates, unaltered."""
import itertools
import numpy as np
from mc import evo
from mc.core import Skip

PROPERTY = "E01"
RULE = ("states = (selection mode or final ranking, population size, fitness vector, outcome of the random draws, previous generation): every permutation and every tie "
        "pattern over three levels for small populations, every placement of the best candidates for 16..26, every tournament bracket, every lottery outcome, with a second "
        "generation chained to expose aliasing; transition = one update_population / rank_population call")
ASSUMPTIONS = ["with equal fitness any order among the equals is accepted",
               "np.random is replaced by enumerated draws in tournament and lottery selection; sampled candidates are pairwise different vectors"]
SCALES = {"tenth": lambda r: -0.35 + 0.1 * r, "tiny": lambda r: -0.5001 + 1e-9 * r, "neg": lambda r: -3.0 * 2.0 ** (-r)}


def units(tier, seed):
    q = tier == "quick"
    us = []
    for how in ("mode0", "rank"):
        for n in range(1, 7 if q else 8):
            us.append({"kind": "perm", "how": how, "n": n})
        us.append({"kind": "perm", "how": how, "n": 8, "head": 5 if q else 8})
        for n in range(2, 6 if q else 8):
            us.append({"kind": "ties", "how": how, "n": n})
        for n in (8, 9, 15, 16, 17, 23, 24, 25, 26) + (() if q else (31, 32, 40)):
            us.append({"kind": "place", "how": how, "n": n, "k": 2 if q or n > 26 else 3})
        if q:
            us += [{"kind": "place", "how": how, "n": n, "k": 1} for n in (31, 32, 40, 48)]
        for n in (8, 16, 24):
            us.append({"kind": "chain", "how": how, "n": n})
    for n in (1, 2, 4, 7):
        us.append({"kind": "tourney", "n": n})
    for n in (8, 9):
        for part in range(5):
            us.append({"kind": "tourney", "n": n, "part": part})
    for n in (16, 24):
        for part in range(4):
            us.append({"kind": "tourney", "n": n, "slot": True, "part": part})
    for n in (1, 3, 7, 8, 12, 16):
        for part in range(4):
            us.append({"kind": "lottery", "n": n, "part": part})
    for n in (24, 32):
        for part in range(4):
            us.append({"kind": "lottery", "n": n, "part": part, "pairs": True})
    for agent in ("CPPN", "CPPNPlus"):
        us.append({"kind": "agents", "agent": agent})
    return us


def build(n, how="mode0", **kw):
    mode = {"mode0": 0, "rank": 0, "mode1": 1, "mode2": 2}[how]
    cm = evo.make(population_size=n, selection_mode=mode, **kw)
    cm.reset()
    return cm


def fresh(cm, rows):
    """put the recorded candidates back (each test starts from the same population and distribution)"""
    cm.means, cm.covar = 1.0 * cm.starting_means, 1.0 * cm.starting_covar
    cm.elite_params = None
    for a, r in zip(cm.population, rows):
        a.set_params(r.copy())


def judge(ctx, cm, rows, fit, how, tr, n, elites_ok=None):
    """elites are population members as evaluated, best first; half of them reappear in the next population"""
    keep = n // 8 + 1
    el = np.array(cm.elite_params, dtype=np.float64)
    what = "%s, population %d" % (how, n)
    if not ctx.expect(el.shape == (keep, rows[0].shape[0]), "shape", "%s: elites have shape %s, expected %d rows" % (what, el.shape, keep), tr):
        return
    ids = []
    for j, e in enumerate(el):
        hit = evo.find(rows, e)
        if not ctx.expect(len(hit) > 0, "unaltered", "%s: recorded elite %d is not a candidate that was evaluated (fitness %s)" % (what, j, list(fit)[:10]), tr):
            return
        ids.append(hit)
    ids = [h[0] for h in ids]
    if elites_ok is None:
        want = sorted(fit, reverse=True)[:keep]
        got = [fit[i] for i in ids]
        ctx.expect(len(set(ids)) == keep, "distinct", "%s: the same candidate is kept twice: %s" % (what, ids), tr)
        ctx.expect(got == want, "best", "%s: kept candidates %s with fitness %s, the best are %s" % (what, ids, got, want), tr)
    else:
        elites_ok(ids, what)
    if how != "rank":
        new = evo.pop_params(cm)
        ctx.expect(len(new) == n, "size", "%s: population size became %d" % (what, len(new)), tr)
        for j in range(keep // 2):
            ctx.expect(len(evo.find(new, el[j])) > 0, "carried", "%s: elite %d is missing from the next population" % (what, j), tr)
    ctx.outcome((how, n, ids[:4]))


def step(ctx, cm, rows, fit, how, tr, n, elites_ok=None):
    if not ctx.visit((how, n, tuple(fit), str(tr)[:200] if elites_ok else None, "")):
        pass
    with ctx.guard(how, tr):
        if how == "rank":
            cm.rank_population(list(fit), seed=5)
        else:
            cm.update_population(list(fit))
    ctx.transitions += 1
    judge(ctx, cm, rows, fit, how, tr, n, elites_ok)


def run_unit(unit, ctx):
    with evo.scratch():
        try:
            _run(unit, ctx)
        except Skip:
            return


def _run(unit, ctx):
    kind, n = unit["kind"], unit.get("n", 8)
    how = unit.get("how", {"tourney": "mode1", "lottery": "mode2"}.get(kind, "mode0"))
    if kind == "agents":
        return agents(unit, ctx)
    with ctx.guard("construct"):
        cm = build(n, how)
    rows = evo.pop_params(cm)
    ctx.expect(len(rows) == n, "size", "reset makes %d candidates, expected %d" % (len(rows), n))
    keep = n // 8 + 1

    def go(fit, tr, ok=None):
        fresh(cm, rows)
        step(ctx, cm, rows, fit, how, tr, n, ok)

    if kind == "perm":
        head = unit.get("head", n)
        for p in itertools.permutations(range(n), head):
            r = list(p) + [x for x in range(n) if x not in p]
            for sc in ("tenth",) if n > 6 else ("tenth", "tiny"):
                go([np.float64(SCALES[sc](x)) for x in r], {"fitness ranks": r, "scale": sc})
    elif kind == "ties":
        for v in itertools.product(range(3), repeat=n):
            go([np.float64(SCALES["neg"](x)) for x in v], {"fitness levels": v})
    elif kind == "place":
        k = min(unit["k"], keep)
        for pos in itertools.permutations(range(n), k):
            if k == 3 and pos[0] > pos[1] and n > 17:
                continue            # keeps the thorough tier within its time
            for rest in ("up", "down"):
                v = list(range(n - k)) if rest == "up" else list(range(n - k))[::-1]
                it = iter(v)
                r = [n - pos.index(i) if i in pos else next(it) for i in range(n)]
                go([np.float64(SCALES["tenth"](x)) for x in r], {"best at": pos, "rest": rest})
    elif kind == "chain":
        # two generations: the elites of the first are in the second population; every placement of the two best afterwards
        from mc.core import seed_everything
        for p1 in itertools.permutations(range(min(n, 8)), 2):
            for p2 in itertools.permutations(range(min(n, 6)), 2):
                r1 = [n - p1.index(i) if i in p1 else i * 0.5 for i in range(n)]
                r2 = [n - p2.index(i) if i in p2 else -i * 0.5 for i in range(n)]
                fresh(cm, rows)
                tr = {"best at": [p1, p2]}
                with ctx.guard("chain", tr):
                    cm.update_population([np.float64(x) for x in r1])
                e1 = np.array(cm.elite_params)
                judge(ctx, cm, rows, r1, "mode0", tr, n)
                rows2 = evo.pop_params(cm)
                step(ctx, cm, rows2, [np.float64(x) for x in r2], how, tr, n)
                if n == 8:
                    # the population's own bookkeeping must not reach back into the recorded elites
                    e2 = np.array(cm.elite_params)
                    for a in cm.population:
                        a.set_params(a.get_params() * 0 + 7.0)
                    ctx.expect(np.array_equal(e2, cm.elite_params), "alias", "writing candidates changed the recorded elites", tr)
                    cm.env.ca.set_params(rows[0])
    elif kind == "tourney":
        perms = {"up": list(range(n)), "down": list(range(n))[::-1], "mix": [(5 * i + 3) % n if n % 5 else (7 * i + 3) % n for i in range(n)], "flat": [0] * n,
                 "two": [i % 2 for i in range(n)]}
        draws = keep * keep
        for pi, (name, r) in enumerate(perms.items()):
            if unit.get("part", pi) != pi:
                continue
            fit = [np.float64(SCALES["tenth"](x)) for x in r]
            if unit.get("slot"):
                space = []
                for slot in range(keep):
                    it = itertools.product(range(n), repeat=2)
                    for t in it:
                        tape = [(3 * i + 1) % n for i in range(draws)]
                        tape[slot * keep:slot * keep + 2] = t
                        space.append(tape)
            else:
                space = itertools.product(range(n), repeat=draws)
            for tape in space:
                tp = evo.Tape(tape)
                tr = {"fitness ranks": r, "draws": tape}

                def ok(ids, what):
                    if not ctx.expect(tp.i >= draws, "bracket", "%s: drew %d of %d contestants" % (what, tp.i, draws), tr):
                        return
                    ctx.expect(set(tp.bounds) == {(0, n)}, "bracket", "%s: contestants drawn from %s" % (what, set(tp.bounds)), tr)
                    for j in range(keep):
                        br = list(tape[j * keep:(j + 1) * keep])
                        best = max(fit[i] for i in br)
                        ctx.expect(ids[j] in br and fit[ids[j]] == best, "champion",
                                   "%s: bracket %s with fitness %s was won by candidate %d" % (what, br, [fit[i] for i in br], ids[j]), tr)

                fresh(cm, rows)
                with evo.patched(randint=tp.randint, choice=lambda a, size=None, replace=True, p=None: tp.randint(0, a if np.isscalar(a) else len(a), size)):
                    step(ctx, cm, rows, fit, how, tr, n, ok)
    elif kind == "lottery":
        for pi, r in enumerate(([*range(n)], [*range(n)][::-1], [(5 * i + 3) % n if n % 5 else (7 * i + 3) % n for i in range(n)], [i // 2 for i in range(n)])):
            if pi != unit["part"]:
                continue
            fit = [np.float64(SCALES["tenth"](x)) for x in r]
            space = itertools.permutations(range(n), keep)
            if unit.get("pairs"):
                space = []
                for a, b in itertools.permutations(range(n), 2):
                    rest = [x for x in range(n - 1, -1, -1) if x not in (a, b)][:keep - 2]
                    space.append((a, b, *rest) if (a + b) % 2 else (*rest, a, b))
            for ranks in space:
                lo = evo.Lottery(ranks)
                tr = {"fitness ranks": r, "drawn ranks": ranks}

                def ok(ids, what):
                    ctx.expect(len(set(ids)) == keep, "lottery:distinct", "%s: picked %s" % (what, ids), tr)
                    for a, p, rep in lo.calls:
                        ctx.expect(not rep or keep == 1, "lottery:replace", "%s: drawn with replacement" % what, tr)
                        if not ctx.expect(p is not None and len(p) == n and abs(p.sum() - 1) < 1e-9, "lottery:p", "%s: probabilities %s" % (what, p), tr):
                            return
                        ctx.expect(len(a) == n, "lottery:all", "%s: drawn from %s" % (what, a), tr)
                        w = 1.0 / np.arange(1, n + 1) ** 2
                        w /= w.sum()
                        ctx.expect(np.max(np.abs(np.sort(p)[::-1] - w)) < 1e-9, "lottery:weights", "%s: probabilities %s" % (what, p), tr)
                    if lo.calls:
                        # the k-th winner was drawn with the odds of rank ranks[k], so it must be the candidate of that rank
                        by = sorted(fit, reverse=True)
                        want = [by[k] for k in ranks]
                        ctx.expect(sorted(fit[i] for i in ids) == sorted(want), "lottery:drawn",
                                   "%s: drew the candidates of fitness %s but kept %s" % (what, want, [fit[i] for i in ids]), tr)

                fresh(cm, rows)
                with evo.patched(choice=lo):
                    step(ctx, cm, rows, fit, how, tr, n, ok)
    ctx.sample({"how": how, "population": n, "elites": keep})


def agents(unit, ctx):
    """the same guarantees with network agents, whose parameters live in single precision tensors"""
    from yuca import cppn
    fn = getattr(cppn, unit["agent"])
    cls = "CMACES" if unit["agent"] == "CPPNPlus" else "CMAES"
    for n in (2, 8, 17):
        for mode in (0, 1, 2):
            with ctx.guard("construct"):
                cm = evo.make(cls, agent_fn=fn, population_size=n, selection_mode=mode, tag="pattern" if cls == "CMAES" else "coevo", dim=8)
                # a diagonal distribution stands in for the full one: the code under test only passes it on
                with evo.patched(multivariate_normal=evo.Sampler()):
                    cm.reset()
            rows = evo.pop_params(cm)
            for shift in range(n):
                fit = [np.float64(((i + shift) * 7 % n if n % 7 else (i + shift) % n)) for i in range(n)]
                tr = {"agent": unit["agent"], "n": n, "mode": mode, "shift": shift}
                with evo.patched(multivariate_normal=evo.Sampler()):
                    fresh(cm, rows)
                    now = evo.pop_params(cm)
                    with ctx.guard("agents", tr):
                        cm.update_population(fit)
                ctx.visit((unit["agent"], n, mode, shift))
                ctx.transitions += 1
                judge(ctx, cm, now, fit, "mode%d" % mode, tr, n, (lambda ids, what: None) if mode else None)
