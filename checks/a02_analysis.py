"""A02: universe analysis against an independent account of the same trajectories."""
import copy
import itertools
import os
import shutil
import tempfile
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F
from mc.core import Skip
from mc.util import T, N, same
from checks.a01_entropy import wrapped

PROPERTY = "A02"
RULE = ("states = (rule, batch of initial universes, steps): all binary seeds of the central square of a 4x4 torus in batches, ordered pairs of "
        "them, real-valued seeds; directories: every subset of rule files; transition = one analysis, every reported number recomputed")
ASSUMPTIONS = ["one channel", "tolerance 2e-4", "correlation is judged only where both grids vary",
               "empty universes have mean 0, escaped universes have mass on the border (the code's thresholds are 0)"]


def life(b, s):
    iv = lambda r: torch.tensor([[(x - 0.5) / 8, (x + 0.5) / 8] for x in r])
    fn = lambda r: {"name": "SmoothIntervals", "parameters": iv(r), "alpha": torch.tensor(1e-4), "mode": 1}
    return {"neighborhood_kernel_config": {"name": "MooreLike", "radius": 1, "kernel_kwargs": {}},
            "genesis_config": fn(b), "persistence_config": fn(s), "dt": 1.0}


RULES = {"life": life([3], [2, 3]), "seeds": life([2], [9]), "die": life([9], [9]), "maze": life([3], [1, 2, 3, 4, 5]), "b1": life([1], [9]),
         "highlife": life([3, 6], [2, 3]), "walled": life([4, 5, 6, 7, 8], [2, 3, 4, 5])}


DIR = {"life": RULES["life"], "die": RULES["die"], "life.2": RULES["seeds"]}


def rules(cont):
    out = dict(RULES)
    if cont:
        out["gm"] = F.config("gauss3", "none", "gm4", "gaus1", dt=0.2)
        out["decay"] = F.config("gauss3", "none", "gaus1", "gaus1", dt=0.6)
    return out


class Rand:
    """torch.rand returns the seeds of this batch"""

    def __init__(self, seeds):
        self.seeds = seeds

    def __enter__(self):
        self.orig = torch.rand

        def rand(*a, **kw):
            shape = tuple(a[0]) if len(a) == 1 and not isinstance(a[0], int) else tuple(a)
            if shape == tuple(self.seeds.shape):
                return T(self.seeds)
            return self.orig(*a, **kw)
        torch.rand = rand

    def __exit__(self, *a):
        torch.rand = self.orig


def record(ph):
    """list of grids the automaton returns"""
    log = []
    hook = ph.ca.register_forward_hook(lambda m, i, o: log.append((N(i[0]), N(o))))
    return log, hook


def account(first, grids, win):
    """what happened, recomputed from the recorded grids"""
    B = first.shape[0]
    out = {k: [] for k in ("step", "mortality_ratio", "fertility_ratio", "entropy_mean", "entropy_std_dev", "corr")}
    last = [-1] * B
    prev = first
    for s, g in enumerate(grids):
        dead = [not g[b].any() for b in range(B)]
        border = np.zeros(g.shape[-2:], bool)
        border[[0, -1], :] = True
        border[:, [0, -1]] = True
        out["step"].append(s)
        out["mortality_ratio"].append(sum(dead) / B)
        out["fertility_ratio"].append(sum(bool((g[b][:, border] > 0).any()) for b in range(B)) / B)
        for b in range(B):
            if dead[b] and last[b] == -1:
                last[b] = s
        e = np.array([wrapped(g[b, 0], win) for b in range(B)])
        out["entropy_mean"].append(e.mean())
        out["entropy_std_dev"].append(e.std())
        a, c = prev, g
        if a.std() > 1e-6 and c.std() > 1e-6 and a.size > 1:
            za, zc = (a - a.mean()) / a.std(ddof=1), (c - c.mean()) / c.std(ddof=1)
            out["corr"].append((za * zc).sum() / (B * 1 * g.shape[-1] * g.shape[-2]))
        else:
            out["corr"].append(None)
        prev = g
        if all(dead):
            break
    out["last_step"] = last
    return out


def compare(ctx, res, acc, tr):
    n = len(acc["step"])
    ctx.expect(list(res["step"]) == acc["step"], "steps", lambda: "steps %s, simulated until all empty: %s" % (res["step"], acc["step"]), tr)
    for k in ("mortality_ratio", "fertility_ratio", "entropy_mean", "entropy_std_dev"):
        ctx.expect(len(res[k]) == n and np.allclose(res[k], acc[k], atol=2e-4), k,
                   lambda: "%s reported %s, happened %s" % (k, np.asarray(res[k]).tolist(), acc[k]), tr)
    ctx.expect([int(x) for x in np.asarray(res["last_step"]).ravel()] == acc["last_step"], "last_step",
               lambda: "last steps reported %s, happened %s" % (np.asarray(res["last_step"]).tolist(), acc["last_step"]), tr)
    ctx.expect(len(res["autocorrelation"]) == n, "correlation", "one correlation per step expected", tr)
    for s, (r, w) in enumerate(zip(res["autocorrelation"], acc["corr"])):
        if w is not None:
            ctx.expect(abs(r[0] - w) <= 1e-3 and abs(r[2] - w) <= 1e-3 and abs(r[3] - w) <= 1e-3 and abs(r[1]) <= 1e-3, "correlation",
                       lambda: "step %d: correlation %s, recomputed %s" % (s, r, w), tr)


def analyse(ctx, ph, seeds, tr, expect_first=True):
    log, hook = record(ph)
    try:
        with Rand(seeds), ctx.guard("analyze", tr):
            res = ph.analyze_universe()
    finally:
        hook.remove()
    dim = ph.dim
    first = np.zeros((seeds.shape[0], 1, dim, dim))
    q = (dim - dim // 2) // 2
    first[:, :, q:q + dim // 2, q:q + dim // 2] = seeds
    ctx.expect(np.allclose(log[0][0], first, atol=1e-6), "start", "the universes do not start from the seed in the central square", tr)
    for s in range(1, len(log)):
        ctx.expect(np.array_equal(log[s][0], log[s - 1][1]), "chain", "step %d does not start from the result of the last" % s, tr)
    return res, first, [g for _, g in log]


def phanes(steps, batch, dim=4, **kw):
    from yuca.analyze import Phanes
    return Phanes(ca_steps=steps, batch_size=batch, dim=dim, **kw)


def all_seeds():
    return np.array(list(itertools.product((0.0, 1.0), repeat=4))).reshape(16, 1, 2, 2)


def run_universe(u, ctx):
    cfg = rules(True)[u["rule"]]
    seeds = all_seeds()
    jobs = []
    if u["what"] == "all":
        jobs = [(seeds, s) for s in u["steps"]]
    elif u["what"] == "single":
        jobs = [(seeds[i:i + 1], s) for i in range(16) for s in u["steps"]]
    elif u["what"] == "pairs":
        jobs = [(seeds[[i, j]], u["steps"][0]) for i in range(16) for j in range(16) if (i * 16 + j) % u["of"] == u["part"]]
    elif u["what"] == "sizes":
        # every side of the universe, odd ones too
        for dim in u["dims"]:
            h = dim // 2
            jobs.append((np.mod(np.arange(2 * h * h).reshape(2, 1, h, h) * 0.618 + 0.13 * dim, 1.0), 3, dim))
            jobs.append((np.ones((1, 1, h, h)), 2, dim))
    elif u["what"] == "real":
        for k in range(u["n"]):
            jobs.append((np.mod(np.arange(12).reshape(3, 1, 2, 2) * 0.618 + 0.21 * k, 1.0), 4))
            b = np.mod(np.arange(32).reshape(2, 1, 4, 4) * 0.618 + 0.21 * k, 1.0)
            jobs.append((b, 3))
    for job in jobs:
        sd, steps = job[:2]
        dim = job[2] if len(job) > 2 else 2 * sd.shape[-1]
        with suppress(Skip):
            tr = [u["rule"], dim, sd.reshape(len(sd), -1).tolist(), steps]
            with ctx.guard("build", tr):
                ph = phanes(steps, len(sd), dim=dim)
                ph.ca.load_config(copy.deepcopy(cfg))
            ctx.transitions += 1
            ctx.visit(str(tr))
            res, first, grids = analyse(ctx, ph, sd, tr)
            # the number of steps simulated: until all are empty, or the limit
            want = len(grids)
            for s, g in enumerate(grids):
                if not g.any():
                    want = s + 1
                    break
            ctx.expect(len(grids) == want and (want == steps or not grids[-1].any()), "length",
                       lambda: "%d steps simulated of %d, all empty after %d" % (len(grids), steps, want), tr)
            win = 2 * cfg["neighborhood_kernel_config"]["radius"] + 1
            compare(ctx, res, account(first, grids, win), tr)
            if u["rule"] in RULES:
                # and the trajectory is that of the rule
                r = ref.RefCCA(cfg)
                for s, g in enumerate(grids):
                    pre = first if s == 0 else grids[s - 1]
                    ctx.expect(np.abs(g - r.step(pre)).max() < 2e-3, "rule", "step %d is not a step of the rule" % s, tr)
            ctx.outcome(np.asarray(res["last_step"]).tolist())
            ctx.traces += 1
    if jobs:
        ctx.sample({"rule": u["rule"], "universes": len(jobs[-1][0]), "last steps": np.asarray(res["last_step"]).tolist()})


def run_directory(u, ctx):
    """every subset of rule files: one result each, equal to analysing the rule alone"""
    from yuca.analyze import Phanes
    names = ["life", "die", "life.2"]       # only the extension is not part of the name
    seeds = all_seeds()[[3, 7, 0, 15]]
    alone = {}
    for n in names:
        with ctx.guard("alone", n):
            ph = phanes(3, 4)
            ph.ca.load_config(copy.deepcopy(DIR[n]))
            alone[n] = analyse(ctx, ph, seeds, n)[0]
    jobs = [(s, fl) for k in range(len(names) + 1) for s in (itertools.permutations if u["orders"] else itertools.combinations)(names, k)
            for fl in itertools.product((False, True), repeat=4)]
    for subset, flags in jobs[u["part"]::u["of"]]:
        if True:
            for slash, rel, made, extra in [flags]:
                d = tempfile.mkdtemp(prefix="yuca-a02-")
                cwd = os.getcwd()
                tr = [subset, slash, rel, made, extra]
                try:
                    base = os.path.join(d, "in", "ner")
                    os.makedirs(os.path.join(base, "rules"))
                    if made:
                        os.makedirs(os.path.join(base, "ca_analysis"))
                    for n in subset:
                        np.save(os.path.join(base, "rules", n + ".npy"), DIR[n])
                    if extra:
                        with open(os.path.join(base, "rules", "README.txt"), "w") as f:
                            f.write("not a rule")
                    os.chdir(base)
                    path = ("rules" if rel else os.path.join(base, "rules")) + ("/" if slash else "")

                    def listing():
                        return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
                    before = listing()
                    with suppress(Skip):
                        with Rand(seeds), ctx.guard("directory", tr):
                            ph = phanes(3, 4, input_directory=path)
                            ph.analyze_multiverse()
                        ctx.transitions += 1
                        ctx.visit(str(tr))
                        after = listing()
                        new = sorted(set(after) - set(before))
                        ctx.expect(set(before) <= set(after), "directory:removed", "files removed: %s" % sorted(set(before) - set(after)), tr)
                        ctx.expect(len(new) == len(subset) and all(os.path.dirname(x) == "in/ner/ca_analysis" for x in new), "directory:files",
                                   lambda: "results for %s: %s" % (list(subset), new), tr)
                        for n in subset:
                            mine = [x for x in new if os.path.basename(x).startswith(n) and not any(
                                len(o) > len(n) and o.startswith(n) and os.path.basename(x).startswith(o) for o in subset)]
                            if not ctx.expect(len(mine) == 1, "directory:one", "results of %s: %s" % (n, mine), tr):
                                continue
                            r = np.load(os.path.join(d, mine[0]), allow_pickle=True).reshape(1)[0]
                            ctx.expect(r["name"] == n + ".npy" and r["max_ca_steps"] == 3, "directory:name", "result of %s says %s" % (n, r["name"]), tr)
                            for q, v in alone[n].items():
                                ctx.expect(np.allclose(np.asarray(r[q], dtype=float), np.asarray(v, dtype=float), atol=1e-6, equal_nan=True)
                                           if np.shape(r[q]) == np.shape(v) else False, "directory:" + q,
                                           lambda: "%s of %s analysed with %s: %s, alone %s" % (q, n, subset, r[q], v), tr)
                        for n in subset:
                            c = np.load(os.path.join(base, "rules", n + ".npy"), allow_pickle=True).reshape(1)[0]
                            ctx.expect(same(c, DIR[n]), "directory:rule-changed", "rule file %s was changed" % n, tr)
                        ctx.traces += 1
                finally:
                    os.chdir(cwd)
                    shutil.rmtree(d, ignore_errors=True)


def units(tier, seed):
    th = tier == "thorough"
    us = []
    for r in RULES:
        us.append(dict(kind="u", rule=r, what="all", steps=[1, 2, 5] if not th else [1, 2, 3, 5, 9]))
        us.append(dict(kind="u", rule=r, what="single", steps=[3] if not th else [1, 4, 8]))
    for r in ("life", "seeds", "die") if not th else RULES:
        us += [dict(kind="u", rule=r, what="pairs", steps=[3], of=8, part=p) for p in range(8)]
    for r in ("gm", "decay", "life"):
        us.append(dict(kind="u", rule=r, what="real", n=2 if not th else 12))
    for r in ("gm", "decay", "life", "b1"):
        us.append(dict(kind="u", rule=r, what="sizes", dims=list(range(4 if r != "gm" else 5, 12 if not th else 20))))
    us += [dict(kind="d", orders=th, of=16, part=p) for p in range(16)]
    return us


def run_unit(u, ctx):
    with suppress(Skip):
        (run_universe if u["kind"] == "u" else run_directory)(u, ctx)
