"""W01: halting rewards reflect which grids survived."""
import itertools
import numpy as np
import torch
from mc import core
from mc.util import T, N
from mc.core import Skip

PROPERTY = "W01"
RULE = ("states = (batch size, channels, step count, time at which each grid of the batch dies, size of the surviving mass, prediction mode, prediction of the network): every combination "
        "with a scripted automaton as environment, plus every automaton class with its real steps replayed; transition = one environment step")
ASSUMPTIONS = ["scripted automata subclass CCA and override the step; masses above the environment's 1e-4 / 1e-5 thresholds or exactly zero are judged"]


def units(tier, seed):
    q = tier == "quick"
    us = []
    for b in (1, 2, 3, 4) + (() if q else (5,)):
        for c in (1, 2, 4):
            us.append({"kind": "simple", "b": b, "c": c, "steps": 3 if b < 4 or not q else 2})
    us.append({"kind": "simple", "b": 2, "c": 1, "steps": 6})
    for m in (0, 1, 2):
        for b in (1, 2, 3) + (() if q else (4,)):
            for first in (END if b > 2 else MORE) if b > 1 else (None,):
                us.append({"kind": "halting", "mode": m, "b": b, "c": 1, "first": first})
        us += [{"kind": "halting", "mode": m, "b": 2, "c": 2, "first": f} for f in MORE]
    for ca in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn"):
        us.append({"kind": "real", "ca": ca})
    us.append({"kind": "soup"})
    us.append({"kind": "accuracy"})
    return us


def scripted_class():
    from yuca.ca.continuous import CCA

    class Scripted(CCA):
        script = None           # function (episode, step, batch, shape) -> grid

        def __init__(self, **kw):
            super().__init__(**kw)
            self.episode, self.n, self.last = -1, 0, None
            self.starts, self.lens, self.resets, self.set = [], [], 0, []

        def reset(self):
            self.resets = getattr(self, "resets", 0) + 1
            super().reset()

        def set_params(self, p):
            if hasattr(self, "set"):
                self.set.append(np.array(p, dtype=np.float64))
            super().set_params(p)

        def forward(self, grid, mode=0):
            if self.last is None or grid.shape != self.last.shape or not torch.equal(grid, self.last):
                self.episode += 1
                self.n = 0
                self.starts.append((grid.clone(), self.resets))
                self.lens.append(0)
            self.n += 1
            self.lens[-1] += 1
            self.last = type(self).script(self.episode, self.n, grid)
            return self.last
    return Scripted


def run_unit(unit, ctx):
    try:
        globals()["u_" + unit["kind"]](unit, ctx)
    except Skip:
        return


MASS = {"full": 1.0, "cell": None, "faint": 0.01}


def place(g, i, mass):
    """grid i alive with the given mass, in its last channel for a single cell"""
    if mass == "cell":
        g[i, -1, 3, 2] = 1.0
    else:
        g[i] = MASS[mass]


def u_simple(unit, ctx):
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
    b, c = unit["b"], unit["c"]
    S = scripted_class()
    for steps in range(1, unit["steps"] + 1):
        env = SimpleHaltingWrapper(ca_fn=S, ca_steps=steps, batch_size=b, dim=8, kernel_radius=2, external_channels=c)
        p0 = np.array(env.ca.get_params(), dtype=np.float64)
        for masses in (("full",), ("cell",), ("faint",), ("cell", "full")):
            # dies[i] = number of the step at which grid i is empty (steps+1: never)
            for dies in itertools.product(range(1, steps + 2), repeat=b):
                def script(ep, n, grid):
                    g = torch.zeros(b, c, 8, 8)
                    for i in range(b):
                        if n < dies[i]:
                            place(g, i, masses[i % len(masses)])
                    return g
                S.script = staticmethod(script)
                tr = {"batch": b, "steps": steps, "empty from step": dies, "mass": masses}
                env.ca.__dict__.update(episode=-1, n=0, last=None, starts=[], lens=[], set=[])
                act = p0 * 1.01
                with ctx.guard("simple", tr):
                    core.seed_everything(1)
                    env.reset()
                    o, r, d, info = env.step(act.copy())
                ctx.visit((b, c, steps, masses, dies))
                ctx.transitions += 1
                alive = sum(x > steps for x in dies) / b
                want_steps = min(steps, max(dies)) if max(dies) <= steps else steps
                ctx.expect(env.ca.lens == [want_steps], "simple:steps", "%s: ran %s steps, expected %d" % (tr, env.ca.lens, want_steps), tr)
                ctx.expect(abs(float(info["active_grid"]) - alive) < 1e-6, "simple:active", "%s: reports %s active, %s are" % (tr, float(info["active_grid"]), alive), tr)
                ctx.expect(abs(float(r) + abs(alive - 0.5001)) < 2e-4, "simple:reward", "%s: reward %s for a surviving fraction of %s" % (tr, float(r), alive), tr)
                ctx.expect(len(env.ca.set) >= 1 and np.allclose(env.ca.set[-1], act), "simple:params", "%s: the candidate's parameters were not written into the rule" % tr, tr)
                ctx.outcome((alive, want_steps))
    ctx.sample({"batch": b, "channels": c, "dies": dies})


def soup_ok(ctx, g, b, c, dim, tr, central=True):
    ok = ctx.expect(tuple(g.shape) == (b, c, dim, dim), "soup:shape", "%s: starts from shape %s" % (tr, tuple(g.shape)), tr)
    a = N(g)
    ctx.expect(a.min() >= 0 and a.max() <= 1, "soup:range", "%s: starts from values in [%s, %s]" % (tr, a.min(), a.max()), tr)
    if not ok:
        return
    if central:
        h = dim // 4
        m = np.zeros((dim, dim), dtype=bool)
        m[h:dim - h, h:dim - h] = True
        ctx.expect((a[:, :, ~m] == 0).all(), "soup:centre", "%s: the starting grid is not confined to the centre" % tr, tr)
        ctx.expect((a[:, :, m] > 0).mean() > 0.9, "soup:centre", "%s: the centre of the starting grid is not filled" % tr, tr)
    for i, j in itertools.combinations(range(b), 2):
        ctx.expect(not np.array_equal(a[i], a[j]), "soup:distinct", "%s: two grids of the batch are the same" % tr, tr)


def u_soup(unit, ctx):
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
    S = scripted_class()
    for dim in range(4, 21):
        for b, c in ((1, 1), (3, 1), (2, 4)):
            S.script = staticmethod(lambda ep, n, g: g * 0.5)
            env = SimpleHaltingWrapper(ca_fn=S, ca_steps=2, batch_size=b, dim=dim, kernel_radius=1, external_channels=c)
            tr = {"dim": dim, "batch": b, "channels": c}
            for ep in range(2):
                k = env.ca.resets
                with ctx.guard("soup", tr):
                    env.reset()
                    env.step(env.ca.get_params())
                ctx.transitions += 1
                ctx.visit((dim, b, c, ep))
                soup_ok(ctx, env.ca.starts[-1][0], b, c, dim, tr)
                ctx.expect(env.ca.resets > k, "soup:reset", "%s: the automaton was not reset" % tr, tr)
            ctx.expect(not torch.equal(env.ca.starts[0][0], env.ca.starts[-1][0]), "soup:fresh", "%s: two episodes start from the same grid" % tr, tr)


# how a grid ends in the predictor environment: dead, static, changing
END = {"dead": (0.0, 0.0), "static": (0.4, 0.4), "moving": (0.4, 0.7)}
# in small batches also: faint everywhere, and one changing cell in the last channel
MORE = dict(END, faint=(0.005, 0.005), speck=(0.5, 0.9))


def u_halting(unit, ctx):
    from yuca.wrappers.halting_wrapper import HaltingWrapper
    mode, b, c = unit["mode"], unit["b"], unit["c"]
    S = scripted_class()
    cols = 2 if mode == 2 else 1

    class Env(HaltingWrapper):
        preds, fixed = None, None

        def forward(self, x):
            self.preds.append(tuple(x.shape))
            p = super().forward(x)
            if self.fixed is not None:
                p = p * 0 + self.fixed
            return p

    for ca_steps in (1, 3):
        core.seed_everything(2)
        env = Env(ca_fn=S, ca_steps=ca_steps, batch_size=b, dim=8, kernel_radius=2, external_channels=c, num_blocks=1, prediction_mode=mode, lr=1e-2)
        bb = env.bigbang_steps
        for ends in itertools.product(END if b > 2 else MORE, repeat=b):
            if unit.get("first") not in (None, ends[0]):
                continue
            for bits in itertools.product((0.1, 0.9), repeat=b * cols):
                if b >= 3 and mode == 2 and sum(x > 0.5 for x in bits) not in ((0, 1, 3, 6) if b == 3 else (0, 1)):
                    continue

                def script(ep, n, grid):
                    g = torch.zeros(b, c, 8, 8)
                    for i in range(b):
                        a, z = MORE[ends[i]]
                        if n <= bb:
                            g[i] = 0.2 + 0.01 * i           # everything lives through the big bang
                        elif ends[i] == "speck":
                            g[i, -1, 3, 2] = a if n % 2 else z
                        elif a == z:
                            g[i] = a
                        else:
                            g[i, :, 1:3] = a if n % 2 else z
                    return g
                S.script = staticmethod(script)
                tr = {"mode": mode, "ends": ends, "predictions": bits, "steps": ca_steps}
                env.preds = []
                env.fixed = torch.tensor(bits).reshape(b, cols)
                env.ca.__dict__.update(episode=-1, n=0, last=None, starts=[], lens=[], set=[])
                targets = []
                p = np.array(env.ca.get_params(), dtype=np.float64)
                with ctx.guard("halting", tr):
                    env.reset()
                    if isinstance(getattr(env, "loss_fn", None), torch.nn.Module):
                        env.loss_fn.register_forward_pre_hook(lambda mod, a: targets.append(a[1].detach().clone()))
                    k = env.ca.resets
                    o, r, d, info = env.step(p.copy())
                ctx.visit((mode, b, c, ca_steps, ends, bits))
                ctx.transitions += 1
                alive = [e != "dead" for e in ends]
                moving = [e in ("moving", "speck") for e in ends]
                want = {0: [[a] for a in alive], 1: [[m] for m in moving], 2: [[a, m] for a, m in zip(alive, moving)]}[mode]
                W = np.array(want, dtype=float)
                ctx.expect(abs(float(info["active_grid"]) - W.mean()) < 1e-6, "halting:active", "%s: reports %s active, expected %s" % (tr, float(info["active_grid"]), W.mean()), tr)
                acc = float(np.mean((np.array(bits).reshape(b, cols) > 0.5) == (W > 0.5)))
                ctx.expect(abs(float(r) + acc) < 1e-6, "halting:reward", "%s: reward %s for an accuracy of %s" % (tr, float(r), acc), tr)
                for t in targets:
                    ctx.expect(t.shape == W.shape and np.array_equal(N(t), W), "halting:targets", "%s: trained against %s, the outcomes are %s" % (tr, N(t).tolist(), W.tolist()), tr)
                # every episode: big bang, then up to the configured steps or until all grids are empty, then one look-ahead step
                eps = len(env.ca.lens)
                ctx.expect(eps == env.train_steps + 1, "halting:episodes", "%s: %d episodes, expected %d training and one evaluation" % (tr, eps, env.train_steps), tr)
                run = 1 if not any(alive) else ca_steps
                ctx.expect(all(x == bb + run + 1 for x in env.ca.lens), "halting:steps", "%s: episodes of %s steps, expected %d + %d + 1" % (tr, env.ca.lens, bb, run), tr)
                rs = [x[1] for x in env.ca.starts]
                ctx.expect(all(y > x for x, y in zip([k] + rs, rs)), "halting:reset", "%s: an episode starts without a reset: %s" % (tr, rs), tr)
                for g, _ in env.ca.starts[:1] + env.ca.starts[-1:]:
                    soup_ok(ctx, g, b, c, 8, tr, central=False)
                ctx.outcome((mode, W.mean(), acc))
    ctx.sample({"mode": mode, "ends": ends, "accuracy": acc})


def u_accuracy(unit, ctx):
    from yuca.wrappers.halting_wrapper import HaltingWrapper
    core.seed_everything(2)
    env = HaltingWrapper(ca_steps=1, batch_size=2, dim=8, kernel_radius=2, num_blocks=1)
    vals = (0.0, 0.2, 0.49, 0.51, 0.8, 1.0)
    for n, cols in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2)):
        for p in itertools.product(vals, repeat=n * cols) if n * cols <= 3 else itertools.product((0.1, 0.6), repeat=n * cols):
            for t in itertools.product((0.0, 1.0), repeat=n * cols):
                a = float(env.get_accuracy(torch.tensor(p).reshape(n, cols), torch.tensor(t).reshape(n, cols)))
                w = np.mean([(x > 0.5) == (y > 0.5) for x, y in zip(p, t)])
                ctx.visit((n, cols, p, t))
                ctx.transitions += 1
                ctx.expect(abs(a - w) < 1e-6, "accuracy", "accuracy of %s against %s is %s, expected %s" % (p, t, a, w), [p, t])


def u_real(unit, ctx):
    """the environment with real automata equals stepping the same automaton by hand"""
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    from mc.family import classes
    base = dict(classes(), NCA=NCA, RxnDfn=RxnDfn)[unit["ca"]]

    class Rec(base):
        log = None

        def forward(self, grid, mode=0):
            out = super().forward(grid) if mode == 0 else super().forward(grid, mode)
            if self.log is not None:
                self.log.append((grid.detach().clone(), out.detach().clone()))
            return out
    kw = {"external_channels": 2} if unit["ca"] == "RxnDfn" else {}
    for steps in (1, 2, 4):
        for b in (1, 3):
            for k in range(6):
                core.seed_everything(k)
                env = SimpleHaltingWrapper(ca_fn=Rec, ca_steps=steps, batch_size=b, dim=8, kernel_radius=2, **kw)
                env.ca.no_grad()
                p = np.array(env.ca.get_params(), dtype=np.float64)
                p = p * (1 + 0.2 * k) if k < 5 else p * 0 - 0.5
                for ep in range(2):
                    env.ca.log = []
                    tr = {"class": unit["ca"], "steps": steps, "batch": b, "params": k, "episode": ep}
                    with ctx.guard("real", tr):
                        env.reset()
                        _, r, _, info = env.step(p.copy())
                    ctx.transitions += 1
                    ctx.visit(str(tr))
                    log = env.ca.log
                    if not ctx.expect(len(log) >= 1, "real:steps", "%s: no step taken" % tr, tr):
                        continue
                    for (a, x), (y, z) in zip(log, log[1:]):
                        ctx.expect(torch.equal(x, y), "real:chain", "%s: a step does not start from the previous grid" % tr, tr)
                    end = log[-1][1]
                    ctx.expect(len(log) == steps or float(end.abs().max()) == 0, "real:steps", "%s: %d steps, expected %d" % (tr, len(log), steps), tr)
                    frac = float(np.mean([float(end[i].abs().max()) > 0 for i in range(b)]))
                    ctx.expect(abs(float(info["active_grid"]) - frac) < 1e-6, "real:active", "%s: reports %s, %s are alive" % (tr, float(info["active_grid"]), frac), tr)
                    ctx.expect(abs(float(r) + abs(frac - 0.5001)) < 2e-4, "real:reward", "%s: reward %s" % (tr, float(r)), tr)
                    soup_ok(ctx, log[0][0], b, env.ca.external_channels, 8, tr)
                    ctx.outcome((frac, len(log)))
