"""W02: glider reward is displacement minus growth, with wraparound."""
import itertools
import numpy as np
import torch
from mc import core
from mc.util import T, N
from mc.core import Skip

PROPERTY = "W02"
RULE = ("states = (grid size, kernel radius, channels, batch, starting column, motion sequence): every sequence up to the depth bound over moves by -2..3 columns (wrapping), standing still, "
        "doubling and halving the mass, combined moves and vanishing, from every column, driven by a scripted automaton; plus real automata with recorded grids; every "
        "episode runs twice on the same environment; transition = one automaton step")
ASSUMPTIONS = ["patterns are one column wide when they cross the edge (the reward's centre of mass is not defined on the torus for wider ones); moves stay below half the grid",
               "on the step a pattern vanishes its displacement is undefined and only bounded by half the grid"]

MOVES = {"r1": (1, 1), "l1": (-1, 1), "r2": (2, 1), "l2": (-2, 1), "r3": (3, 1), "stay": (0, 1), "grow": (0, 2), "shrink": (0, 0.5), "r1g": (1, 2), "l1s": (-1, 0.5), "gone": None}
SMALL = ["r1", "l1", "r2", "stay", "grow", "shrink", "gone"]


def units(tier, seed):
    q = tier == "quick"
    us = []
    for dim, rad in ((8, 2), (7, 3), (5, 1), (12, 5)):
        for start in range(dim):
            us.append({"kind": "seq", "dim": dim, "rad": rad, "start": start, "ops": list(MOVES), "depth": 3 if q else 4, "c": 1, "b": 1})
    for start in (0, 3, 7):
        us.append({"kind": "seq", "dim": 8, "rad": 2, "start": start, "ops": SMALL, "depth": 4 if q else 6, "c": 1, "b": 1})
        us.append({"kind": "seq", "dim": 8, "rad": 3, "start": start, "ops": SMALL, "depth": 3, "c": 2, "b": 3})
        us.append({"kind": "seq", "dim": 8, "rad": 3, "start": start, "ops": SMALL, "depth": 3, "c": 4, "b": 1})
    us += [{"kind": "mixed", "dim": d, "rad": r, "b": b, "depth": 2 if q else 3} for d, r in ((8, 2), (7, 3)) for b in (2, 3)]
    us.append({"kind": "laps"})
    us += [{"kind": "wide", "rad": r, "width": w} for r in (2, 5) for w in (2, 3, 4)]
    us.append({"kind": "small"})
    for ca in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn"):
        us.append({"kind": "real", "ca": ca})
    us.append({"kind": "config"})
    return us


def scripted_class():
    from yuca.ca.continuous import CCA

    class Scripted(CCA):
        frames = None

        def __init__(self, **kw):
            super().__init__(**kw)
            self.n, self.resets, self.chain, self.prev = 0, 0, True, None

        def reset(self):
            self.n, self.prev = 0, None
            self.resets = getattr(self, "resets", 0) + 1
            super().reset()

        def forward(self, grid, mode=0):
            if self.prev is not None and not torch.equal(grid, self.prev):
                self.chain = False
            self.n += 1
            self.prev = self.frames[self.n].clone()
            return self.frames[self.n].clone()
    return Scripted


def run_unit(unit, ctx):
    try:
        globals()["u_" + unit["kind"]](unit, ctx)
    except Skip:
        return


def reference(frames, dim, rad, steps):
    """reward, number of steps, vanished: displacement per step from the second step on, growth on every step"""
    reward, prev_y = 0.0, None
    n = 0
    cols = np.arange(dim) / rad
    span = dim / rad
    for n in range(1, steps + 1):
        a, b = frames[n - 1], frames[n]
        g = abs(1.0 - b.mean() / a.mean()) if a.mean() else 0.0
        reward -= g
        if b.sum() == 0:
            return reward, n, prev_y is not None
        y = (b[0] * cols).sum() / b[0].sum()
        if prev_y is not None:
            d = y - prev_y
            d -= span * round(d / span)
            reward += d
        prev_y = y
        if np.abs(b - a).max() <= 1e-5:
            break
    return reward, n, False


def draw(dim, c, b, col, v, width=1, rows=(2, 3)):
    g = np.zeros((b, c, dim, dim))
    for r in rows:
        for w in range(width):
            g[:, :, r % dim, (col + w) % dim] = v * (1 + 0.25 * (r % 2))
    return g


def episode(ctx, env, frames, dim, rad, steps, tr, key="seq", tol=5e-4):
    ca = env.ca
    ca.frames = [T(f) for f in frames] + [T(frames[-1])] * 3
    want, n, gone = reference(frames, dim, rad, steps)
    # the code divides by mass + 1e-6
    tol += sum(2e-6 / max(frames[i].mean(), 1e-5) * (1 + frames[i + 1].mean() / max(frames[i].mean(), 1e-5)) for i in range(n))
    for ep in range(2):
        ca.chain = True
        pat = T(frames[0])
        keep = pat.clone()
        k = ca.resets
        ca.n = 0
        with ctx.guard(key, tr):
            _, r, _, info = env.step(pat)
        r = float(r)
        ctx.transitions += ca.n
        if gone:
            ctx.expect(abs(r - want) <= dim / rad / 2 + tol, key + ":vanish", "%s: reward %s, expected %s without the last displacement" % (tr, r, want), tr)
        else:
            ctx.expect(abs(r - want) <= tol, key + ":reward", "%s: episode %d: reward %s, expected %s" % (tr, ep, r, want), tr)
        ctx.expect(ca.n == n, key + ":steps", "%s: ran %d steps, expected %d" % (tr, ca.n, n), tr)
        ctx.expect(torch.equal(pat, keep), key + ":caller", "%s: the caller's pattern was modified" % tr, tr)
        ctx.expect(ca.resets > k, key + ":reset", "%s: the automaton was not reset at the start" % tr, tr)
        ctx.expect(ca.chain, key + ":chain", "%s: a step does not start from the previous grid" % tr, tr)
        ctx.expect(abs(float(info["active_grid"]) - frames[n].mean()) < 1e-5, key + ":active", "%s: reports mean %s, expected %s" % (tr, float(info["active_grid"]), frames[n].mean()), tr)
    ctx.outcome(round(want, 3))


def frames_of(ops, dim, c, b, col, v):
    out = [draw(dim, c, b, col, v)]
    for o in ops:
        m = MOVES[o]
        if m is None or v == 0:
            v = 0.0
        else:
            col, v = (col + m[0]) % dim, v * m[1]
        out.append(draw(dim, c, b, col, v))
    return out


def mk(dim, rad, steps, c=1, b=1):
    from yuca.wrappers.glider_wrapper import GliderWrapper
    return GliderWrapper(ca_fn=scripted_class(), dim=dim, kernel_radius=rad, ca_steps=steps, external_channels=c, batch_size=b)


def u_seq(unit, ctx):
    dim, rad, c, b = unit["dim"], unit["rad"], unit["c"], unit["b"]
    with ctx.guard("construct"):
        env = mk(dim, rad, unit["depth"], c, b)
    ops = [o for o in unit["ops"] if MOVES[o] is None or abs(MOVES[o][0]) * 2 < dim]
    for seq in itertools.product(ops, repeat=unit["depth"]):
        if any(o == "gone" for o in seq[:-1]) and seq[seq.index("gone"):] != ("gone",) * (unit["depth"] - seq.index("gone")):
            continue
        tr = {"dim": dim, "radius": rad, "start": unit["start"], "moves": seq, "channels": c, "batch": b}
        ctx.visit(seq)
        episode(ctx, env, frames_of(seq, dim, c, b, unit["start"], 0.25), dim, rad, unit["depth"], tr)
    ctx.sample(tr)


def u_mixed(unit, ctx):
    """several patterns in one batch, each with its own motion: the first one's displacement, everybody's growth"""
    dim, rad, b, depth = unit["dim"], unit["rad"], unit["b"], unit["depth"]
    with ctx.guard("construct"):
        env = mk(dim, rad, depth, 1, b)
    mine, other = ("r1", "l1", "r2", "grow", "stay"), ("r1", "l2", "stay", "shrink", "r1g", "gone")
    for s0 in itertools.product(mine, repeat=depth):
        for s1 in itertools.product(other, repeat=depth):
            for start in (0, 3):
                per = [frames_of(s0, dim, 1, 1, start, 0.25)] + [frames_of(s1[k:] + s1[:k], dim, 1, 1, (start + 2 + k) % dim, 0.5) for k in range(b - 1)]
                fr = [np.concatenate(x, axis=0) for x in zip(*per)]
                tr = {"dim": dim, "radius": rad, "batch": b, "start": start, "first": s0, "others": s1}
                ctx.visit(str(tr))
                episode(ctx, env, fr, dim, rad, depth, tr, "mixed")
    ctx.sample(tr)


def u_laps(unit, ctx):
    """steady gliders: n steps of the same move collect (n-1) times the move, over several laps in either direction"""
    for dim, rad in ((5, 1), (6, 2), (8, 3), (9, 2), (16, 5), (16, 13)):
        for move in range(-((dim - 1) // 2), (dim - 1) // 2 + 1):
            for steps in (1, 2, 3, 2 * dim + 1):
                env = mk(dim, rad, steps)
                for start in range(dim):
                    fr = [draw(dim, 1, 1, (start + i * move) % dim, 0.5) for i in range(steps + 1)]
                    tr = {"dim": dim, "radius": rad, "move": move, "steps": steps, "start": start}
                    ctx.visit(str(tr))
                    episode(ctx, env, fr, dim, rad, steps, tr, "laps")


def u_wide(unit, ctx):
    """wider patterns away from the edge, of every width, moving and changing mass"""
    dim = 12
    for rad in (unit["rad"],):
        env = mk(dim, rad, 3)
        for width in (unit["width"],):
            for seq in itertools.product((-1, 0, 1, 2), (1, 2, 0.5), repeat=3):
                col, v = 4, 0.2
                fr = [draw(dim, 1, 1, col, v, width)]
                for m, g in zip(seq[::2], seq[1::2]):
                    col, v = min(max(col + m, 0), dim - width), v * g
                    fr.append(draw(dim, 1, 1, col, v, width))
                tr = {"radius": rad, "width": width, "moves": seq}
                ctx.visit(str(tr))
                episode(ctx, env, fr, dim, rad, 3, tr, "wide")


def u_small(unit, ctx):
    """slow change keeps running, no change stops: changes of either sign, of every size around the threshold"""
    dim, rad = 8, 2
    env = mk(dim, rad, 3)
    for d1, d2 in itertools.product((0.1, -0.1, 1e-3, -1e-3, 1e-4, -1e-4, 3e-5, -3e-5, 1e-6, -1e-6, 0.0), repeat=2):
        fr = [draw(dim, 1, 1, 3, 0.4)]
        for d in (d1, d2, 0.05):
            fr.append(fr[-1] + (fr[-1] > 0) * d)
        tr = {"changes": [d1, d2, 0.05]}
        ctx.visit(str(tr))
        episode(ctx, env, fr, dim, rad, 3, tr, "small")


def u_real(unit, ctx):
    from yuca.wrappers.glider_wrapper import GliderWrapper
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    from mc.family import classes
    base = dict(classes(), NCA=NCA, RxnDfn=RxnDfn)[unit["ca"]]

    class Rec(base):
        log = None

        def forward(self, grid, mode=0):
            out = super().forward(grid, mode) if mode else super().forward(grid)
            if self.log is not None:
                self.log.append((grid.detach().clone(), out.detach().clone()))
            return out
    kw = {"external_channels": 2} if unit["ca"] == "RxnDfn" else {}
    for dim, rad, steps in ((8, 2, 1), (8, 2, 4), (12, 3, 3)):
        core.seed_everything(3)
        env = GliderWrapper(ca_fn=Rec, dim=dim, kernel_radius=rad, ca_steps=steps, batch_size=1, **kw)
        env.ca.no_grad()
        c = env.ca.external_channels
        r_ = env.ca.kernel_radius
        for k in range(6):
            pat = np.zeros((1, c, dim, dim))
            pat[:, :, 1:4, 1:3] = 0.2 + 0.15 * k
            pat[:, :, 2, k % dim] = 0.9
            tr = {"class": unit["ca"], "dim": dim, "radius": rad, "steps": steps, "pattern": k}
            env.ca.log = []
            start = T(pat)
            keep = start.clone()
            with ctx.guard("real", tr):
                core.seed_everything(k)
                _, r, _, info = env.step(start)
            log = env.ca.log
            ctx.visit(str(tr))
            ctx.transitions += len(log)
            ctx.expect(torch.equal(start, keep), "real:caller", "%s: the caller's pattern was modified" % tr, tr)
            if not ctx.expect(1 <= len(log) <= steps, "real:steps", "%s: %d steps" % (tr, len(log)), tr):
                continue
            fr = [N(log[0][0])] + [N(x[1]) for x in log]
            ctx.expect(np.array_equal(fr[0], N(start)), "real:start", "%s: does not start from the pattern" % tr, tr)
            want, n, gone = reference(fr, dim, r_, len(log))
            # displacements near half the grid may go either way
            tol = 5e-3
            ctx.expect(n == len(log), "real:steps", "%s: ran %d steps, expected %d" % (tr, len(log), n), tr)
            if len(log) < steps and not gone and fr[-1].sum() > 0:
                ctx.expect(np.abs(fr[-1] - fr[-2]).max() <= 1.1e-5, "real:early", "%s: stopped early while changing" % tr, tr)
            if gone:
                continue
            ctx.expect(abs(float(r) - want) <= tol, "real:reward", "%s: reward %s, expected %s" % (tr, float(r), want), tr)
            if unit["ca"] in ("CCA", "Lenia"):
                ctx.expect(abs(float(env.ca.t_count) - len(log) * float(env.ca.dt)) < 1e-4, "real:time", "%s: elapsed time %s after %d steps of %s" % (
                    tr, float(env.ca.t_count), len(log), float(env.ca.dt)), tr)
            ctx.outcome(round(want, 3))


def u_config(unit, ctx):
    """the environment takes its rule, and the radius displacement is measured in, from a rule file"""
    from yuca.wrappers.glider_wrapper import GliderWrapper
    from yuca.ca.continuous import CCA
    for name in ("orbium.npy", "geminium.npy", "conway_life.npy"):
        for cls in (CCA, scripted_class()):
            ref = CCA()
            with ctx.guard("config", name):
                ref.restore_config(name)
                env = GliderWrapper(ca_fn=cls, ca_config=name, dim=24, ca_steps=2, kernel_radius=7)
            ctx.visit((name, cls.__name__))
            ctx.expect(env.ca.kernel_radius == ref.kernel_radius and np.allclose(env.ca.get_params(), ref.get_params()), "config:rule", "%s: the environment does not run the rule of the file" % name)
            if cls is not CCA:
                for move in (-5, 3, 10):
                    fr = [draw(24, 1, 1, (4 + i * move) % 24, 0.5) for i in range(3)]
                    episode(ctx, env, fr, 24, ref.kernel_radius, 2, {"file": name, "move": move}, "config")
