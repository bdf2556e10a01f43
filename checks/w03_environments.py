"""W03: every search environment hands out, takes back and runs the rule it was made with."""
import itertools
import os
from contextlib import suppress
import numpy as np
import torch
from mc import evo, models as M, ref
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "W03"
RULE = ("states = (environment, automaton class, channels, rule file or none, history of parameter writes, tests, resets and mode changes); transition = one such operation; after every one the parameters "
        "read through the environment and from its automaton are compared with the vector the model holds, and one step with a twin automaton given the same vector")
ASSUMPTIONS = ["parameters are compared to single precision", "episodes are cut to one step on an 8-cell torus"]
ENVS = ("SimpleHaltingWrapper", "HaltingWrapper", "RandomWrapper", "GliderWrapper")
CLASSES = ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")
SHIPPED = {"CCA": ("orbium.npy", "geminium.npy"), "Lenia": ("orbium.npy",), "CODE": ("geminium.npy",), "RandomStepCA": ("morley.npy",), "MetaCA": ("geminium2.npy",), "NCA": ("neurorbium_a.npy",), "RxnDfn": ("uskate_rxndfn.npy",)}


def envs():
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
    from yuca.wrappers.random_wrapper import RandomWrapper
    from yuca.wrappers.glider_wrapper import GliderWrapper
    return {"SimpleHaltingWrapper": SimpleHaltingWrapper, "HaltingWrapper": HaltingWrapper, "RandomWrapper": RandomWrapper, "GliderWrapper": GliderWrapper}


def cas():
    from mc import family as F
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    return dict(F.classes(), NCA=NCA, RxnDfn=RxnDfn)


def P(ca):
    return np.asarray(ca.get_params(), dtype=float).ravel()


def settings(u):
    e = 2 if u["cls"] == "RxnDfn" else u["e"]
    kw = dict(ca_fn=cas()[u["cls"]], ca_steps=1, batch_size=u["b"], dim=u["dim"], external_channels=u["e"], internal_channels=1, num_blocks=1)
    if u["file"] is None:
        kw["kernel_radius"] = 2
        if u["cls"] == "NCA":
            kw.update(hidden_channels=4, activation="Tanh")
    else:
        kw["ca_config"] = u["file"]
        if u["cls"] == "NCA":       # the network a file is for
            c = read(u["file"])
            kw.update(c.get("instant_kwargs", {}))
            kw["internal_channels"] = kw["external_channels"] = 1
            e = 1
    return kw, e


def read(f):
    from mc.core import REPO
    p = f if os.path.exists(f) else os.path.join(REPO, "ca_configs", f)
    return np.load(p, allow_pickle=True).reshape(1)[0]


def write_file(cls, d):
    """a rule file unlike the shipped and default rules"""
    ca = cas()[cls](kernel_radius=3, external_channels=1, internal_channels=1, **({"hidden_channels": 3, "activation": "SiLU"} if cls == "NCA" else {}))
    ca.set_dt(0.37)
    if cls == "RxnDfn":
        ca.set_dx(1 / 90.)
    p = os.path.join(d, "rule.npy")
    ca.save_config(p)
    return p


def twin(u, kw, vec):
    """the automaton alone, given the rule file and a parameter vector"""
    M.reseed(21)
    ca = kw["ca_fn"](**{k: v for k, v in kw.items() if k not in ("ca_fn", "ca_config")})
    if u["file"] is not None:
        ca.restore_config(u["file"])
    ca.no_grad()
    ca.eval()
    if vec is not None:
        ca.set_params(np.array(vec))
    ca.eval()
    return ca


def step_of(ca, e, n):
    g = grid_family((1, e, n, n + 1), ("irr",))["irr"]
    M.reseed(8)
    ca.reset()
    ca.eval()
    with torch.no_grad():
        return N(ca(T(g)))


def run_history(u, ctx, d):
    f = u["file"]
    if f == "own":
        f = write_file(u["cls"], d)
    u = dict(u, file=f)
    kw, e = settings(u)
    grid_env = u["env"] == "GliderWrapper"
    ops = ["write0", "write1", "write2", "episode", "reset", "eval", "sample", "read"]
    if u["env"] == "HaltingWrapper":
        ops.append("train")
    if grid_env:
        ops = ["ca0", "ca1", "episode", "reset", "eval", "sample"]
    for h in itertools.product(ops, repeat=u["depth"]):
        what = "%s of %s, %s channels, rule file %s, after %s" % (u["env"], u["cls"], e, u["file"] and os.path.basename(u["file"]), list(h))
        with suppress(Skip):
            with ctx.guard("create", what):
                M.reseed(21)
                env = envs()[u["env"]](**dict(kw))
                if u["env"] == "HaltingWrapper":
                    env.reset()         # makes the predictor
            now = None
            if u["file"] is not None:
                w = twin(u, kw, None)
                start = P(w)
                ctx.expect(maxdiff(P(env.ca), start) < 1e-6, "file", "%s: the environment does not start from the rule in the file" % what, what)
                ctx.expect(abs(float(env.ca.get_dt()) - float(w.get_dt())) < 1e-7 and abs(float(env.ca.get_dx()) - float(w.get_dx())) < 1e-9, "file",
                           "%s: the environment plays with time step %s and spacing %s, the file says %s and %s" % (what, env.ca.get_dt(), env.ca.get_dx(), w.get_dt(), w.get_dx()), what)
            else:
                start = P(env.ca)
            m = len(start)
            shape = (u["b"], e, u["dim"], u["dim"]) if grid_env else (m,)
            ctx.expect(tuple(env.action_space.shape) == shape, "space", "%s: the action space has shape %s, wanted %s" % (what, env.action_space.shape, shape), what)
            vec = start
            vecs = [0.15 + 0.5 * np.mod((np.arange(m) + 1) * (0.6180339887 + 0.1 * k), 1.0) for k in range(4)]
            if u["cls"] == "RxnDfn":
                vecs = [np.array([2e-5, 1e-5, 0.03, 0.055]) * (1 + 0.1 * k) for k in range(4)]
            for op in h:
                with ctx.guard("use", what):
                    if op.startswith("write"):
                        v = vecs[int(op[-1])].copy()
                        env.set_params(v)
                        vec = vecs[int(op[-1])]
                        ctx.expect(np.array_equal(v, vec), "argument", "%s: writing parameters changed the vector" % what, what)
                    elif op.startswith("ca"):
                        env.ca.set_params(vecs[int(op[-1])].copy())
                        vec = vecs[int(op[-1])]
                    elif op == "episode":
                        if grid_env:
                            a = torch.rand(*shape)
                            b4 = a.clone()
                            o, r, done, info = env.step(a)
                            ctx.expect(torch.equal(a, b4), "argument", "%s: an episode changed the pattern" % what, what)
                        else:
                            v = vecs[3].copy()
                            o, r, done, info = env.step(v)
                            ctx.expect(np.array_equal(v, vecs[3]), "argument", "%s: an episode changed the vector" % what, what)
                            if u["env"] != "RandomWrapper":
                                vec = vecs[3]
                            else:
                                ctx.expect(0 <= float(r) < 1, "random", "%s: a random reward of %s" % (what, float(r)), what)
                        ctx.expect(np.isfinite(float(r)) and not done and "active_grid" in info, "episode", "%s: episode returns reward %s, done %s, info %s" % (what, r, done, sorted(info)), what)
                    elif op == "reset":
                        env.reset()
                    elif op == "eval":
                        env.eval()
                    elif op == "train":
                        env.train()
                    elif op == "read":
                        r = np.asarray(env.get_params(), dtype=float).ravel()
                        ctx.expect(maxdiff(r, P(env.ca)) < 1e-12, "read", "%s: parameters read through the environment are not its rule's" % what, what)
                        with suppress(Exception):
                            env.get_params()[:] = 0
                    elif op == "sample":
                        M.reseed(3)
                        s = [env.action_space.sample() for _ in range(2)]
                        s = [N(x) if torch.is_tensor(x) else np.asarray(x) for x in s]
                        ctx.expect(s[0].shape == shape and (m == 0 and not grid_env or min(x.min() for x in s) >= 0 and max(x.max() for x in s) <= 1 and not np.array_equal(*s)), "sample",
                                   "%s: draws of shape %s" % (what, s[0].shape), what)
                        env.action_space.sample()
                ctx.transitions += 1
                got = P(env.ca)
                ctx.expect(got.shape == vec.shape and maxdiff(got, vec) < 1e-5, "parameters", "%s: the rule has parameters %s, written %s" % (what, got[:6], vec[:6]), what)
                if not grid_env:
                    r = np.asarray(env.get_params(), dtype=float).ravel()
                    ctx.expect(maxdiff(r, got) < 1e-12, "read", "%s: parameters read through the environment are not its rule's" % what, what)
            # a network in a file carries more than parameters; the others remember earlier steps
            if u["cls"] in ("CCA", "Lenia", "RxnDfn") and (u["file"] is not None or u["cls"] == "RxnDfn"):
                n = 2 * env.ca.get_kernel_radius() + 2
                ctx.expect(maxdiff(step_of(env.ca, e, n), step_of(twin(u, kw, vec), e, n)) < 1e-4, "step", "%s: a step differs from the rule with these parameters" % what, what)
            ctx.visit((u["env"], u["cls"], e, u["file"] is not None, h))
            ctx.traces += 1
    ctx.sample({"unit": {k: str(v) for k, v in u.items()}, "states": ctx.states})


def units(tier, seed):
    th = tier == "thorough"
    us = []
    for env, cls in itertools.product(ENVS, CLASSES):
        for e in (1, 2) if cls == "RxnDfn" else (1, 2, 4):      # reaction-diffusion has two channels whatever is asked for
            us.append({"env": env, "cls": cls, "e": e, "file": None, "b": 2, "dim": 8, "depth": 3 if th or cls == "CCA" and e == 1 else 2})
        for f in SHIPPED[cls] + ("own",):
            us.append({"env": env, "cls": cls, "e": 1, "file": f, "b": 1, "dim": 72 if f != "own" else 9, "depth": 2 if th else 1})
    return us


def run_unit(u, ctx):
    with suppress(Skip), evo.scratch() as d:
        run_history(u, ctx, d)
