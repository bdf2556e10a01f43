"""Drivers for the evolution code: tiny environments, scripted random sources, scratch output."""
import contextlib
import os
import shutil
import tempfile
import numpy as np
import torch

SCRATCH = {"dir": None}
GIFS = []           # what the animations asked for by a search start from: (grid, rule parameters)


@contextlib.contextmanager
def scratch(prefix="yuca-mc-"):
    """cwd, saved configurations, logs and frames all land in a directory that is removed again"""
    from yuca import cmaes
    d = tempfile.mkdtemp(prefix=prefix)
    for s in ("logs", "ca_configs", "assets", "yuca"):
        os.mkdir(os.path.join(d, s))
    old, cwd, oldfile = SCRATCH["dir"], os.getcwd(), cmaes.__file__
    oldsave = getattr(cmaes, "save_fig_sequence", None)
    from yuca import utils
    oldutil = utils.save_fig_sequence

    def shown(grid, ca, *a, **kw):
        GIFS.append((torch.as_tensor(grid).detach().clone(), np.array(ca.get_params(), dtype=np.float64)))
    SCRATCH["dir"] = d
    cmaes.__file__ = os.path.join(d, "yuca", "cmaes.py")
    cmaes.save_fig_sequence = utils.save_fig_sequence = shown
    GIFS.clear()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        SCRATCH["dir"] = old
        cmaes.__file__ = oldfile
        utils.save_fig_sequence = oldutil
        if oldsave is not None:
            cmaes.save_fig_sequence = oldsave
        shutil.rmtree(d, ignore_errors=True)


def make(cls="CMAES", **kw):
    from yuca import cmaes
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
    from yuca.params_agent import ParamsAgent
    from yuca.ca.continuous import CCA
    base = dict(ca_fn=CCA, env_fn=SimpleHaltingWrapper, agent_fn=ParamsAgent, kernel_radius=2, dim=8, ca_steps=2, batch_size=2,
                population_size=8, generations=1, replicates=1, selection_mode=0, seed=[5], workers=0, tag="mc")
    base.update(kw)
    return getattr(cmaes, cls)(**base)


class Sampler:
    """stand-in for np.random.multivariate_normal: records the distribution, returns identifiable vectors"""

    def __init__(self, base=100.0):
        self.calls, self.n, self.base = [], 0, base

    def one(self, mean):
        mean = np.asarray(mean, dtype=np.float64)
        self.n += 1
        # deterministic, pairwise different, not symmetric around the mean
        k = np.arange(mean.shape[0], dtype=np.float64)
        return mean + 0.01 * np.mod(self.n * 0.6180339887 + k * 0.37 * (1 + self.n % 5), 1.0) + 1e-3 * self.n

    def __call__(self, mean, cov, size=None, **kw):
        c = 1 if size is None else int(np.prod(size))
        out = [self.one(mean) for _ in range(c)]
        for o in out:
            self.calls.append((np.array(mean, dtype=np.float64), np.array(cov, dtype=np.float64), o.copy()))
        if size is None:
            return out[0]
        return np.array(out).reshape(tuple(np.atleast_1d(size)) + (-1,))


class Tape:
    """stand-in for np.random.randint / choice-with-replacement fed from a list"""

    def __init__(self, vals):
        self.vals, self.i, self.bounds = list(vals), 0, []

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        self.bounds.append((int(low), int(high)))
        c = 1 if size is None else int(np.prod(size))
        v = [int(low) + (self.vals[(self.i + j) % len(self.vals)] % max(1, int(high) - int(low))) for j in range(c)]
        self.i += c
        return v[0] if size is None else np.array(v).reshape(size)


class Lottery:
    """stand-in for np.random.choice without replacement: returns the ranks it is told to"""

    def __init__(self, ranks):
        self.ranks, self.calls = ranks, []

    def __call__(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.isscalar(a) else np.asarray(a)
        self.calls.append((a.copy(), None if p is None else np.array(p), bool(replace)))
        order = np.argsort(-np.asarray(p), kind="stable") if p is not None else np.arange(len(a))
        c = 1 if size is None else int(np.prod(size))
        out = np.array([a[order[r]] for r in self.ranks[:c]])
        return out[0] if size is None else out.reshape(size)


@contextlib.contextmanager
def patched(**kw):
    """temporarily replace attributes of np.random"""
    old = {k: getattr(np.random, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(np.random, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)


def pop_params(cm):
    return [np.array(a.get_params(), dtype=np.float64) for a in cm.population]


def find(rows, v, tol=0.0):
    """indices of the rows equal to v"""
    return [i for i, r in enumerate(rows) if r.shape == np.shape(v) and np.max(np.abs(r - v), initial=0) <= tol]
