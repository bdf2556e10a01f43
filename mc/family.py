"""Finite alphabets of configurations and constructors for every CA class."""
import copy
import itertools
import numpy as np
import torch

KERNELS = {
    "gauss1": {"name": "Gaussian", "radius": 1, "kernel_kwargs": {"mu": 0.5, "sigma": 0.15}},
    "gauss3": {"name": "Gaussian", "radius": 3, "kernel_kwargs": {"mu": 0.4, "sigma": 0.25}},
    "gmix2_2": {"name": "GaussianMixture", "radius": 2, "kernel_kwargs": {"parameters": [0.5, 0.15]}},
    "gmix4_3": {"name": "GaussianMixture", "radius": 3, "kernel_kwargs": {"parameters": [0.2, 0.1, 0.8, 0.05]}},
    "gmix9_4": {"name": "GaussianMixture", "radius": 4,
                "kernel_kwargs": {"parameters": [0.5, 0.1, 0.06, 1.0, 0.4, 0.08, 0.7, 0.75, 0.1]}},
    "moore1": {"name": "MooreLike", "radius": 1},
    "moore2": {"name": "MooreLike", "radius": 2},
    "smooth4": {"name": "SmoothLifeKernel", "radius": 4, "kernel_kwargs": {"r_a": 1.05, "r_i": 1 / 3.0}},
    "cos3": {"name": "CosOverX2", "radius": 3, "kernel_kwargs": {"mu": 0.3, "omega": 6.28}},
    "dog2": {"name": "DoGaussian", "radius": 2, "kernel_kwargs": {"mu": 0.5, "sigma": 0.2, "dx": 0.05}},
}
IDK = {
    "none": None,
    "inner": {"name": "InnerMoore"},
    "smooth": {"name": "SmoothLifeKernel", "radius": 4, "kernel_kwargs": {"r_a": 1 / 3.0, "r_i": 0.0}},
    "moore": {"name": "MooreLike", "radius": 1},
}
FNS = {
    "gaus1": {"name": "Gaussian", "mu": 0.35, "sigma": 0.07, "mode": 1},
    "gaus0": {"name": "Gaussian", "mu": 0.5, "sigma": 0.2, "mode": 0},
    "gm2": {"name": "GaussianMixture", "parameters": [0.3, 0.08], "mode": 1},
    "gm4": {"name": "GaussianMixture", "parameters": [0.3, 0.08, 0.6, 0.05], "mode": 1},
    "gm3": {"name": "GaussianMixture", "parameters": [0.7, 0.4, 0.1], "mode": 1},
    "gm6": {"name": "GaussianMixture", "parameters": [0.7, 0.4, 0.1, 0.5, 0.2, 0.06], "mode": 0},
    "si1": {"name": "SmoothIntervals", "parameters": [[0.2, 0.4]], "alpha": 0.05, "mode": 1},
    "si2": {"name": "SmoothIntervals", "parameters": [[0.1, 0.3], [0.5, 0.8]], "alpha": 0.1, "mode": 0},
    "gmneg": {"name": "GaussianMixture", "parameters": [1.0, 0.25, 0.07, -0.7, 0.55, 0.1], "mode": 1},
    "poly": {"name": "Polynomial", "coefficients": [0.3, -1.0, 0.5, 0.25]},
    "poly1": {"name": "Polynomial", "coefficients": [0.1, 0.9], "mode": 1},
    "dbl": {"name": "DoubleGaussian", "mu": [0.2, 0.6], "sigma": [0.1, 0.07], "mode": 1},
    "dblrev": {"name": "DoubleGaussian", "mu": [0.7, 0.25], "sigma": [0.06, 0.12], "mode": 0},
    "dog0": {"name": "DoGaussian", "mu": 0.4, "sigma": 0.15, "mode": 0, "dx": 0.05},
    "ident": {"name": "Identity"},
    "tanh": {"name": "Tanh"},
    "relu": {"name": "ReLU"},
}


def tens(x):
    return torch.tensor(x, dtype=torch.float32)


def fn_cfg(name):
    """config as a yuca user writes it (tensors for array-like parameters)"""
    c = copy.deepcopy(FNS[name])
    for k in ("parameters", "coefficients"):
        if k in c:
            c[k] = tens(c[k])
    if c["name"] == "DoubleGaussian":
        c["mu"], c["sigma"] = tens(c["mu"]), tens(c["sigma"])
    return c


def kernel_cfg(name, radius=None):
    c = copy.deepcopy(KERNELS[name])
    if radius is not None:
        c["radius"] = radius
    if c["name"] == "GaussianMixture":
        c["kernel_kwargs"]["parameters"] = tens(c["kernel_kwargs"]["parameters"])
    return c


def config(kern, idk, gen, per, dt=None, radius=None):
    c = {"neighborhood_kernel_config": kernel_cfg(kern, radius),
         "genesis_config": fn_cfg(gen), "persistence_config": fn_cfg(per)}
    if IDK[idk] is not None:
        c["identity_kernel_config"] = copy.deepcopy(IDK[idk])
    if dt is not None:
        c["dt"] = dt
    return c


def classes():
    from yuca.ca.continuous import CCA
    from yuca.lenia import Lenia
    from yuca.code import CODE
    from yuca.random_step_ca import RandomStepCA
    from yuca.metaca import MetaCA
    return {"CCA": CCA, "Lenia": Lenia, "CODE": CODE, "RandomStepCA": RandomStepCA, "MetaCA": MetaCA}


def build(cls, cfg, **kw):
    ca = classes()[cls](**kw)
    ca.load_config(copy.deepcopy(cfg))
    ca.no_grad()
    ca.eval()
    return ca


# ---------------------------------------------------------------- parameter vectors (reference codec)
def fn_len(c):
    n = c["name"]
    if n in ("Gaussian", "DoGaussian"):
        return 2
    if n == "GaussianMixture":
        m = len(np.ravel(c["parameters"].tolist() if hasattr(c["parameters"], "tolist") else c["parameters"]))
        return 2 * (m // 3) if m % 3 == 0 else m
    if n == "Polynomial":
        return len(c["coefficients"])
    if n == "DoubleGaussian":
        return 4
    return 0


def fn_vec(c):
    """evolvable parameters of a growth function, in vector order"""
    n = c["name"]
    if n in ("Gaussian", "DoGaussian"):
        return [float(np.ravel(c["mu"])[0]), float(np.ravel(c["sigma"])[0])]
    if n == "GaussianMixture":
        p = np.ravel(c["parameters"].tolist() if hasattr(c["parameters"], "tolist") else c["parameters"])
        if len(p) % 3 == 0:
            p = p.reshape(-1, 3)[:, 1:].ravel()
        return [float(x) for x in p]
    if n == "Polynomial":
        return [float(x) for x in c["coefficients"]]
    if n == "DoubleGaussian":
        return [float(x) for x in list(c["mu"]) + list(c["sigma"])]
    return []


def fn_with(c, vec):
    """the growth config after writing vec into it"""
    c = copy.deepcopy(c)
    vec = [float(v) for v in vec]
    assert len(vec) == fn_len(c)
    n = c["name"]
    if n in ("Gaussian", "DoGaussian"):
        c["mu"], c["sigma"] = vec
    elif n == "GaussianMixture":
        p = np.ravel(c["parameters"].tolist() if hasattr(c["parameters"], "tolist") else c["parameters"]).astype(float)
        if len(p) % 3 == 0:
            p = p.reshape(-1, 3)
            p[:, 1:] = np.reshape(vec, (-1, 2))
            p = p.ravel()
        else:
            p = np.array(vec)
        c["parameters"] = tens(list(p))
    elif n == "Polynomial":
        c["coefficients"] = tens(vec)
    elif n == "DoubleGaussian":
        c["mu"], c["sigma"] = tens(vec[:2]), tens(vec[2:])
    return c


def vec_like(n, k):
    """deterministic alphabet of parameter vectors of length n (values usable as means and widths)"""
    i = np.arange(n)
    if k == 0:
        return 0.1 + np.mod((i + 1) * 0.6180339887, 1.0) * 0.5
    if k == 1:
        return np.where(i % 2 == 0, 0.2 + 0.03 * i, 0.05 + 0.01 * i)
    return 0.3 + 0.1 * np.cos(i * 1.3)
