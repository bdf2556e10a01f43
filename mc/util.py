import copy
import itertools
import numpy as np
import torch


def T(a):
    """float64 numpy -> float32 tensor, independent of the numpy bridge"""
    return torch.tensor(np.asarray(a, dtype=np.float64).tolist(), dtype=torch.float32)


def N(t):
    return np.asarray(t.detach().cpu().to(torch.float64).tolist(), dtype=np.float64)


def grid_family(shape, kinds=("zeros", "ones", "dot", "ramp", "checker", "irr", "irr2", "stripe")):
    """small deterministic alphabet of real-valued grids of a given NCHW shape"""
    n, c, h, w = shape
    out = {}
    idx = np.arange(n * c * h * w, dtype=np.float64).reshape(shape)
    rr = np.arange(h)[:, None] + np.zeros((1, w))
    cc = np.zeros((h, 1)) + np.arange(w)[None, :]
    for k in kinds:
        if k == "zeros":
            g = np.zeros(shape)
        elif k == "ones":
            g = np.ones(shape)
        elif k == "dot":
            g = np.zeros(shape)
            g[:, :, 0, 0] = 1.0
        elif k == "ramp":
            g = idx / idx.size
        elif k == "checker":
            g = np.broadcast_to(((rr + cc) % 2), shape).astype(float)
        elif k == "stripe":
            g = np.broadcast_to((cc % 3 == 0), shape).astype(float)
        elif k == "irr":        # deterministic irregular values in [0,1]
            g = np.mod(idx * 0.6180339887498949 + 0.11, 1.0)
        elif k == "irr2":
            g = np.mod((idx + 1) ** 2 * 0.0754877666 + 0.37, 1.0) * (np.mod(idx * 7 + 3, 5) < 3)
        out[k] = np.array(g, dtype=np.float64)
    return out


def maxdiff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    if np.isnan(d).any():
        return float("inf")
    return float(d.max())


def same(a, b):
    """deep equality for config-like values"""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)):
            return False
        return a.shape == b.shape and bool(torch.equal(a.detach(), b.detach()))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
