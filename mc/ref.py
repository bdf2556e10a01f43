"""Boring float64 numpy reference semantics of the yuca cellular automata.

Written from the documentation / papers, not sharing code with yuca.
"""
import numpy as np


def arr(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().tolist()
    return np.asarray(x, dtype=np.float64)


# ---------------------------------------------------------------- growth functions
def gauss(x, mu, sigma):
    return np.exp(-0.5 * ((x - mu) / (sigma + 1e-9)) ** 2)


def sig(x, mu, a):
    with np.errstate(over="ignore"):
        return 1.0 / (1.0 + np.exp(-4.0 * (x - mu) / a))


def growth(cfg, x):
    """value of the growth / kernel function named in cfg at the array x"""
    n = cfg["name"]
    mode = cfg.get("mode", 0)
    x = np.asarray(x, dtype=np.float64)
    if n == "Gaussian":
        g = gauss(x, float(arr(cfg.get("mu", 0.0)).ravel()[0]), float(arr(cfg.get("sigma", 0.1)).ravel()[0]))
        return 2 * g - 1 if mode else g
    if n == "GaussianMixture":
        p = arr(cfg.get("parameters", [0.5, 0.15])).ravel()
        r = np.zeros_like(x)
        if len(p) % 3 == 0:
            for a, m, s in p.reshape(-1, 3):
                r = r + a * gauss(x, m, s)
        else:
            for m, s in p.reshape(-1, 2):
                r = r + gauss(x, m, s)
        return np.clip(2 * r - 1, -1, 1) if mode else np.clip(r, 0, 1)
    if n == "DoubleGaussian":
        m = arr(cfg["mu"]).ravel()
        s = arr(cfg["sigma"]).ravel()
        r = gauss(x, m[0], s[0]) + gauss(x, m[-1], s[-1])
        return np.clip(2 * r - 1, -1, 1) if mode else np.clip(r, 0, 1)
    if n == "SmoothIntervals":
        p = cfg.get("parameters", [[0.185, 0.375]])
        p = arr(p).reshape(-1, 2)
        a = float(arr(cfg.get("alpha", 0.0125)))
        r = np.zeros_like(x)
        for lo, hi in p:
            r = r + sig(x, lo, a) * (1 - sig(x, hi, a))
        return 2 * r - 1 if mode else r
    if n == "Polynomial":
        c = arr(cfg["coefficients"]).ravel()
        r = np.zeros_like(x)
        for i, v in enumerate(c):
            r = r + v * x ** i
        return 2 * r - 1 if mode else r
    if n == "DoGaussian":
        dx = cfg.get("dx", 1e-2)
        m, s = float(arr(cfg.get("mu", 0.0)).ravel()[0]), float(arr(cfg.get("sigma", 0.1)).ravel()[0])
        r = gauss(x + dx, m, s) - gauss(x - dx, m, s)
        return 2 * r - 1 if mode else r
    if n == "CosOverX2":
        m, w = float(arr(cfg.get("mu", 0.0))), float(arr(cfg.get("omega", 25.12)))
        d = np.abs(m - x)
        r = np.cos(w * d) / (1 + (10 * d) ** 2)
        return r if mode else r + 1
    if n == "Identity":
        return x
    if n == "ReLU":
        return np.maximum(x, 0)
    if n == "Tanh":
        return np.tanh(x)
    raise KeyError(n)


# ---------------------------------------------------------------- kernels
def radial(radius):
    ax = np.arange(-radius, radius + 1, dtype=np.float64)
    return np.sqrt(ax[:, None] ** 2 + ax[None, :] ** 2) / radius


def norm(k):
    k = k - k.min()
    return k / (k.sum() + 1e-9)


def kernel(cfg):
    n = cfg["name"]
    if n == "InnerMoore":
        k = np.zeros((3, 3))
        k[1, 1] = 1
        return k
    r = cfg["radius"]
    if n == "MooreLike":
        k = np.ones((2 * r + 1, 2 * r + 1))
        k[r, r] = 0
        return k / k.sum()
    kw = dict(cfg["kernel_kwargs"])
    g = radial(r)
    if n == "SmoothLifeKernel":
        return norm(((g >= kw.get("r_i", 1 / 3)) & (g <= kw.get("r_a", 1.0))).astype(np.float64))
    if n == "LaplacianOfGaussian":
        s = kw.get("sigma", 0.5)
        v = -(1 / (np.pi * s ** 4)) * (1 - g ** 2 / (2 * s * s)) * np.exp(-g ** 2 / (2 * s * s))
        v = v - v.mean()
        return v / np.abs(v).sum()
    kw["name"] = n
    return norm(growth(kw, g))


# ---------------------------------------------------------------- convolution
def conv(u, k, out_ch, mode="circular"):
    """u: N,C,H,W; k: kh,kw one kernel (applied to every channel) or (out_ch,kh,kw).
    Channel layout of the simulator: depthwise groups when out_ch is a multiple of C,
    one mixing group otherwise."""
    n, c, h, w = u.shape
    groups = c if out_ch % c == 0 else 1
    k = np.asarray(k, dtype=np.float64)
    if k.ndim == 2:
        k = np.broadcast_to(k, (out_ch,) + k.shape)
    p = (k.shape[-1] - 1) // 2
    padm = {"circular": "wrap", "zeros": "constant", "reflect": "reflect", "replicate": "edge"}[mode]
    up = np.pad(u, ((0, 0), (0, 0), (p, p), (p, p)), mode=padm)
    out = np.zeros((n, out_ch, h, w))
    per = out_ch // groups
    for o in range(out_ch):
        src = [o // per] if groups == c else list(range(c))
        for s in src:
            for i in range(k.shape[-2]):
                for j in range(k.shape[-1]):
                    kv = k[o, i, j]
                    if kv != 0.0:
                        out[:, o] += kv * up[:, s, i:i + h, j:j + w]
    return out


def alive(u, thr=0.1):
    if u.shape[1] >= 4:
        return u * (u[:, 3:4] > float(np.float32(thr)))
    return u


class RefCCA:
    """Glaberish: u' = clip(u + dt * W((1-i) G(k*u) + i P(k*u)), 0, 1)"""

    def __init__(self, config, external=1, internal=1, conv_mode="circular", lenia=False, thr=0.1, dt=None):
        self.lenia, self.ext, self.int, self.mode, self.thr = lenia, external, internal, conv_mode, thr
        self.load(config)
        if dt is not None:
            self.dt = dt

    def load(self, config):
        self.cfg = config
        self.idk = kernel(config["identity_kernel_config"]) if "identity_kernel_config" in config else kernel({"name": "InnerMoore"})
        self.k = kernel(config["neighborhood_kernel_config"])
        self.dt = float(arr(config.get("dt", 0.1)))

    def parts(self, u):
        ident = conv(u, self.idk, self.int, self.mode)
        nb = conv(u, self.k, self.int, self.mode)
        g = growth(self.cfg["genesis_config"], nb)
        if self.lenia:
            gp = g
        else:
            p = growth(self.cfg["persistence_config"], nb)
            gp = (1 - ident) * g + ident * p
        upd = np.repeat(gp.sum(axis=1, keepdims=True) / (self.ext * self.int), self.ext, axis=1)
        return nb, upd

    def step(self, u, mask=True):
        if mask:
            u = alive(u, self.thr)
        nb, upd = self.parts(u)
        return np.clip(u + self.dt * upd, 0, 1)


def gray_scott(u, f, k, du, dv, dx, dt, lap, idk=None):
    n = conv(u, lap, 2)
    i = u if idk is None else conv(u, idk, 2)
    a, b = i[:, 0], i[:, 1]
    out = np.empty_like(u)
    out[:, 0] = u[:, 0] + dt * (du * n[:, 0] / dx ** 2 - a * b * b + f * (1 - a))
    out[:, 1] = u[:, 1] + dt * (dv * n[:, 1] / dx ** 2 + a * b * b - (f + k) * b)
    return np.clip(out, 0, 1)


def life_step(g, birth, survive):
    n = sum(np.roll(np.roll(g, a, -2), b, -1) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0))
    b = np.isin(n, list(birth))
    s = np.isin(n, list(survive))
    return ((g == 0) & b | (g == 1) & s).astype(g.dtype)
