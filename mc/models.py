"""Constructors for every automaton class with configuration alphabets, used by several checks."""
import copy
import numpy as np
import torch
from mc import family as F


def rxn(**kw):
    from yuca.ca.reaction_diffusion import RxnDfn
    ca = RxnDfn()
    for k, v in kw.items():
        if k == "dt":
            ca.set_dt(v)
        elif k == "dx":
            ca.set_dx(v)
        elif k == "du":
            ca.set_diffusion_u(v)
        elif k == "dv":
            ca.set_diffusion_v(v)
    ca.no_grad()
    return ca


def nca(seed=3, params=None, **kw):
    from yuca.ca.neural import NCA
    torch.manual_seed(seed)
    np.random.seed(seed)
    ca = NCA(**kw)
    ca.no_grad()
    ca.eval()
    if params is not None:
        ca.set_params(params)
        ca.eval()
    return ca


def every(ext=1, cfg=None, **kw):
    """name -> factory for each automaton class on ext channels with circular boundary"""
    cfg = cfg or F.config("gauss3", "none", "gm4", "gaus1", dt=0.2)
    out = {c: (lambda c=c: F.build(c, cfg, external_channels=ext, **kw)) for c in F.classes()}
    out["NCA"] = lambda: nca(external_channels=ext, internal_channels=ext, hidden_channels=6, kernel_radius=2)
    if ext == 2:
        out["RxnDfn"] = lambda: rxn()
    return out


def reseed(s=5):
    np.random.seed(s)
    torch.manual_seed(s)


def act_ref(name, x, mu=0.0, sigma=0.1):
    if name == "Tanh":
        return np.tanh(x)
    if name == "ReLU":
        return np.maximum(x, 0)
    if name == "SiLU":
        return x / (1 + np.exp(-np.clip(x, -700, 700)))
    if name == "ELU":
        return np.where(x > 0, x, np.exp(np.minimum(x, 0)) - 1)
    if name == "Sigmoid":
        return 1 / (1 + np.exp(-np.clip(x, -700, 700)))
    if name == "Identity":
        return x
    return np.exp(-0.5 * ((x - mu) / (sigma + 1e-9)) ** 2)


def nca_len(e, n, h, act):
    return h * (e + n) + h * h + e * h + (4 if act == "Gaussian" else 0)


def nca_step(u, vec, kern, e, n, h, act, dt, mode="circular", thr=0.1, idk=None, parts=False):
    """reference neural step; vec: network weights in vector order"""
    from mc import ref
    v = np.asarray(vec, dtype=np.float64)
    pos = [0]

    def take(*shape):
        m = int(np.prod(shape))
        r = v[pos[0]:pos[0] + m].reshape(shape)
        pos[0] += m
        return r
    g = act == "Gaussian"
    w0 = take(h, e + n)
    a0 = take(2) if g else (0, 1)
    w1 = take(h, h)
    a1 = take(2) if g else (0, 1)
    w2 = take(e, h)
    u = ref.alive(u, thr)
    nb = ref.conv(u, kern, n, mode)
    x = np.concatenate([u if idk is None else ref.conv(u, idk, e, mode), nb], axis=1)
    x = act_ref(act, np.einsum("oc,nchw->nohw", w0, x), *a0)
    x = act_ref(act, np.einsum("oc,nchw->nohw", w1, x), *a1)
    x = np.tanh(np.einsum("oc,nchw->nohw", w2, x))
    if parts:
        return np.clip(u + dt * x, 0, 1), u, nb, x
    return np.clip(u + dt * x, 0, 1)


def nca_vec(e, n, h, act, k=0, scale=1.0):
    m = nca_len(e, n, h, act)
    w = scale * np.sin((np.arange(m) + 1) * (1.7 + 0.37 * k))
    if act == "Gaussian":       # keep activation widths well away from zero
        i0 = h * (e + n)
        i1 = i0 + 2 + h * h
        w[i0:i0 + 2] = [0.2 + 0.1 * k, 0.6]
        w[i1:i1 + 2] = [0.1, 0.8]
    return w


def frames(ctx, ca, t, want, what, tol, key="frames"):
    """the five kinds of frames against (new grid, grid after masking, neighbourhoods, update)"""
    from mc.util import N, maxdiff
    new, u, nb, upd = want
    want = {0: [new], 1: [new, nb], 2: [new, upd], 3: [new, nb, upd], 4: [new, u, nb, upd]}
    with ctx.guard(key, what):
        before = t.clone()
        got = [ca.get_frame(t, mode=m) for m in range(5)]
    ctx.expect(torch.equal(before, t), key, "%s: asking for a frame changed the grid" % what)
    for m in range(5):
        o = [got[m]] if m == 0 else list(got[m])
        ctx.transitions += 1
        ok = len(o) == len(want[m]) and all(np.shape(N(a)) == np.shape(b) and maxdiff(N(a), b) <= tol * (1 + np.abs(b).max()) for a, b in zip(o, want[m]))
        ctx.expect(ok, key, "%s: frame mode %d does not return the documented grids" % (what, m))
