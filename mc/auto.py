"""A configurable automaton as an explicit reference model plus the same operations on the real object.

spec: {"cls":..., "e":.., "n":.., "mode":.., "kern": kernel config, "idk": identity config or None, "gen":, "per":, "dt":}
      neural: adds "h", "act", "w" (network weights);  reaction-diffusion: "p" = [du, dv, f, k], "dx"
"""
import copy
import numpy as np
import torch
from mc import ref, family as F, models as M
from mc.util import T, N, grid_family, maxdiff

PLAIN = ("CCA", "Lenia", "NCA", "RxnDfn")      # classes whose step is a function of the grid and the configuration


def kvec(k):
    """evolvable kernel parameters"""
    if k["name"] == "Gaussian":
        return [float(k["kernel_kwargs"].get("mu", 0.0)), float(k["kernel_kwargs"].get("sigma", 0.1))]
    if k["name"] == "GaussianMixture":
        return [float(x) for x in np.ravel(ref.arr(k["kernel_kwargs"]["parameters"]))]
    return []


def kwith(k, vec):
    k = copy.deepcopy(k)
    if k["name"] == "Gaussian":
        k["kernel_kwargs"] = {"mu": float(vec[0]), "sigma": float(vec[1])}
    elif k["name"] == "GaussianMixture":
        k["kernel_kwargs"] = {"parameters": [float(v) for v in vec]}
    return k


def real_kernel(k):
    k = copy.deepcopy(k)
    if k["name"] == "GaussianMixture":
        k["kernel_kwargs"]["parameters"] = F.tens([float(x) for x in ref.arr(k["kernel_kwargs"]["parameters"])])
    return k


class Model:
    def __init__(self, spec):
        self.s = copy.deepcopy(spec)

    # ---- observations
    def params(self):
        s = self.s
        if s["cls"] == "RxnDfn":
            return np.array(s["p"], dtype=float)
        if s["cls"] == "NCA":
            return np.array(list(s["w"]) + kvec(s["kern"]), dtype=float)
        v = F.fn_vec(s["gen"])
        if s["cls"] != "Lenia":
            v = v + F.fn_vec(s["per"]) + kvec(s["kern"])
        return np.array(v, dtype=float)

    def radius(self):
        return self.s["kern"]["radius"]

    def step(self, u, dt=None):
        s = self.s
        dt = s["dt"] if dt is None else dt
        if s["cls"] == "RxnDfn":
            du, dv, f, k = s["p"]
            return ref.gray_scott(u, f, k, du, dv, s["dx"], dt, ref.kernel(s["kern"]),
                                  ref.kernel(s["idk"]) if s.get("idk") else None)
        if s["cls"] == "NCA":
            return M.nca_step(u, s["w"], ref.kernel(s["kern"]), s["e"], s["n"], s["h"], s["act"], dt, s["mode"],
                              idk=ref.kernel(s["idk"]) if s.get("idk") else None)
        return ref.RefCCA(self.config(), external=s["e"], internal=s["n"], conv_mode=s["mode"], lenia=s["cls"] == "Lenia", dt=dt,
                          thr=s.get("thr", 0.1)).step(u)

    def config(self):
        s = self.s
        c = {"neighborhood_kernel_config": copy.deepcopy(s["kern"]), "dt": s["dt"]}
        if s.get("idk"):
            c["identity_kernel_config"] = copy.deepcopy(s["idk"])
        if s["cls"] == "RxnDfn":
            c.update(params=np.array(s["p"], dtype=float), dx=s["dx"], diffusion_u=s["p"][0], diffusion_v=s["p"][1], feed_rate=s["p"][2], decay_rate=s["p"][3])
        elif s["cls"] == "NCA":
            c["params"] = self.params()
        else:
            c["genesis_config"], c["persistence_config"] = copy.deepcopy(s["gen"]), copy.deepcopy(s["per"])
        return c

    def real_config(self):
        c = self.config()
        c["neighborhood_kernel_config"] = real_kernel(c["neighborhood_kernel_config"])
        return c

    # ---- operations
    def load(self, other):
        keep = {k: self.s[k] for k in ("cls", "e", "n", "mode") + (("h", "act") if self.s["cls"] == "NCA" else ())}
        keep["thr"] = self.s.get("thr", 0.1)
        self.s = copy.deepcopy(other)
        self.s.update(keep)

    def set_params(self, vec):
        s = self.s
        vec = list(vec)
        if s["cls"] == "RxnDfn":
            s["p"] = vec
            return
        if s["cls"] == "NCA":
            m = len(s["w"])
            s["w"] = np.array(vec[:m])
            s["kern"] = kwith(s["kern"], vec[m:])
            return
        a = F.fn_len(s["gen"])
        s["gen"] = F.fn_with(s["gen"], vec[:a])
        if s["cls"] == "Lenia":
            return
        b = a + F.fn_len(s["per"])
        s["per"] = F.fn_with(s["per"], vec[a:b])
        s["kern"] = kwith(s["kern"], vec[b:])

    def set_radius(self, r):
        self.s["kern"] = dict(copy.deepcopy(self.s["kern"]), radius=r)

    def set_kernel(self, k):
        self.s["kern"] = copy.deepcopy(k)

    def set_dt(self, dt):
        self.s["dt"] = dt


def make(spec, load=True, **kw):
    """real automaton with the structural settings of the spec, then configured from it"""
    M.reseed(2)
    s = spec
    if s["cls"] == "RxnDfn":
        from yuca.ca.reaction_diffusion import RxnDfn
        ca = RxnDfn()
    elif s["cls"] == "NCA":
        from yuca.ca.neural import NCA
        ca = NCA(external_channels=s["e"], internal_channels=s["n"], hidden_channels=s["h"], activation=s["act"], conv_mode=s["mode"], **kw)
    else:
        a = dict(kw)
        if s["e"] != 1 or s["n"] != 1:
            a.update(external_channels=s["e"], internal_channels=s["n"])
        if s["mode"] != "circular":
            a["conv_mode"] = s["mode"]
        if s.get("thr", 0.1) != 0.1:
            a["alive_threshold"] = s["thr"]
        ca = F.classes()[s["cls"]](**a)
    if load:
        ca.load_config(Model(spec).real_config())
    ca.no_grad()
    ca.eval()
    return ca


def blank(cls):
    """a new automaton of the class with default settings"""
    M.reseed(6)
    if cls == "RxnDfn":
        from yuca.ca.reaction_diffusion import RxnDfn
        return RxnDfn()
    if cls == "NCA":
        from yuca.ca.neural import NCA
        return NCA()
    return F.classes()[cls]()


def probes(spec, small=False):
    e = 2 if spec["cls"] == "RxnDfn" else spec["e"]
    fam = grid_family((1, e, 11, 12), ("irr",) if small else ("irr", "irr2"))
    return list(fam.values())


def tol(spec):
    if spec["cls"] == "RxnDfn":
        return 3e-4 + 2e-6 * spec["dt"] * max(spec["p"][:2]) / spec["dx"] ** 2
    return 5e-4


def probe(ca, spec, g):
    """one-step response without disturbing integrator state of the stateful classes"""
    ca.eval()
    with torch.no_grad():
        t = T(g)
        return N(ca(t)) if spec["cls"] in PLAIN else N(ca.get_frame(t))


def check(ctx, ca, m, key, what, trace=None, dyn=True, small=False, params=True):
    """real automaton agrees with the model in every observation"""
    s = m.s
    with ctx.guard(key, trace):
        r, dt = ca.get_kernel_radius(), ca.get_dt()
        p = np.asarray(ca.get_params(), dtype=float) if params else None
    ctx.expect(r == m.radius(), key + ":radius", "%s: radius %s, expected %s" % (what, r, m.radius()), trace)
    ctx.expect(abs(dt - s["dt"]) < 1e-6, key + ":dt", "%s: dt %s, expected %s" % (what, dt, s["dt"]), trace)
    if params:
        w = m.params()
        ctx.expect(p.shape == w.shape and np.allclose(p, w, rtol=1e-5, atol=1e-7), key + ":params",
                   lambda: "%s: parameter vector %s, expected %s" % (what, np.round(p[:12], 5), np.round(w[:12], 5)), trace)
    if s["cls"] == "RxnDfn":
        ctx.expect(abs(ca.get_dx() - s["dx"]) < 1e-8, key + ":dx", "%s: dx %s, expected %s" % (what, ca.get_dx(), s["dx"]), trace)
    if dyn:
        for g in probes(s, small):
            with ctx.guard(key, trace):
                o = probe(ca, s, g)
            d = maxdiff(o, m.step(N(T(g))))
            ctx.expect(d <= tol(s), key + ":dynamics", "%s: one step differs from the reference by %g" % (what, d), trace)


def vector(m, k):
    """k-th vector of the alphabet for the model's current structure"""
    n = len(m.params())
    if m.s["cls"] == "RxnDfn":
        return np.array([[1.5e-5, 0.8e-5, 0.03, 0.055], [1e-5, 2e-5, 0.05, 0.06], [2.2e-5, 1.1e-5, 0.062, 0.061]][k])
    if m.s["cls"] == "NCA":
        w = M.nca_vec(m.s["e"], m.s["n"], m.s["h"], m.s["act"], k + 1)
        return np.append(w, F.vec_like(n - len(w), k))
    return np.array(F.vec_like(n, k), dtype=float)


def from_config(cls, c, dt=None):
    """spec of a configuration as produced by yuca.configs (continuous family)"""
    def plain(x):
        return x.tolist() if hasattr(x, "tolist") else x
    s = {"cls": cls, "e": 1, "n": 1, "mode": "circular", "kern": copy.deepcopy(c["neighborhood_kernel_config"]),
         "idk": copy.deepcopy(c.get("identity_kernel_config")), "gen": copy.deepcopy(c["genesis_config"]),
         "per": copy.deepcopy(c["persistence_config"]), "dt": float(c.get("dt", 0.1) if dt is None else dt)}
    for k, v in s["kern"].get("kernel_kwargs", {}).items():
        s["kern"]["kernel_kwargs"][k] = plain(v)
    return s


# ---------------------------------------------------------------- spec alphabet
def spec(cls, kern="gauss3", idk="none", gen="gm4", per="gaus1", dt=0.25, e=1, n=1, mode="circular", **kw):
    s = {"cls": cls, "e": e, "n": n, "mode": mode, "kern": copy.deepcopy(F.KERNELS[kern]), "idk": copy.deepcopy(F.IDK[idk]), "dt": dt}
    if cls == "NCA":
        s.update(h=kw.get("h", 4), act=kw.get("act", "Tanh"))
        s["w"] = M.nca_vec(e, n, s["h"], s["act"], kw.get("k", 0))
        s["kern"] = copy.deepcopy(F.KERNELS[kern])
    elif cls == "RxnDfn":
        s.update(e=2, n=2, p=list(kw.get("p", (2e-5, 1e-5, 0.062, 0.0609))), dx=kw.get("dx", 1 / 330.))
        s["kern"] = {"name": "LaplacianOfGaussian", "radius": kw.get("radius", 1), "kernel_kwargs": {"sigma": kw.get("sigma", 0.5)}}
    else:
        s.update(gen=F.fn_cfg(gen), per=F.fn_cfg(per))
    return s


def alphabet(cls):
    ks, fs, ids = list(F.KERNELS), list(F.FNS), list(F.IDK)
    out = {}
    if cls == "NCA":
        for i, act in enumerate(("Gaussian", "Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity")):
            for j, k in enumerate(("gauss3", "gmix4_3", "gmix9_4", "moore2", "smooth4", "cos3")):
                if (i + j) % 3 == 0 or i < 2:
                    e, n = ((1, 1), (2, 2), (4, 4), (1, 2))[(i + j) % 4]
                    out["%s-%s" % (act, k)] = spec("NCA", k, ("none", "none", "smooth")[j % 3], e=e, n=n, h=3 + i % 2, act=act, k=j, dt=0.3,
                                                  mode=("circular", "zeros")[(i + j) % 2])
    elif cls == "RxnDfn":
        out["a"] = spec("RxnDfn", dt=0.5)
        out["b"] = spec("RxnDfn", dt=0.7, p=(1.2e-5, 0.6e-5, 0.04, 0.06), dx=0.005, radius=2)
        out["c"] = spec("RxnDfn", dt=1.0, p=(2e-5, 2e-5, 0.03, 0.055), dx=0.004, radius=3, sigma=0.8)
        out["d"] = spec("RxnDfn", dt=0.4, idk="smooth", p=(2e-5, 1e-5, 0.05, 0.06), dx=0.01, radius=1)
    else:
        for i, f in enumerate(fs):
            e, mode = (1, 2, 1, 4)[i % 4], ("circular", "circular", "zeros")[i % 3]
            out["%d-%s" % (i, f)] = spec(cls, ks[i % len(ks)], ids[(i // 2) % len(ids)], f, fs[(i * 4 + 3) % len(fs)], dt=0.2 + 0.05 * (i % 3), e=e, mode=mode)
            if e == 4 and i % 8 == 3:
                out["%d-%s" % (i, f)]["thr"] = 0.45
    return out
