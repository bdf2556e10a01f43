"""K03: kernels handed to an automaton as arrays: breadth-first exploration of hand-over histories."""
import copy
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import ref, family as F, models as M
from mc.util import T, N, grid_family, maxdiff
from mc.core import Skip

PROPERTY = "K03"
RULE = ("states = (class, channels, boundary, neighbourhood kernel in force, identity kernel in force, time step); transitions = handing over each kernel in each form it can take, setting a configured kernel "
        "again, a refused kernel, and the caller overwriting an array already handed over; after every transition a step, a frame and both convolutions on every probe grid against the float64 reference")
ASSUMPTIONS = ["a kernel takes effect when its layer is initialised, as the automata do themselves", "kernels have odd sides", "tolerance 3e-4"]
TOL = 3e-4

A = np.array([[.05, .2, .1], [.15, -.1, .25], [.05, .0, .3]])
B = np.mod(np.arange(25).reshape(5, 5) * .6180339887, 1.0) / 12
C = np.array([[.7]])
D = np.zeros((5, 5))
D[0, 4] = 1                                       # a pure shift: shows orientation
E = np.array([[0, 1, 0], [0, 0, 0], [0, 0, 0]])   # integers
KERN = {"A": A, "B": B, "C": C, "D": D, "E": E}
IDN = {"I": np.array([[0, 0, 0], [0, 1, 0], [0, 0, 0]]), "J": np.array([[0, .25, 0], [0, .5, .125], [0, .125, 0]]),
       "L": np.eye(5)[::-1] / 5, "C": C}
BAD = {"wide": np.ones((3, 5)), "tall": np.ones((5, 3)), "line": np.ones(3), "five": np.ones((1, 1, 1, 3, 3))}


def stack(n):
    return np.stack([np.roll(A, i, 1) * (1 - .2 * i) for i in range(n)])[:, None]


def given(a, form):
    a = np.asarray(a)
    d = {"t2": 2, "t4": 4, "t64": 2, "n2": 2, "n4": 4, "n32": 4, "l2": 2, "l4": 4, "int": 2, "view": 2}[form]
    if d == 4 and a.ndim == 2:
        a = a[None, None]
    v = a.astype(float).tolist()
    if form == "int":
        return torch.tensor(a.astype(int).tolist())
    if form[0] == "l":
        return v
    if form[0] == "n":
        return np.array(v, dtype=np.float32 if form == "n32" else np.float64)
    if form == "view":          # not contiguous in memory
        return torch.tensor(np.asarray(v).T.tolist()).T
    return torch.tensor(v, dtype=torch.float64 if form == "t64" else torch.float32)


class World:
    """model: kernels in force"""

    def __init__(self, cls, e, n, mode):
        self.cls, self.e, self.n, self.mode = cls, e, n, mode
        self.k = self.i = None
        self.dt = 0.2
        self.cfg = F.config("gauss3", "none", "gm4", "gaus1", dt=0.2, radius=2)
        if cls == "RxnDfn":
            self.i = IDN["I"]           # its own stencil: see C06
        elif cls != "CA":
            self.k = ref.kernel(self.cfg["neighborhood_kernel_config"])
            self.i = IDN["I"]
        self.vec = M.nca_vec(e, n, 6, "SiLU", 0, 0.6) if cls == "NCA" else None

    def ready(self):
        return self.k is not None and self.i is not None

    def kk(self):
        k = np.asarray(self.k, dtype=float)
        return k if k.ndim == 2 else k[:, 0]

    def ii(self):
        return np.asarray(self.i, dtype=float)

    def parts(self, u):
        """grid after masking, identity, neighbourhoods, update"""
        cls = self.cls
        if cls == "RxnDfn":
            new = ref.gray_scott(u, *(float(x) for x in RXN[2:]), *RXN[:2], DX, self.dt, self.kk(), self.ii())
            return u, ref.conv(u, self.ii(), 2), ref.conv(u, self.kk(), 2), new
        v = ref.alive(u)
        if cls == "NCA":
            new, v, nb, _ = M.nca_step(u, self.vec, self.kk(), self.e, self.n, 6, "SiLU", self.dt, self.mode, idk=self.ii(), parts=True)
            return v, ref.conv(v, self.ii(), self.e, self.mode), nb, new
        idn, nb = ref.conv(v, self.ii(), self.n, self.mode), ref.conv(v, self.kk(), self.n, self.mode)
        if cls == "CA":
            return v, idn, nb, np.clip(v + self.dt * (idn + nb), 0, 1)
        rf = ref.RefCCA(self.cfg, external=self.e, internal=self.n, conv_mode=self.mode, lenia=cls == "Lenia", dt=self.dt)
        rf.k, rf.idk = self.kk(), self.ii()
        return v, idn, nb, rf.step(u)


RXN, DX = (2e-5, 1e-5, 0.04, 0.06), 1 / 200.


def create(w):
    if w.cls == "CA":
        from yuca.ca.common import CA
        ca = CA(external_channels=w.e, internal_channels=w.n, conv_mode=w.mode)
        ca.set_dt(w.dt)
        ca.reset()
        return ca
    if w.cls == "RxnDfn":
        ca = M.rxn(dt=w.dt, dx=DX)
        ca.set_params(np.array(RXN))
        ca.set_dt(w.dt)
        return ca
    if w.cls == "NCA":
        ca = M.nca(params=None, external_channels=w.e, internal_channels=w.n, hidden_channels=6, kernel_radius=2, conv_mode=w.mode, activation="SiLU", dropout_rate=0.0)
        c = {"neighborhood_kernel_config": copy.deepcopy(w.cfg["neighborhood_kernel_config"])}
        ca.set_kernel_config(c["neighborhood_kernel_config"])
        p = np.array(ca.get_params(), dtype=float)
        p[:len(w.vec)] = w.vec
        ca.set_params(p)
        ca.set_dt(w.dt)
        ca.eval()
        return ca
    if w.n == 1:
        return set_dt(F.build(w.cls, w.cfg, external_channels=w.e, internal_channels=w.n, conv_mode=w.mode), w.dt)
    M.reseed(4)
    ca = F.classes()[w.cls](external_channels=w.e, internal_channels=w.n, conv_mode=w.mode)
    ca.set_kernel_config(copy.deepcopy(w.cfg["neighborhood_kernel_config"]))
    ca.genesis_fns, ca.persistence_fns = [], []
    for _ in range(w.n):
        ca.add_genesis_fn(copy.deepcopy(w.cfg["genesis_config"]))
        if w.cls != "Lenia":
            ca.add_persistence_fn(copy.deepcopy(w.cfg["persistence_config"]))
    ca.no_grad()
    return set_dt(ca, w.dt)


def set_dt(ca, dt):
    ca.set_dt(dt)
    return ca


def apply(w, ca, op, ctx, what, held):
    """perform op on the real automaton and on the model"""
    kind = op[0]
    if kind in ("nb", "idk"):
        a = stack(w.n) if op[1] == "S" else (KERN if kind == "nb" else IDN)[op[1]]
        with ctx.guard("hand-over", what):
            g = given(a, op[2])
            before = copy.deepcopy(g)
            if kind == "nb":
                ca.add_neighborhood_kernel(g)
                ca.initialize_neighborhood_layer()
            else:
                ca.add_identity_kernel(kernel=g)
                ca.initialize_id_layer()
        ctx.expect(bool(np.all(np.asarray(N(g) if torch.is_tensor(g) else g) == np.asarray(N(before) if torch.is_tensor(before) else before))),
                   "argument", "%s: handing over a kernel changed the array" % what)
        held.append(g)
        if kind == "nb":
            w.k = a
        else:
            w.i = a
    elif kind == "default":
        with ctx.guard("hand-over", what):
            ca.add_identity_kernel()
            ca.initialize_id_layer()
        w.i = IDN["I"]
    elif kind == "bad":
        with suppress(Exception):
            ca.add_neighborhood_kernel(given(BAD[op[1]], "t64") if op[1] in ("wide", "tall") else torch.tensor(BAD[op[1]].tolist()))
            ctx.fail("refuse", "%s: a kernel of shape %s was accepted" % (what, BAD[op[1]].shape))
        with suppress(Exception):
            ca.add_identity_kernel(kernel=torch.tensor(BAD[op[1]].tolist()))
            ctx.fail("refuse", "%s: an identity kernel of shape %s was accepted" % (what, BAD[op[1]].shape))
    elif kind == "overwrite":
        for g in held:
            if torch.is_tensor(g):
                g.zero_()
            elif isinstance(g, np.ndarray):
                g[...] = 0
            else:
                for row in (g if not isinstance(g[0][0], list) else g[0][0]):
                    row[:] = [0.0] * len(row)
    elif kind == "radius":
        with ctx.guard("configured", what):
            ca.set_kernel_radius(op[1])
        w.k = ref.kernel(dict(w.cfg["neighborhood_kernel_config"], radius=op[1]))
    elif kind == "grow":
        pass


def ops(w, th):
    forms = ["t4"] if w.cls == "RxnDfn" else ["t2", "t4", "t64", "n2", "n4", "n32", "l2", "l4", "view"]
    out = [("nb", k, f) for k in KERN for f in (forms if k == "A" or th else [forms[(list(KERN).index(k) * 2) % len(forms)]])]
    if w.cls != "RxnDfn":
        out += [("nb", "E", "int"), ("idk", "I", "int")]
    if w.n > 1 and w.cls != "RxnDfn":
        out.append(("nb", "S", "t4"))
    out += [("idk", i, f) for i in IDN for f in (("t2", "t4", "view") if i == "J" or th else ("t2",))]
    out += [("default",), ("overwrite",)] + [("bad", b) for b in BAD]
    if w.cls in ("CCA", "Lenia", "NCA"):
        out += [("radius", 1), ("radius", 3)]
    return out


def observe(ctx, w, ca, what):
    if not w.ready():
        return
    r = max(np.shape(w.k)[-1], np.shape(w.i)[-1])
    for gk, g in grid_family((1, w.e, 6, 7), ("irr", "dot")).items():
        if w.mode == "reflect" and r // 2 >= 6:
            continue
        with ctx.guard("step", what):
            t = T(g)
            new = N(ca(t))
            fr = N(ca.get_frame(t))
            pre = T(w.parts(g)[0])
            idn, nb = N(ca.id_conv(pre)), N(ca.neighborhood_conv(pre))
        _, wi, wn, want = w.parts(g)
        ctx.transitions += 1
        ctx.traces += 1
        ctx.expect(maxdiff(nb, wn) <= TOL, "neighbourhood", "%s on %s: neighbourhoods off by %g" % (what, gk, maxdiff(nb, wn)), what)
        ctx.expect(maxdiff(idn, wi) <= TOL, "identity", "%s on %s: cell values off by %g" % (what, gk, maxdiff(idn, wi)), what)
        ctx.expect(maxdiff(new, want) <= TOL, "step", "%s on %s: step off by %g" % (what, gk, maxdiff(new, want)), what)
        ctx.expect(maxdiff(fr, want) <= TOL, "frame", "%s on %s: frame off by %g" % (what, gk, maxdiff(fr, want)), what)


def units(tier, seed):
    th = tier == "thorough"
    us = []
    for cls, chans in (("CA", [(1, 1), (3, 3)]), ("CCA", [(1, 1), (1, 3), (2, 2), (2, 4), (2, 3)]), ("Lenia", [(1, 1), (3, 3)]), ("NCA", [(1, 1), (2, 4)]), ("RxnDfn", [(2, 2)])):
        for e, n in chans:
            for mode in (("circular",) if cls == "RxnDfn" else ("circular", "zeros", "reflect", "replicate") if (e, n) == (1, 1) or th else ("circular", "zeros")):
                us.append({"kind": "history", "cls": cls, "e": e, "n": n, "mode": mode, "depth": 3 if th and (e, n) in ((1, 1), (2, 4)) and mode in ("circular", "zeros") else 2})
    us.append({"kind": "grid"})
    return us


def run_unit(u, ctx):
    if u["kind"] == "grid":
        return run_grid(ctx)
    th = ctx.tier == "thorough"
    base = World(u["cls"], u["e"], u["n"], u["mode"])
    O = ops(base, th)
    seen = set()
    for h in itertools.chain.from_iterable(itertools.product(O, repeat=d) for d in range(u["depth"] + 1)):
        # every history ends in one that changes something, and deeper ones start with neighbourhood, identity
        if len(h) == 3 and (h[0][0], h[1][0]) not in (("nb", "idk"), ("idk", "nb"), ("nb", "nb"), ("bad", "nb")):
            continue
        if len(h) > 1 and u["cls"] != "CA" and h[0][0] == "overwrite":
            continue
        w = World(u["cls"], u["e"], u["n"], u["mode"])
        what = "%s %s->%s %s after %s" % (u["cls"], u["e"], u["n"], u["mode"], list(h))
        with suppress(Skip):
            with ctx.guard("create", what):
                ca = create(w)
            held = []
            for op in h:
                apply(w, ca, op, ctx, what, held)
            observe(ctx, w, ca, what)
            ctx.visit((u["cls"], u["e"], u["n"], u["mode"], None if w.k is None else np.asarray(w.k).tobytes(), None if w.i is None else np.asarray(w.i).tobytes(), h[-1:]))
    ctx.sample({"unit": u, "operations": len(O), "states": ctx.states})


def run_grid(ctx):
    from yuca.ca.neural import NCA
    from yuca.ca.common import CA
    makers = {c: (lambda e, c=c: F.classes()[c](external_channels=e, kernel_radius=2)) for c in F.classes()}
    makers["NCA"] = lambda e: NCA(external_channels=e, internal_channels=e, hidden_channels=4, kernel_radius=2)
    makers["CA"] = lambda e: CA(external_channels=e)
    for (cls, mk), e, b, dim in itertools.product(makers.items(), (1, 2, 4), (1, 3), (5, 8, (4, 7), [6, 3])):
        what = "%s with %d channels, batch %d, size %s" % (cls, e, b, dim)
        with suppress(Skip):
            with ctx.guard("grid", what):
                g = mk(e).initialize_grid(batch_size=b, dim=dim)
            want = (b, e, dim, dim) if isinstance(dim, int) else (b, e) + tuple(dim)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.visit((cls, e, b, str(dim)))
            ctx.expect(tuple(g.shape) == want and float(g.abs().max()) == 0 and g.dtype == torch.float32, "grid", "%s: background has shape %s, largest value %s" % (what, tuple(g.shape), float(g.abs().max())))
