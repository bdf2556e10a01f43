"""R04: automata share no state with each other or with exported data."""
import copy
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc import auto as A, family as F, models as M
from mc.util import T, N, same
from mc.core import Skip

PROPERTY = "R04"
RULE = ("states = settings of two automata (same class, or a class pair) built from one shared configuration object; every interleaving up to the "
        "depth bound over {vector, radius, kernel, dt, load shared, export, step, mutate last export, mutate read vector} x {first, second} and "
        "{create a third}; after each operation both automata are compared with their own reference model, and every earlier export and the "
        "shared configuration with its snapshot")
ASSUMPTIONS = ["tolerance 5e-4"]
PAIRS = (("CCA", "CCA"), ("CCA", "Lenia"), ("CODE", "RandomStepCA"), ("NCA", "NCA"), ("RxnDfn", "RxnDfn"), ("MetaCA", "CCA"))
OPS = [o + i for o in ("vec", "rad", "ker", "dt", "load", "exp", "step", "mutx", "mutv") for i in "01"] + ["new"]
KER = {"name": "GaussianMixture", "radius": 2, "kernel_kwargs": {"parameters": [0.3, 0.1]}}
RKER = {"name": "LaplacianOfGaussian", "radius": 3, "kernel_kwargs": {"sigma": 0.9}}


def variants(cls):
    if cls == "NCA":
        return [A.spec("NCA", "gauss3", "smooth", dt=0.3, e=2, n=2, h=3, act="Gaussian"), A.spec("NCA", "moore2", "none", dt=0.3, h=3, act="Tanh")]
    if cls == "RxnDfn":
        return [A.spec("RxnDfn", dt=0.5), A.spec("RxnDfn", dt=0.4, idk="smooth", radius=2)]
    return [A.spec(cls, "gmix4_3", "smooth", "gm4", "poly", dt=0.25), A.spec(cls, "gauss3", "none", "gaus1", "dbl", dt=0.5),
            A.spec(cls, "moore2", "none", "si1", "gm3", dt=0.5)]


def units(tier, seed):
    us = []
    for pi, p in enumerate(PAIRS):
        for v in range(len(variants(p[0]))):
            d = (3 if (v == 0 and pi in (0, 3, 4)) else 2) if tier == "quick" else (4 if v == 0 and pi in (0, 3, 4) else 3)
            for o in OPS:
                us.append({"pair": list(p), "v": v, "op": o, "depth": d})
    return us


def scramble(x):
    """what a caller may do to data it was given: overwrite every number and drop every key"""
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
            if isinstance(x[k], (int, float)) and not isinstance(x[k], bool):
                x[k] = x[k] * 3 + 1
        x["scrambled"] = True
    elif isinstance(x, torch.Tensor):
        with torch.no_grad():
            x += 0.37
    elif isinstance(x, np.ndarray):
        x += 0.37
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], (int, float)):
                x[i] = x[i] * 3 + 1
            else:
                scramble(x[i])


def build(cls, spec, cfg):
    s = dict(spec, cls=cls)
    ca = A.make(s, load=False)
    ca.load_config(cfg)
    ca.no_grad()
    ca.eval()
    return ca


def run_unit(u, ctx):
    base = variants(u["pair"][0])[u["v"]]
    ker = RKER if u["pair"][0] == "RxnDfn" else KER
    for tail in itertools.product(OPS, repeat=u["depth"] - 1):
        seq = (u["op"],) + tail
        with suppress(Skip):
            tr = list(u["pair"]) + [u["v"]] + list(seq)
            shared = A.Model(base).real_config()
            shared["dt"] = torch.tensor(shared["dt"]) if u["pair"][0] != "RxnDfn" else shared["dt"]
            snap = copy.deepcopy(shared)
            sker = A.real_kernel(ker)
            skersnap = copy.deepcopy(sker)
            sdt = torch.tensor(0.45)
            with ctx.guard("build", tr):
                cas = [build(c, base, shared) for c in u["pair"]]
            ms = [A.Model(dict(copy.deepcopy(base), cls=c)) for c in u["pair"]]
            exports = [None, None]          # (object, snapshot)
            for n, op in enumerate(seq):
                what = "%s after %s" % (u["pair"], list(seq[:n + 1]))
                i = int(op[-1]) if op[-1] in "01" else 0
                ca, m = cas[i], ms[i]
                with ctx.guard("op:" + op.rstrip("01"), tr):
                    if op.startswith("vec"):
                        v = A.vector(m, i)
                        ca.set_params(v)
                        m.set_params(v.copy())
                    elif op.startswith("rad"):
                        ca.set_kernel_radius(4 + i)
                        m.set_radius(4 + i)
                    elif op.startswith("ker"):
                        ca.set_kernel_config(sker)
                        m.set_kernel(ker)
                    elif op.startswith("dt"):
                        ca.set_dt(sdt)
                        m.set_dt(0.45)
                    elif op.startswith("load"):
                        ca.load_config(shared)
                        ca.no_grad()
                        ca.eval()
                        m.load(base)
                    elif op.startswith("exp"):
                        c = ca.make_config()
                        exports[i] = (c, copy.deepcopy(c))
                    elif op.startswith("step"):
                        A.probe(ca, m.s, A.probes(m.s, True)[0])
                    elif op.startswith("mutx"):
                        c = ca.make_config()
                        scramble(c)
                        exports[i] = None
                    elif op.startswith("mutv"):
                        p = ca.get_params()
                        p += 0.37
                    else:
                        third = build(u["pair"][1], base, shared)
                        third.set_params(A.vector(A.Model(dict(copy.deepcopy(base), cls=u["pair"][1])), 1))
                        third.set_kernel_radius(6)
                        third.set_dt(0.9)
                        A.blank(u["pair"][0]).make_config()
                ctx.transitions += 1
                if ctx.visit(tuple(tr[:4 + n])):
                    for j in (0, 1):
                        A.check(ctx, cas[j], ms[j], "isolation", "%s: automaton %d" % (what, j), tr, small=True)
                    ctx.expect(same(shared, snap), "shared", what + ": the shared configuration object was modified", tr)
                    ctx.expect(same(sker, skersnap), "shared:kernel", what + ": the shared kernel configuration was modified", tr)
                    ctx.expect(float(sdt) == float(torch.tensor(0.45)), "shared:dt", what + ": the shared dt tensor was modified", tr)
                    for j in (0, 1):
                        ctx.expect(exports[j] is None or same(*exports[j]), "export", "%s: the earlier export of %d changed" % (what, j), tr)
            ctx.traces += 1
    ctx.sample({"unit": u, "states": ctx.states})
