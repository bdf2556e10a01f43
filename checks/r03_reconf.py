"""R03: reconfiguration histories against a model holding only the latest value of each setting."""
import copy
import itertools
from contextlib import suppress
import numpy as np
from mc import auto as A, family as F, models as M
from mc.util import T, N
from mc.core import Skip

PROPERTY = "R03"
RULE = ("states = settings of one automaton reached by every history up to the depth bound over {load one of the configurations, load a full export with other channels and boundary, radius 2, "
        "radius 5, kernel K1, kernel K2, dt, vector, step}; transition = one operation; after each, radius, dt, parameter vector and the one-step "
        "dynamics are compared with the reference model")
ASSUMPTIONS = ["tolerance 5e-4", "one genesis/persistence pair per configuration"]
CLASSES = ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")
KS = {"K1": {"name": "GaussianMixture", "radius": 4, "kernel_kwargs": {"parameters": [0.3, 0.1, 0.7, 0.06]}},
      "K2": {"name": "MooreLike", "radius": 2},
      "K3": {"name": "Gaussian", "radius": 3, "kernel_kwargs": {"mu": 0.4, "sigma": 0.2}}}
RK = {"K1": {"name": "LaplacianOfGaussian", "radius": 2, "kernel_kwargs": {"sigma": 0.5}},
      "K2": {"name": "LaplacianOfGaussian", "radius": 3, "kernel_kwargs": {"sigma": 0.9}},
      "K3": {"name": "LaplacianOfGaussian", "radius": 1, "kernel_kwargs": {"sigma": 0.6}}}


def specs(cls):
    if cls == "NCA":
        a = dict(e=2, n=2, h=3, act="Gaussian")
        return [A.spec("NCA", "gauss3", "none", dt=0.1, k=0, **a), A.spec("NCA", "moore2", "none", dt=0.7, k=1, **a),
                A.spec("NCA", "gmix4_3", "smooth", dt=0.2, k=2, **a), A.spec("NCA", "gmix9_4", "none", dt=0.5, k=3, **a)]
    if cls == "RxnDfn":
        return list(A.alphabet(cls).values())
    from yuca import configs as C
    cs = [C.get_smooth_life_config(radius=4), C.get_life_like_config(), C.get_orbium_config(radius=5), C.get_geminium_config(radius=6)]
    return [A.from_config(cls, c, dt) for c, dt in zip(cs, (0.3, 1.0, 0.1, 0.2))] + [
        A.spec(cls, "gauss3", "smooth", "gm6", "dbl", dt=0.4), A.spec(cls, "cos3", "none", "si1", "poly", dt=0.6)]


def exported(cls, other=True):
    if cls == "NCA" and not other:
        return A.spec("NCA", "smooth4", "none", dt=0.6, k=2, e=2, n=2, h=3, act="Gaussian", mode="zeros")
    if cls == "NCA":
        return A.spec("NCA", "smooth4", "none", dt=0.6, k=2, e=1, n=2, h=4, act="Tanh", mode="zeros")
    if cls == "RxnDfn":
        return A.spec("RxnDfn", dt=0.9, p=(1e-5, 0.7e-5, 0.05, 0.06), dx=0.006, radius=2)
    return A.spec(cls, "dog2", "smooth", "poly", "gm4", dt=0.35, e=2, mode="zeros")


def ops(cls):
    return ["L%d" % i for i in range(len(specs(cls)))] + ["X"] + (["Y"] if cls == "NCA" else []) + ["rad2", "rad5", "K1", "K2", "K3", "dt", "vec", "step"]


def units(tier, seed):
    us = []
    deep = ("CCA", "NCA", "RxnDfn") if tier == "quick" else CLASSES
    for c in CLASSES:
        for i in range(len(specs(c))):
            d = (3 if c in deep and i < 4 else 2) if tier == "quick" else 4 if c in ("CCA", "NCA", "RxnDfn") and i < 4 else 3
            for o in ops(c):
                us.append({"cls": c, "first": i, "op": o, "depth": d})
    return us


def run_unit(u, ctx):
    cls = u["cls"]
    sp = specs(cls)
    alpha = ops(cls)
    ks = RK if cls == "RxnDfn" else KS
    cfgs = [A.Model(s).real_config() for s in sp]
    for c, s in zip(cfgs, sp):          # the default dt need not be spelled out
        if s["dt"] == (0.5 if cls == "RxnDfn" else 0.1):
            del c["dt"]
    xs = {o: exported(cls, o == "Y") for o in "XY"}
    with ctx.guard("export", [cls]):
        xcfg = {o: A.make(xs[o]).make_config() for o in "XY"}
    for tail in itertools.product(alpha, repeat=u["depth"] - 1):
        seq = (u["op"],) + tail
        if cls == "NCA" and "Y" in seq and any(o[0] == "L" for o in seq[seq.index("Y"):]):
            continue            # those configurations do not fit a network of another size
        with suppress(Skip):
            tr = [cls, u["first"]] + list(seq)
            m = A.Model(sp[u["first"]])
            with ctx.guard("build", tr):
                ca = A.make(sp[u["first"]])
            for n, op in enumerate(seq):
                what = "%s L%d then %s" % (cls, u["first"], list(seq[:n + 1]))
                with ctx.guard("op:" + op[:1], tr):
                    if op[0] == "L":
                        ca.load_config(copy.deepcopy(cfgs[int(op[1:])]))
                        m.load(sp[int(op[1:])])
                        ca.no_grad()
                        ca.eval()
                    elif op in "XY":         # a full export: carries its own channel counts and boundary mode
                        ca.load_config(copy.deepcopy(xcfg[op]))
                        m.s = copy.deepcopy(xs[op])
                        ca.no_grad()
                        ca.eval()
                    elif op[:3] == "rad":
                        ca.set_kernel_radius(int(op[3:]))
                        m.set_radius(int(op[3:]))
                    elif op[0] == "K":
                        ca.set_kernel_config(A.real_kernel(ks[op]))
                        m.set_kernel(ks[op])
                    elif op == "dt":
                        ca.set_dt(0.45)
                        m.set_dt(0.45)
                    elif op == "vec":
                        v = A.vector(m, 0)
                        ca.set_params(v.copy())
                        m.set_params(v)
                    else:
                        A.probe(ca, m.s, A.probes(m.s, True)[0])
                ctx.transitions += 1
                if ctx.visit(tuple(tr[:3 + n])):
                    A.check(ctx, ca, m, "reconf", what, tr, small=True)
            ctx.traces += 1
    ctx.sample({"unit": u, "states": ctx.states})
