"""R07: automata created from rule files, and rules saved by them, after every history of the files."""
import contextlib
import io
import itertools
import os
from contextlib import suppress
import numpy as np
from mc import auto as A, evo, family as F, models as M
from mc.util import grid_family
from mc.core import Skip

PROPERTY = "R07"
RULE = ("states = (class, rules, history): every history up to the depth bound over {create from file x / y (naming it when created), restore x, set dt, write parameters, change radius, save to x / y, replace x by a "
        "hand-made rule, delete x}; the model is (rule in x, rule in y, rule of the automaton); after the last operation the automaton, and every file opened both ways into new automata, are compared with it; "
        "transition = one operation")
ASSUMPTIONS = ["hand-made files hold a rule without constructor settings; an automaton naming one is given the matching channels, padding and hidden width",
               "an automaton that names a missing file is only required to work like a new one (its rule is random)", "tolerance 5e-4"]
CLASSES = ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")
OPS = ("new:x", "new:y", "restore:x", "dt", "vec", "rad", "save:x", "save:y", "put:x", "rm:x")


def pairs(cls):
    """pairs of rules of one structure"""
    if cls == "NCA":
        return [(A.spec("NCA", "gmix4_3", e=1, n=1, h=4, act="Tanh", dt=0.3), A.spec("NCA", "moore2", e=1, n=1, h=4, act="Tanh", k=2, dt=0.2)),
                (A.spec("NCA", "gauss3", e=2, n=2, h=3, act="ReLU", dt=0.25, mode="zeros"), A.spec("NCA", "gmix9_4", "smooth", e=2, n=2, h=3, act="ReLU", k=1, dt=0.4, mode="zeros"))]
    if cls == "RxnDfn":
        al = A.alphabet(cls)
        return [(al["a"], al["b"]), (al["d"], al["c"])]
    return [(A.spec(cls, "gauss3", "none", "gm4", "gaus1", 0.25), A.spec(cls, "moore2", "smooth", "poly", "si1", 0.2)),
            (A.spec(cls, "gmix4_3", "none", "dog", "gm4", 0.15, e=2, mode="zeros") if "dog" in F.FNS else A.spec(cls, "gmix4_3", "none", "gaus1", "gm4", 0.15, e=2, mode="zeros"),
             A.spec(cls, "smooth4", "none", "si2", "gm4", 0.3, e=2, mode="zeros"))]


def klass(cls):
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    return dict(F.classes(), NCA=NCA, RxnDfn=RxnDfn)[cls]


def args(s):
    if s["cls"] == "RxnDfn":
        return {}
    a = {"external_channels": s["e"], "internal_channels": s["n"], "conv_mode": s["mode"]}
    if s["cls"] == "NCA":
        a.update(hidden_channels=s["h"], activation=s["act"])
    return a


def ready(ca):
    ca.no_grad()
    ca.eval()
    return ca


def works(ctx, ca, s, what, tr):
    """an automaton without a rule of its own: steps stay in bounds, parameters round-trip"""
    with ctx.guard("missing", tr):
        p = np.asarray(ca.get_params(), dtype=float)
        ca.set_params(p)
        for g in grid_family((1, 2 if s["cls"] == "RxnDfn" else s["e"], 28, 29), ("irr",)).values():
            o = A.probe(ca, s, g)
            ctx.expect(o.shape == g.shape and np.isfinite(o).all() and o.min() >= 0 and o.max() <= 1, "missing", "%s: an automaton naming a missing file does not work" % what, tr)
        ca.make_config()


def history(ctx, cls, P, Q, seq, opened):
    """replays the operations; False when one of them is not meaningful in its state"""
    put = lambda m: np.save("x.npy", m.real_config())
    disk = {"x": (A.Model(P), False), "y": None}
    put(disk["x"][0])
    if os.path.exists("y.npy"):
        os.unlink("y.npy")
    M.reseed(3)
    ca, m = None, None
    tr = {"class": cls, "history": list(seq)}
    what = "%s %s" % (cls, list(seq))
    for k, op in enumerate(seq):
        name, _, f = op.partition(":")
        last = k == len(seq) - 1
        if name == "new":
            with ctx.guard("create", tr):
                ca = ready(klass(cls)(ca_config=f + ".npy", **args(P)))
            m = A.Model(disk[f][0].s) if disk[f] else None
            if last and m is None:
                works(ctx, ca, P, what, tr)
        elif ca is None and name not in ("put", "rm"):
            return False
        elif name == "restore":
            with ctx.guard("restore", tr):
                ca.restore_config(f + ".npy")
                ready(ca)
            if disk[f]:
                m = A.Model(disk[f][0].s)
        elif name == "put":
            disk[f] = (A.Model(Q), False)
            put(disk[f][0])
        elif name == "rm":
            if not disk[f]:
                return False
            disk[f] = None
            os.unlink(f + ".npy")
        elif m is None:
            return False
        elif name == "dt":
            ca.set_dt(0.45)
            m.set_dt(0.45)
        elif name == "vec":
            v = A.vector(m, 1)
            with ctx.guard("vector", tr):
                ca.set_params(np.array(v))
            m.set_params(v)
        elif name == "rad":
            with ctx.guard("radius", tr):
                ca.set_kernel_radius(4)
            m.set_radius(4)
        elif name == "save":
            with ctx.guard("save", tr):
                ca.save_config(f + ".npy")
            disk[f] = (A.Model(m.s), cls != "RxnDfn")
        ctx.transitions += 1
    if m is not None:
        A.check(ctx, ca, m, "automaton", what, tr, small=True)
    if seq[-1].split(":")[0] not in ("save", "put", "rm"):
        return True
    for f in ("x", "y"):
        if not disk[f]:
            continue
        fm, settings = disk[f]
        for how in opened:
            with ctx.guard("open:" + how, tr):
                if how == "naming":
                    c = klass(cls)(ca_config=f + ".npy", **({} if settings else args(P)))
                else:
                    c = klass(cls)(**({} if settings else args(P)))
                    c.restore_config(f + ".npy")
                ready(c)
            A.check(ctx, c, fm, "file:" + how, "%s: %s opened by %s it" % (what, f, how), tr, small=True)
    if m is not None:
        A.check(ctx, ca, m, "automaton", what + " after its file was opened elsewhere", tr, small=True)
    return True


def run_unit(u, ctx):
    P, Q = pairs(u["cls"])[u["pair"]]
    with evo.scratch(), contextlib.redirect_stdout(io.StringIO()):
        n = 0
        for d in range(1, u["depth"] + 1):
            for seq in itertools.product(OPS, repeat=d):
                if seq[0] not in u["first"] or "new:x" not in seq and "new:y" not in seq:
                    continue
                n += 1
                with suppress(Skip):
                    if history(ctx, u["cls"], P, Q, seq, ("naming", "restoring")):
                        ctx.visit(seq)
                        ctx.traces += 1
    ctx.sample({"unit": u, "histories": ctx.traces})


def units(tier, seed):
    q = tier == "quick"
    us = []
    for cls in CLASSES:
        for pair in (0, 1):
            d = 4 if cls in ("CCA", "NCA", "RxnDfn") and pair == 0 else 3
            if not q:
                d = 5 if cls in ("CCA", "NCA") and pair == 0 else 4
            for first in (("new:x",), ("new:y",), ("put:x",), ("rm:x",)):
                us.append({"cls": cls, "pair": pair, "depth": d, "first": list(first)})
    return us
