"""R01: exported configuration reproduces the automaton, after every configuration history."""
import copy
import itertools
import os
import tempfile
from contextlib import suppress
import numpy as np
from mc import auto as A, family as F, models as M
from mc.util import T, N, grid_family, maxdiff, same
from mc.core import Skip

PROPERTY = "R01"
RULE = ("states = (class, configuration) x every history up to the depth bound over {vec0, vec1, radius 2, radius 5, dt, step, load another, "
        "export, default}; at the end the export is loaded into a fresh default automaton (directly and through a file) and exporter, copy and "
        "second copy are compared with the reference model in dynamics, parameters, radius, dt")
ASSUMPTIONS = ["one genesis/persistence pair per configuration (the format has no room for more)",
               "integrator state (adaptive previous step, velocity) is not part of a configuration; those classes are compared by their plain update",
               "tolerance 5e-4"]
OPS = ("vec0", "vec1", "rad2", "rad5", "dt", "tiny", "step", "load", "export")
CLASSES = ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")


def units(tier, seed):
    us = []
    for c in CLASSES:
        names = list(A.alphabet(c))
        if c in ("Lenia", "CODE", "RandomStepCA", "MetaCA") and tier == "quick":
            names = names[::3]
        us += [{"cls": c, "cfg": n, "depth": 2 if tier == "quick" else 3} for n in names]
    us += [{"cls": c, "cfg": None, "depth": 2} for c in ("CCA", "Lenia", "NCA", "RxnDfn")]
    return us


def apply(ca, m, op, other):
    if op.startswith("vec"):
        v = A.vector(m, int(op[3]))
        ca.set_params(np.array(v))
        m.set_params(v)
    elif op.startswith("rad"):
        r = int(op[3:])
        ca.set_kernel_radius(r)
        m.set_radius(r)
    elif op == "dt":
        ca.set_dt(0.6)
        m.set_dt(0.6)
    elif op == "tiny":
        ca.set_dt(0.004)
        m.set_dt(0.004)
    elif op == "step":
        A.probe(ca, m.s, A.probes(m.s, True)[0])
    elif op == "load":
        ca.load_config(A.Model(other).real_config())
        ca.no_grad()
        ca.eval()
        m.load(other)
    elif op == "export":
        c = ca.make_config()


def reload_(cls, cfg, path=None):
    ca = A.blank(cls)
    if path is None:
        ca.load_config(copy.deepcopy(cfg))
    else:
        ca.restore_config(path)
    ca.no_grad()
    ca.eval()
    return ca


def run_unit(u, ctx):
    cls = u["cls"]
    alpha = A.alphabet(cls)
    tmp = tempfile.mkdtemp(prefix="r01_")
    path = os.path.join(tmp, "cfg.npy")
    try:
        if u["cfg"] is None:
            return default_export(ctx, cls, path)
        spec = alpha[u["cfg"]]
        names = list(alpha)
        for d in range(u["depth"] + 1):
            for seq in itertools.product(OPS, repeat=d):
                with suppress(Skip):
                    other = alpha[names[(names.index(u["cfg"]) + 5) % len(names)]]
                    if cls in ("NCA",):         # structural settings stay with the automaton
                        other = copy.deepcopy(other)
                        other.update(e=spec["e"], n=spec["n"], h=spec["h"], act=spec["act"],
                                     w=M.nca_vec(spec["e"], spec["n"], spec["h"], spec["act"], 3))
                    m = A.Model(spec)
                    tr = [u["cfg"]] + list(seq)
                    what = "%s %s" % (cls, tr)
                    with ctx.guard("history", tr):
                        ca = A.make(spec)
                        for op in seq:
                            apply(ca, m, op, other)
                            ctx.transitions += 1
                    with ctx.guard("export", tr):
                        cfg = ca.make_config()
                        snap = copy.deepcopy(cfg)
                        ca.save_config(path)
                    A.check(ctx, ca, m, "exporter", what + " after export", tr)
                    with ctx.guard("import", tr):
                        c2 = reload_(cls, cfg)
                    A.check(ctx, c2, m, "copy", what + ": copy", tr)
                    ctx.expect(same(cfg, snap), "export:mutated", "%s: exported configuration changed after the export" % what, tr)
                    with ctx.guard("import:file", tr):
                        c3 = reload_(cls, None, path)
                    A.check(ctx, c3, m, "filecopy", what + ": copy through a file", tr, small=True)
                    with ctx.guard("export2", tr):
                        c4 = reload_(cls, c2.make_config())
                    A.check(ctx, c4, m, "copy2", what + ": copy of the copy", tr, small=True)
                    ctx.traces += 1
                    ctx.visit((cls, tuple(tr)))
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    ctx.sample({"unit": u, "states": ctx.states})


def default_export(ctx, cls, path):
    """automata that were never configured: differential oracle original vs copy"""
    for sd, seq in itertools.product(range(6), [()] + [(o,) for o in ("rad", "dt", "vec")] + list(itertools.permutations(("rad", "dt", "vec"), 2))):
        with suppress(Skip):
            tr = [cls, "default", sd] + list(seq)
            M.reseed(sd)
            with ctx.guard("default", tr):
                if cls == "RxnDfn":
                    ca = A.blank(cls)
                elif cls == "NCA":
                    from yuca.ca.neural import NCA
                    ca = NCA(hidden_channels=5, kernel_radius=4, external_channels=1 + sd % 2, internal_channels=1 + sd % 2)
                else:
                    ca = F.classes()[cls](kernel_radius=4, external_channels=(1, 2, 4)[sd % 3], alive_threshold=(0.1, 0.45)[sd > 2])
                ca.no_grad()
                ca.eval()
                for op in seq:
                    if op == "rad":
                        ca.set_kernel_radius(3)
                    elif op == "dt":
                        ca.set_dt(0.7)
                    else:
                        p = np.asarray(ca.get_params(), dtype=float)
                        ca.set_params(p * 1.05 + (0 if cls == "RxnDfn" else 0.01))
                    ctx.transitions += 1
                e = 2 if cls == "RxnDfn" else ca.external_channels
                gs = list(grid_family((1, e, 11, 12), ("irr", "irr2")).values())
                s = {"cls": cls}
                before = [A.probe(ca, s, g) for g in gs]
                ca.save_config(path)
                after = [A.probe(ca, s, g) for g in gs]
                cp = reload_(cls, None, path)
                copied = [A.probe(cp, s, g) for g in gs]
                obs = [(ca.get_kernel_radius(), cp.get_kernel_radius()), (ca.get_dt(), cp.get_dt())]
                pa, pb = np.asarray(ca.get_params(), float), np.asarray(cp.get_params(), float)
            d = max(maxdiff(a, b) for a, b in zip(before, after))
            ctx.expect(d <= 1e-6, "default:exporter", "%s: exporting changed the exporter by %g" % (tr, d), tr)
            d = max(maxdiff(a, b) for a, b in zip(before, copied))
            ctx.expect(d <= 5e-4, "default:copy", "%s: the copy of a never-configured automaton differs by %g" % (tr, d), tr)
            ctx.expect(all(abs(a - b) < 1e-6 for a, b in obs), "default:settings", "%s: radius/dt %s" % (tr, obs), tr)
            ctx.expect(pa.shape == pb.shape and np.allclose(pa, pb, rtol=1e-5, atol=1e-7), "default:params", "%s: parameters differ" % tr, tr)
            ctx.traces += 1
            ctx.visit(tuple(tr))
