"""R02: parameter vectors round-trip and take full effect."""
import itertools
from contextlib import suppress
import numpy as np
from mc import auto as A
from mc.util import same
from mc.core import Skip

PROPERTY = "R02"
RULE = ("states = (class, configuration, vector) reached by every history up to the depth bound over {write v0, v1, v2, write back what was read, "
        "step, export}, plus every single-position perturbation of a base vector; transition = one operation; after each one the vector read "
        "back and the one-step dynamics are compared with the reference model holding that vector")
ASSUMPTIONS = ["tolerance 5e-4 on steps, 1e-5 relative on vectors (float32 storage)"]
CLASSES = ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")
OPS = ("v0", "v1", "v2", "back", "step", "export")


def units(tier, seed):
    us = []
    for c in CLASSES:
        names = list(A.alphabet(c))
        deep = names if c in ("CCA", "NCA", "RxnDfn") or tier != "quick" else names[1::4]
        for n in names:
            us.append({"kind": "pos", "cls": c, "cfg": n})
            if n in deep:
                us.append({"kind": "hist", "cls": c, "cfg": n, "depth": 2 if tier == "quick" else 4 if c == "RxnDfn" else 3})
    return us


def apply(ctx, ca, m, op, tr, what):
    if op[0] == "v":
        v = A.vector(m, int(op[1]))
        keep = v.copy()
        with ctx.guard("write", tr):
            ca.set_params(v)
        ctx.expect(np.array_equal(v, keep), "write:input", what + ": the caller's vector was modified", tr)
        m.set_params(keep)
        v[:] = 9.0          # the caller goes on using its array
    elif op == "back":
        with ctx.guard("back", tr):
            ca.set_params(ca.get_params())
    elif op == "step":
        with ctx.guard("step", tr):
            A.probe(ca, m.s, A.probes(m.s, True)[0])
    else:
        with ctx.guard("export", tr):
            ca.make_config()


def run_unit(u, ctx):
    spec = A.alphabet(u["cls"])[u["cfg"]]
    if u["kind"] == "hist":
        for seq in itertools.product(OPS, repeat=u["depth"]):
            with suppress(Skip):
                tr = [u["cls"], u["cfg"]] + list(seq)
                m = A.Model(spec)
                with ctx.guard("build", tr):
                    ca = A.make(spec)
                for i, op in enumerate(seq):
                    what = "%s %s after %s" % (u["cls"], u["cfg"], list(seq[:i + 1]))
                    apply(ctx, ca, m, op, tr, what)
                    ctx.transitions += 1
                    if ctx.visit((u["cls"], u["cfg"], seq[:i + 1])):
                        A.check(ctx, ca, m, "codec", what, tr, small=i < len(seq) - 1)
                ctx.traces += 1
    else:
        m = A.Model(spec)
        n = len(m.params())
        with suppress(Skip):
            with ctx.guard("build", [u["cfg"]]):
                ca = A.make(spec)
            for i in range(n):
                base = A.vector(m, 1)
                for f in (0.8, 1.3, -0.7):
                    v = base.copy()
                    v[i] = v[i] * f
                    m2 = A.Model(spec)
                    m2.set_params(v)
                    tr = [u["cls"], u["cfg"], "position", i, f]
                    with ctx.guard("position", tr):
                        ca.set_params(v.copy())
                    ctx.transitions += 1
                    ctx.visit(tuple(tr))
                    A.check(ctx, ca, m2, "position", "%s %s: position %d of %d scaled by %g" % (u["cls"], u["cfg"], i, n, f), tr)
            # a second automaton with another history behaves identically
            m2 = A.Model(spec)
            v = A.vector(m, 2)
            m2.set_params(v)
            with ctx.guard("two", [u["cfg"]]):
                cb = A.make(spec)
                cb.set_params(v)
                ca.set_params(v)
            A.check(ctx, ca, m2, "two", "%s %s: vector after others" % (u["cls"], u["cfg"]), [u["cfg"]])
            A.check(ctx, cb, m2, "two", "%s %s: vector first" % (u["cls"], u["cfg"]), [u["cfg"]])
            ctx.traces += 1
    ctx.sample({"unit": u, "states": ctx.states})
