"""P01: pattern-generator parameters round-trip and fully determine the pattern."""
import itertools
import numpy as np
import torch
from mc import core
from mc.util import T, N
from mc.core import Skip

PROPERTY = "P01"
RULE = ("states = (generator, grid size, hidden size, channels, precision, parameter vector, how it was written) and write/read histories of two generators up to the depth bound; every "
        "single entry of the vector perturbed in turn; transition = one write, read or pattern request")
ASSUMPTIONS = ["vectors are compared in the generator's own precision", "an entry counts as used when perturbing it changes the pattern (or the rule part) for at least one base vector of the alphabet"]


def units(tier, seed):
    q = tier == "quick"
    us = []
    for kind in ("CPPN", "CPPNPlus"):
        for c in (1, 2, 3, 4):
            us.append({"kind": "codec", "gen": kind, "c": c, "dims": (4, 5, 8, 9, 16, 33) if q else (4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 64)})
            us.append({"kind": "used", "gen": kind, "c": c, "h": 2})
            for h in (1, 3) if q else (1, 3, 5):
                us.append({"kind": "hist", "gen": kind, "c": c, "h": h, "depth": 3 if q else 4})
        us.append({"kind": "codec", "gen": kind, "c": 2, "dims": (8,), "f64": True})
        us.append({"kind": "disc", "gen": kind})
    if not q:
        us.append({"kind": "used", "gen": "CPPN", "c": 1, "h": 16})
    us.append({"kind": "split"})
    us.append({"kind": "agent"})
    return us


def run_unit(unit, ctx):
    old = torch.get_default_dtype()
    try:
        if unit.get("f64"):
            torch.set_default_dtype(torch.float64)
        globals()["u_" + unit["kind"]](unit, ctx)
    except Skip:
        return
    finally:
        torch.set_default_dtype(old)


def vec(n, k):
    i = np.arange(n, dtype=np.float64)
    return {"zero": i * 0, "half": i * 0 + 0.5, "ramp": (i - n / 2) / n, "irr": np.mod(i * 0.6180339887 + 0.2, 1.0) - 0.4, "big": np.mod(i * 0.731 + 0.1, 1.0) * 20 - 10,
            "alt": 0.3 * np.cos(i * 2.1) + 0.1, "tiny": (i + 1) * 1e-7, "neg": -np.mod(i * 0.37, 1.0) - 0.1}[k]


VECS = ["zero", "half", "ramp", "irr", "big", "alt", "tiny", "neg"]


def make(gen, **kw):
    from yuca import cppn
    return getattr(cppn, gen)(**kw)


def pattern(g):
    a = g.get_action()
    return a[1] if isinstance(a, tuple) else a


def prec(v, f64):
    return np.asarray(v, dtype=np.float64) if f64 else np.asarray(v, dtype=np.float32).astype(np.float64)


def same_vec(a, b, plus, k, f64):
    """pattern entries in the network's precision, rule entries exactly"""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    m = len(b) - k if plus else len(b)
    return bool(np.array_equal(a[:m], prec(b[:m], f64)) and np.allclose(a[m:], b[m:], rtol=1e-6, atol=0))


def looks_ok(ctx, p, dim, c, what, tr):
    ok = ctx.expect(tuple(p.shape) == (1, c, dim, dim), "pattern:shape", "%s: pattern of shape %s" % (what, tuple(p.shape)), tr)
    a = N(p)
    ctx.expect(np.isfinite(a).all() and a.min() >= 0, "pattern:negative", "%s: pattern has values in [%s, %s]" % (what, a.min(), a.max()), tr)
    if ok:
        x = np.linspace(-1, 1, dim)
        r = np.sqrt(x[:, None] ** 2 + x[None, :] ** 2)
        out = a[:, :, r >= 0.7501]
        ctx.expect(out.size == 0 or out.max() < 1e-5, "pattern:disc", "%s: pattern is %s outside the central disc" % (what, out.max() if out.size else 0), tr)


def u_codec(unit, ctx):
    gen, c, f64 = unit["gen"], unit["c"], bool(unit.get("f64"))
    plus = gen == "CPPNPlus"
    for dim in unit["dims"]:
        for h in (1, 2, 5):
            kw = dict(dim=dim, hidden_dim=h, external_channels=c)
            tr0 = {"generator": gen, **kw}
            with ctx.guard("construct", tr0):
                core.seed_everything(1)
                a = make(gen, **kw)
                core.seed_everything(2)
                b = make(gen, **kw)
                core.seed_everything(3)
                other = make(gen, **kw)
            n = len(a.get_params())
            k = len(a.get_rule_action()) if plus else 0
            ctx.expect(np.asarray(a.get_params()).shape == (n,), "vector:shape", "%s: vector of shape %s" % (tr0, np.shape(a.get_params())), tr0)
            init = other.get_params()
            pats = {}
            for name in VECS:
                v = vec(n, name)
                tr = dict(tr0, vector=name)
                what = str(tr)
                with ctx.guard("codec", tr):
                    keep = v.copy()
                    a.set_params(v)
                    ra = np.array(a.get_params())
                    pa = pattern(a).clone()
                    b.set_params(v.copy())
                    pb = pattern(b).clone()
                    d = make(gen, params=v.copy(), **kw)
                    d.to_device("cpu")
                    pd, rd = pattern(d).clone(), np.array(d.get_params())
                    pa2 = pattern(a).clone()
                ctx.visit((gen, dim, h, c, name, f64))
                ctx.transitions += 6
                ctx.expect(same_vec(ra, v, plus, k, f64), "roundtrip", "%s: reading back differs from what was written" % what, tr)
                ctx.expect(same_vec(rd, v, plus, k, f64), "roundtrip:constructor", "%s: constructed with the vector, reading back differs" % what, tr)
                ctx.expect(np.array_equal(v, keep), "caller", "%s: the caller's vector was modified" % what, tr)
                ctx.expect(torch.equal(pa, pb), "equal", "%s: two generators with the same vector differ" % what, tr)
                ctx.expect(torch.equal(pa, pd), "equal:constructor", "%s: a generator constructed with the vector differs" % what, tr)
                ctx.expect(torch.equal(pa, pa2), "repeat", "%s: asking for the pattern twice differs" % what, tr)
                ctx.expect(same_vec(a.get_params(), v, plus, k, f64), "repeat:vector", "%s: asking for the pattern changed the vector" % what, tr)
                looks_ok(ctx, pa, dim, c, what, tr)
                if plus:
                    ctx.expect(np.allclose(np.asarray(a.get_rule_action()), v[n - k:], rtol=1e-6), "rule", "%s: rule part is %s" % (what, a.get_rule_action()), tr)
                    ra_, pa_ = a.get_action()
                    ctx.expect(np.allclose(np.asarray(ra_), v[n - k:], rtol=1e-6) and torch.equal(pa_, a.get_pattern_action()), "action", "%s: action is not (rule, pattern)" % what, tr)
                pats[name] = pa
                ctx.outcome(float(pa.sum()))
            # copying one generator's vector into another copies its pattern
            with ctx.guard("copy", tr0):
                a.set_params(init)
            ctx.expect(torch.equal(pattern(a), pattern(other)), "copy", "%s: copying the vector does not copy the pattern" % tr0, tr0)
    ctx.sample({"generator": gen, "entries": n, **kw})


def u_used(unit, ctx):
    gen, c, h = unit["gen"], unit["c"], unit["h"]
    plus = gen == "CPPNPlus"
    kw = dict(dim=8, hidden_dim=h, external_channels=c)
    with ctx.guard("construct"):
        core.seed_everything(1)
        a = make(gen, **kw)
    init = np.array(a.get_params(), dtype=np.float64)
    n = len(init)
    i = np.arange(n)
    bases = [init * 0 + 0.7, 0.25 * np.cos(i * 1.3) + 0.5, 0.1 * np.cos(i * 2.3) + 0.6, init * 0.3 + 0.4, init]
    unused = set(range(n))
    for b in bases:
        with ctx.guard("used"):
            a.set_params(b.copy())
            p0 = pattern(a).clone()
            r0 = np.array(a.get_rule_action()) if plus else 0
        for j in sorted(unused):
            for d in (0.2, -0.3):
                v = b.copy()
                v[j] += d
                with ctx.guard("used", j):
                    a.set_params(v)
                    p1 = pattern(a)
                ctx.transitions += 1
                if not torch.equal(p0, p1) or (plus and not np.array_equal(r0, np.array(a.get_rule_action()))):
                    unused.discard(j)
                    ctx.visit((gen, c, h, j))
                    break
        if not unused:
            break
    ctx.expect(not unused, "used", "%s with %d channels: entries %s of %d never change the pattern" % (gen, c, sorted(unused)[:8], n))
    # pattern entries never reach the rule and rule entries never reach the pattern
    if plus:
        k = len(a.get_rule_action())
        b = bases[2]
        a.set_params(b.copy())
        p0, r0 = pattern(a).clone(), np.array(a.get_rule_action())
        for j in range(n):
            v = b.copy()
            v[j] += 0.2
            a.set_params(v)
            ctx.transitions += 1
            if j < n - k:
                ctx.expect(np.array_equal(r0, np.array(a.get_rule_action())), "split:rule", "pattern entry %d changes the rule" % j)
            else:
                ctx.expect(torch.equal(p0, pattern(a)), "split:pattern", "rule entry %d changes the pattern" % (j - n + k))


def u_disc(unit, ctx):
    gen = unit["gen"]
    for dim in list(range(4, 41)) + [64]:
        for c in (1, 2):
            with ctx.guard("disc", dim):
                core.seed_everything(dim)
                a = make(gen, dim=dim, hidden_dim=2, external_channels=c)
                n = len(a.get_params())
                for name in ("half", "irr", "zero", "neg"):
                    v = vec(n, name)
                    a.set_params(v)
                    looks_ok(ctx, pattern(a), dim, c, "%s dim %d channels %d vector %s" % (gen, dim, c, name), [dim, c, name])
                    ctx.visit((dim, c, name))
                    ctx.transitions += 1


def u_hist(unit, ctx):
    gen, c, h = unit["gen"], unit["c"], unit["h"]
    plus = gen == "CPPNPlus"
    kw = dict(dim=6, hidden_dim=h, external_channels=c)
    core.seed_everything(1)
    with ctx.guard("construct"):
        g = [make(gen, **kw), make(gen, **kw), make(gen, **kw)]
    n = len(g[0].get_params())
    k = len(g[0].get_rule_action()) if plus else 0
    names = ["irr", "alt"]
    ref = {}
    for name in names + ["half"]:
        g[2].set_params(vec(n, name))
        ref[name] = pattern(g[2]).clone()
    ops = [("w", 0, "irr"), ("w", 0, "alt"), ("w", 1, "irr"), ("w", 1, "alt"), ("copy", 0, 1), ("copy", 1, 0), ("act", 0), ("act", 1), ("scribble", 0)]
    for seq in itertools.product(ops, repeat=unit["depth"]):
        cur = ["half", "half"]
        with ctx.guard("hist", seq):
            for i in (0, 1):
                g[i].set_params(vec(n, "half"))
            for op in seq:
                if op[0] == "w":
                    g[op[1]].set_params(vec(n, op[2]))
                    cur[op[1]] = op[2]
                elif op[0] == "copy":
                    g[op[2]].set_params(1.0 * np.asarray(g[op[1]].get_params()))
                    cur[op[2]] = cur[op[1]]
                elif op[0] == "act":
                    g[op[1]].get_action()
                else:
                    p = np.array(g[op[1]].get_params())
                    p *= 0
                ctx.transitions += 1
        if not ctx.visit((seq, "end")):
            continue
        for i in (0, 1):
            tr = {"generator": gen, "ops": seq, "read": i}
            ctx.expect(same_vec(g[i].get_params(), vec(n, cur[i]), plus, k, False), "hist:vector", "%s: generator %d does not hold the last vector written (%s)" % (tr, i, cur[i]), tr)
            ctx.expect(torch.equal(pattern(g[i]), ref[cur[i]]), "hist:pattern", "%s: generator %d does not show the pattern of its vector (%s)" % (tr, i, cur[i]), tr)
    ctx.sample({"ops": seq})


def u_split(unit, ctx):
    """pattern part first, rule part last, whatever way the rule part was given"""
    from yuca.cppn import CPPN, CPPNPlus
    for dim, h, c in itertools.product((6, 9), (1, 3), (1, 2)):
        kw = dict(dim=dim, hidden_dim=h, external_channels=c)
        n = len(CPPN(**kw).get_params())
        for k, lo, hi in itertools.product((1, 2, 4, 9, 17), (0.1, -3.0), (0.9, 40.0)):
            rule = np.linspace(lo, hi, k)
            tr = dict(kw, rule=k, lo=lo, hi=hi)
            with ctx.guard("split", tr):
                core.seed_everything(4)
                a = CPPNPlus(ca_params=rule.copy(), **kw)
                v = np.array(a.get_params())
                core.seed_everything(5)
                b = CPPNPlus(params=v.copy(), **kw)
                p = CPPN(params=v[:n].copy(), **kw)
            ctx.visit(str(tr))
            ctx.transitions += 3
            ctx.expect(v.shape == (n + k,), "split:size", "%s: vector has %d entries, expected %d + %d" % (tr, len(v), n, k), tr)
            ctx.expect(np.allclose(v[n:], rule), "split:last", "%s: the rule part is not at the end of the vector" % tr, tr)
            ctx.expect(np.allclose(a.get_rule_action(), rule) and np.allclose(b.get_rule_action(), rule), "split:rule", "%s: rule parts %s and %s, expected %s" % (
                tr, a.get_rule_action(), b.get_rule_action(), rule), tr)
            ctx.expect(torch.equal(a.get_pattern_action(), b.get_pattern_action()), "split:pattern", "%s: a generator rebuilt from the vector draws another pattern" % tr, tr)
            ctx.expect(torch.equal(a.get_pattern_action(), p.get_action()), "split:same", "%s: the pattern part alone draws another pattern" % tr, tr)
            w = np.concatenate([v[:n] * 0.5, rule[::-1] + 1])
            a.set_params(w.copy())
            ctx.expect(np.allclose(a.get_rule_action(), rule[::-1] + 1) and np.allclose(a.get_params(), w, rtol=1e-5, atol=1e-7), "split:write", "%s: writing the whole vector" % tr, tr)


def u_agent(unit, ctx):
    """the plain rule-parameter agent: vector in, same vector out; with filtering, magnitudes clipped to [0.0001, 1]"""
    from yuca.params_agent import ParamsAgent
    alphabet = (-2.0, -0.3, 0.0, 5e-5, 0.25, 1.0, 1.7)
    for k in (1, 2, 3):
        for v in itertools.product(alphabet, repeat=k):
            v = np.array(v)
            for how in ("params", "ca_params", "num_params", "set", "set_twice"):
                for filt in (False, True):
                    tr = {"vector": v.tolist(), "how": how, "filter": filt}
                    with ctx.guard("agent", tr):
                        if how in ("params", "ca_params"):
                            a = ParamsAgent(filter_params=filt, **{how: v.copy()})
                        elif how == "num_params":
                            a = ParamsAgent(num_params=k, filter_params=filt)
                            ctx.expect(np.shape(a.get_params()) == (k,), "agent:size", "%s: %s" % (tr, np.shape(a.get_params())), tr)
                            a.set_params(v.copy())
                        else:
                            a = ParamsAgent(params=v * 0 + 0.5, filter_params=filt)
                            if how == "set_twice":
                                a.set_params(v * 0 + 0.9)
                            a.set_params(v.copy())
                        act, got = np.array(a.get_action()), np.array(a.get_params())
                    ctx.visit(str(tr))
                    ctx.transitions += 1
                    if not filt:
                        ctx.expect(np.array_equal(act, v) and np.array_equal(got, v), "agent:vector", "%s: acts with %s, reads back %s" % (tr, act, got), tr)
                    else:
                        want = np.abs(v) if how in ("params", "ca_params") else np.clip(np.abs(v), 1e-4, 1.0)
                        ctx.expect(np.allclose(act, want) and np.allclose(got, want), "agent:filter", "%s: acts with %s, expected %s" % (tr, act, want), tr)
                    ctx.expect(a.num_params == k, "agent:count", "%s: counts %s parameters" % (tr, a.num_params), tr)
