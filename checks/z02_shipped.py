"""Z02: every shipped pattern and rule file, stepped by the real automaton and by the reference model.

The reached states of each shipped pattern are enumerated (placements x steps); on every one the real
step is compared with the float64 reference rule read independently from the rule file.
"""
import glob
import os
from contextlib import suppress
import numpy as np
import torch
from mc import ref, models as M
from mc.core import Skip, REPO
from mc.util import T, N, maxdiff, grid_family

PROPERTY = "Z02"
RULE = ("states = (pattern, placement on the torus, step); transition = one real step compared with the reference rule; "
        "rule files: every file alone, and every ordered pair of files restored into one automaton")
ASSUMPTIONS = ["tolerance 2e-3 per step on [0,1] grids", "neural rules run in evaluation mode",
               "alive: mass above a tenth of the initial mass for the first ten steps; not filling: mean (last channel) below one half",
               "clone files without constructor arguments were made for 256 Gaussian hidden channels (their length)"]
ALIVE_STEPS = 10
CFG = os.path.join(REPO, "ca_configs")
ZOO = os.path.join(REPO, "yuca", "zoo")


def raw(f):
    return np.load(os.path.join(CFG, f), allow_pickle=True).reshape(1)[0]


def kind(c):
    return "RxnDfn" if "feed_rate" in c else "CCA" if "genesis_config" in c else "NCA"


def build(c):
    """automaton of the class the rule was made for, before the rule is loaded"""
    k = kind(c)
    if k == "RxnDfn":
        from yuca.ca.reaction_diffusion import RxnDfn
        return RxnDfn()
    if k == "CCA":
        from yuca.ca.continuous import CCA
        return CCA()
    from yuca.ca.neural import NCA
    return NCA() if "instant_kwargs" in c else NCA(hidden_channels=256, activation="Gaussian")


def load(f):
    c = raw(f)
    ca = build(c)
    ca.restore_config(f)
    ca.no_grad()
    ca.eval()
    return ca, c


def ref_step(c):
    k = kind(c)
    if k == "CCA":
        r = ref.RefCCA(c)
        return r.step
    dt = float(ref.arr(c.get("dt", 0.1)))
    if k == "RxnDfn":
        g = {n: float(ref.arr(c[n]).ravel()[0]) for n in ("feed_rate", "decay_rate", "diffusion_u", "diffusion_v", "dx")}
        lap = ref.kernel(c["neighborhood_kernel_config"])
        return lambda u: ref.gray_scott(u, g["feed_rate"], g["decay_rate"], g["diffusion_u"], g["diffusion_v"], g["dx"], dt, lap)
    ik = c.get("instant_kwargs", {})
    h, act = ik.get("hidden_channels", 256), ik.get("activation", "Gaussian")
    kern = ref.kernel(c["neighborhood_kernel_config"])
    w = np.asarray(c["params"], dtype=np.float64)
    # kernel parameters stored behind the weights are part of the rule
    n = M.nca_len(1, 1, h, act)
    kp = w[n:]
    if len(kp):
        kc = dict(c["neighborhood_kernel_config"])
        if kc["name"] == "GaussianMixture":
            kc["kernel_kwargs"] = {"parameters": kp}
        elif kc["name"] == "Gaussian":
            kc["kernel_kwargs"] = {"mu": kp[0], "sigma": kp[1]}
        kern = ref.kernel(kc)
    return lambda u: M.nca_step(u, w[:n], kern, 1, 1, h, act, dt)


def patterns():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(ZOO, "*.npy")))


def rules():
    return sorted(os.path.relpath(f, CFG) for f in glob.glob(os.path.join(CFG, "**", "*.npy"), recursive=True)
                  if "my_test_tag" not in f)


def as4(p):
    return p.reshape((1,) * (4 - p.ndim) + p.shape)


def radius(c):
    return c["neighborhood_kernel_config"].get("radius", 1)


def run_pattern(u, ctx):
    from yuca.zoo.librarian import Librarian
    name = u["name"]
    with ctx.guard("load", name):
        lib = Librarian(verbose=False)
        p, meta = lib.load(name)
    ctx.expect(sorted(lib.index) == patterns(), "index", lambda: "index is not the shipped patterns: %s" % (
        set(lib.index) ^ set(patterns())), None)
    disk = np.load(os.path.join(ZOO, name + ".npy"))
    ctx.expect(p.dtype == disk.dtype and np.array_equal(p, disk), "pattern", "%s loads other values than its file" % name, name)
    with open(os.path.join(ZOO, name + ".csv")) as f:
        lines = {}
        for line in f:                      # key,value with free text behind the first comma
            k, _, v = line.rstrip("\n").partition(",")
            lines[k] = v.strip()
    for k in ("ca_config", "entry_point", "notes", "commit_hash"):
        if k in lines and '"' not in lines[k]:
            ctx.expect(meta[k] == lines[k], "meta", lambda: "%s: %s is %r, the file says %r" % (name, k, meta[k], lines[k]), name)
    f = meta["ca_config"].strip()
    if not ctx.expect(os.path.exists(os.path.join(CFG, f)), "rule-missing", "%s names the rule %s, not shipped" % (name, f), name):
        return
    with ctx.guard("rule", name):
        ca, c = load(f)
    step = ref_step(c)
    p = as4(np.asarray(p, dtype=np.float64))
    k = kind(c)
    ctx.expect(np.isfinite(p).all() and p.min() >= 0 and p.max() <= 1, "range", "%s: stored values leave [0,1]" % name, name)
    r = radius(c)
    H, W = p.shape[-2:]
    sh, sw = H + max(2 * r, 12), W + max(2 * r, 12)
    base = np.zeros((1, p.shape[1], sh, sw))
    if k == "RxnDfn":
        # the uniform state these patterns live in
        F, K = float(c["feed_rate"]), float(c["decay_rate"])
        A = F ** 0.5 / (F + K)
        base[:, 0] = (A - (A * A - 4) ** 0.5) / (2 * A)
        base[:, 1] = F ** 0.5 * (A + (A * A - 4) ** 0.5) / 2
    base[:, :, :H, :W] = p
    for (dy, dx) in u["places"]:
        g = np.roll(base, (int(dy * sh), int(dx * sw)), (-2, -1))
        t = T(g)
        m0 = g[:, -1].sum()
        for s in range(u["steps"]):
            pre = N(t)
            with ctx.guard("step", [name, s]):
                t = ca(t)
            now = N(t)
            ctx.transitions += 1
            ctx.visit((name, now.round(5).tobytes()))
            tr = [name, f, [dy, dx], s]
            if not ctx.expect(np.isfinite(now).all() and now.min() >= 0 and now.max() <= 1, "bounded",
                              "%s leaves [0,1] after %d steps" % (name, s + 1), tr):
                raise Skip()
            d = maxdiff(now, step(pre))
            ctx.expect(d <= 2e-3, "conform", "%s under %s: step %d differs from the rule in the file by %g" % (name, f, s, d), tr)
            if s < ALIVE_STEPS:
                ctx.expect(now[:, -1].sum() > 0.1 * m0, "vanished", "%s vanishes after %d steps" % (name, s + 1), tr)
            ctx.expect(now[:, -1].mean() < 0.5, "filled", "%s fills the universe after %d steps" % (name, s + 1), tr)
        ctx.traces += 1
        ctx.outcome((name, round(float(now[:, -1].sum()), 1)))
    ctx.sample({"pattern": name, "rule": f, "mass": [float(m0), float(now[:, -1].sum())]})


def probe(ca, ch, n=31):
    out = []
    for gk, g in grid_family((1, ch, n, n), ("irr", "dot")).items():
        out.append(N(ca(T(g))))
    return out


def run_rules(u, ctx):
    for f in u["files"]:
        with suppress(Skip):
            for how in ("name", "path"):
                with ctx.guard("rule", f):
                    c = raw(f)
                    ca = build(c)
                    ca.restore_config(f if how == "name" else os.path.join(CFG, f))
                    ca.no_grad()
                    ca.eval()
                    ch = 2 if kind(c) == "RxnDfn" else 1
                    step = ref_step(c)
                n = max(31, 2 * radius(c) + 1)
                for gk, g in grid_family((2, ch, n, n + 2), ("irr", "irr2", "dot", "stripe")).items():
                    g = np.float32(g).astype(np.float64)
                    with ctx.guard("rule:step", [f, gk]):
                        now = N(ca(T(g)))
                    d = maxdiff(now, step(g))
                    ctx.transitions += 1
                    ctx.visit((f, gk))
                    ctx.expect(d <= 2e-3, "rule:conform", "rule file %s (by %s), %s grid: differs from the rule in the file by %g" % (f, how, gk, d), [f, gk])
                dt = float(torch.as_tensor(ca.get_dt()).reshape(-1)[0])
                ctx.expect(abs(dt - float(ref.arr(c.get("dt", 0.1)))) < 1e-6, "rule:dt", "%s: time step %s" % (f, dt), f)
                ctx.traces += 1


def run_pairs(u, ctx):
    """restore a after b on one automaton: equal to a alone"""
    a = u["a"]
    with ctx.guard("pair", a):
        fresh, c = load(a)
        ch = 2 if kind(c) == "RxnDfn" else 1
        n = max(13, 2 * radius(c) + 1)
        want = probe(fresh, ch, n)
        wp = np.asarray(fresh.get_params(), dtype=np.float64).ravel()
    for b in u["others"]:
        with ctx.guard("pair", [b, a]):
            ca, _ = load(b)
            if u["used"]:
                ca(T(grid_family((1, ch, 2 * radius(raw(b)) + 3, 2 * radius(raw(b)) + 3), ("irr",))["irr"]))
            ca.restore_config(a)
            ca.no_grad()
            ca.eval()
            got = probe(ca, ch, n)
            gp = np.asarray(ca.get_params(), dtype=np.float64).ravel()
        ctx.transitions += 1
        ctx.visit((a, b))
        ctx.expect(all(maxdiff(x, y) <= 1e-6 for x, y in zip(got, want)), "pair",
                   "%s restored after %s steps differently from a fresh one" % (a, b), [b, a])
        ctx.expect(gp.shape == wp.shape and maxdiff(gp, wp) <= 1e-6, "pair:params", "%s restored after %s has other parameters" % (a, b), [b, a])
        ctx.traces += 1


LOOKUP = {"CCA": ("orbium.npy", "geminium.npy", "morley.npy"), "NCA": ("neurorbium_a.npy", "neurolife_a.npy", "neurosynorbium_a.npy"), "RxnDfn": ("uskate_rxndfn.npy",) * 3}


def variant(c, i):
    """the same kind of rule with another time step, so that every file can be told apart"""
    c = dict(c)
    c["dt"] = torch.tensor((0.05, 0.125, 0.2, 0.3)[i])
    return c


def run_lookup(u, ctx):
    """restoring by every spelling of every name, from another directory with files of its own, twice in a row"""
    from mc import evo
    names = LOOKUP[u["cls"]]
    a = names[0]
    with evo.scratch() as d:
        os.makedirs(os.path.join(d, "sub"))
        os.makedirs(os.path.join(d, "deep", "sub"))
        local = {"own.npy": 0, "sub/own.npy": 1, "ca_configs/own.npy": 2, "deep/sub/own.npy": 3}
        if u["shadow"]:
            local[a] = 3                       # a local file of a shipped name
        for f, i in local.items():
            np.save(os.path.join(d, f), variant(raw(names[(i + 1) % 3]), i))
        disk = {os.path.relpath(os.path.join(b, f), d): open(os.path.join(b, f), "rb").read() for b, _, fs in os.walk(d) for f in fs}

        def read(f):
            """what a spelling names, or None"""
            f = f.replace("\n", "")
            for q in (os.path.join(os.getcwd(), f), os.path.join(CFG, f)):
                if os.path.isfile(q):
                    return np.load(q, allow_pickle=True).reshape(1)[0]
            return None
        spell = list(local) + [a, names[1], "./own.npy", "sub/../own.npy", os.path.join(d, "sub/own.npy"), os.path.join(CFG, names[1]), "own.npy\n", names[1] + "\n",
                               "nothing.npy", "sub/" + names[1] if u["cls"] != "RxnDfn" else "sub/none.npy", os.path.join(d, "none.npy"), "own"]
        spell = list(dict.fromkeys(spell))
        base = raw(names[2])
        for cwd, hist in [(w, h) for w in ("", "deep") for h in [(s,) for s in spell] + [(s, t) for s in spell for t in spell if u["pairs"]]]:
            os.chdir(os.path.join(d, cwd))
            with suppress(Skip):
                with ctx.guard("lookup", [u, cwd, hist]):
                    ca = build(base)
                    ca.restore_config(os.path.join(CFG, names[2]))
                    c = base
                    for k, s in enumerate(hist):
                        ca.restore_config(s) if k % 2 else ca.restore_config(s, verbose=False)
                        c = read(s) or c
                    ca.no_grad()
                    ca.eval()
                    dt = float(torch.as_tensor(ca.get_dt()).reshape(-1)[0])
                ctx.transitions += 1
                ctx.visit((u["cls"], cwd, hist))
                ctx.expect(abs(dt - float(ref.arr(c.get("dt", 0.1)))) < 1e-6, "lookup:dt", "restoring %s below %r: time step %g, the file has %g" % (list(hist), cwd, dt, float(ref.arr(c.get("dt", 0.1)))), [u, cwd, hist])
                n = max(9, 2 * radius(c) + 1)
                g = np.float32(grid_family((1, 2 if u["cls"] == "RxnDfn" else 1, n, n), ("irr",))["irr"]).astype(np.float64)
                if len(hist) == 1 or u["pairs"] == 2:
                    with ctx.guard("lookup", [u, cwd, hist]):
                        now = N(ca(T(g)))
                    dd = maxdiff(now, ref_step(c)(g))
                    ctx.expect(dd <= 2e-3, "lookup", "restoring %s below %r: steps differ from the file meant by %g" % (list(hist), cwd, dd), [u, cwd, hist])
            ctx.traces += 1
        os.chdir(d)
        for f, data in disk.items():
            ctx.expect(open(os.path.join(d, f), "rb").read() == data, "lookup:file", "restoring changed %s" % f)
        # a file rewritten between two restores
        with suppress(Skip):
            for i in (1, 2, 0):
                np.save(os.path.join(d, "own.npy"), variant(raw(names[i]), i))
                with ctx.guard("lookup", "rewritten"):
                    ca.restore_config("own.npy")
                    dt = float(torch.as_tensor(ca.get_dt()).reshape(-1)[0])
                ctx.expect(abs(dt - (0.05, 0.125, 0.2)[i]) < 1e-6, "lookup:rewritten", "a file rewritten after it was restored is not read again")
                ctx.transitions += 1


def units(tier, seed):
    th = tier == "thorough"
    places = [[0.3, 0.3], [0.85, 0.6]] + ([[0.0, 0.0], [0.5, 0.9], [0.1, 0.77]] if th else [])
    us = []
    for n in patterns():
        us.append({"kind": "pattern", "name": n, "places": places, "steps": 60 if th else 10})
    fs = rules()
    us += [{"kind": "rules", "files": fs[i::8]} for i in range(8)]
    us += [{"kind": "lookup", "cls": k, "shadow": sh, "pairs": (2 if th else 1) if k != "NCA" or th else 0} for k in LOOKUP for sh in (0, 1)]
    groups = {}
    for f in fs:
        c = raw(f)
        k = kind(c)
        if k == "NCA" and "instant_kwargs" not in c:
            k = "clone"
        groups.setdefault(k, []).append(f)
    for k, g in groups.items():
        for a in g:
            others = g if th else [b for b in g if b != a][::1]
            us.append({"kind": "pairs", "a": a, "others": others, "used": th})
    return us


def run_unit(u, ctx):
    with suppress(Skip):
        {"pattern": run_pattern, "rules": run_rules, "pairs": run_pairs, "lookup": run_lookup}[u["kind"]](u, ctx)
