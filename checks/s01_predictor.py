"""S01: the step predictor trains, records and restores its own network.

All histories of a small set of operations on two predictors (train, evaluate, restore saved weights into a new one) are
enumerated; a reference network (functional layers, its own Adam) follows every history, and the predictors' parameters,
predictions, recorded losses and saved files are compared with it after every operation.
"""
import glob
import importlib.util
import itertools
import os
import shutil
import tempfile
from contextlib import suppress
import numpy as np
import torch
import torch.nn.functional as F
from mc import core
from mc.core import Skip
from mc.util import T, N, maxdiff, grid_family

PROPERTY = "S01"
RULE = ("states = (settings, history of operations on two predictors, parameters reached); transition = one operation (fit, evaluate, restore), or one prediction; "
        "all histories up to length 3 (4 thorough) over 5 operations, and all settings (layers 1..3(4), kernel radius 0..2, hidden and outer channels, dropout 0/1, epochs, display interval, batches)")
ASSUMPTIONS = ["dropout is explored at 0 and 1, where it is deterministic", "data loaders are lists of batches in a fixed order", "tolerance 1e-5 on predictions, 1e-6 on parameters"]

SCRATCH = {}


def module():
    """the module copied below a scratch directory, so that its logs and weights stay there"""
    if "dir" not in SCRATCH or SCRATCH.get("pid") != os.getpid():
        d = tempfile.mkdtemp(prefix="yuca-s01-")
        SCRATCH.update(dir=d, pid=os.getpid())
        for sub in ("yuca", "logs", "models"):
            os.makedirs(os.path.join(d, sub))
        src = os.path.join(core.REPO, "yuca", "step_predictor.py")
        dst = os.path.join(d, "yuca", "step_predictor.py")
        shutil.copy(src, dst)
        spec = importlib.util.spec_from_file_location("s01_step_predictor", dst)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        SCRATCH["mod"] = m
        os.chdir(d)
    return SCRATCH["mod"]


def done():
    if SCRATCH.get("pid") == os.getpid() and "dir" in SCRATCH:
        os.chdir("/")
        shutil.rmtree(SCRATCH["dir"], ignore_errors=True)
        SCRATCH.clear()


class Ref:
    """residual network: x + sigmoid(pointwise(dropout(relu(conv(x))))) per layer"""

    def __init__(self, params, radius, dropout, lr=3e-4):
        self.p = [p.detach().clone().requires_grad_(True) for p in params]
        self.radius, self.dropout = radius, dropout

    def forward(self, x, training=False):
        for k in range(0, len(self.p), 4):
            w, b, w1, b1 = self.p[k:k + 4]
            h = torch.relu(F.conv2d(x, w, b, padding=self.radius))
            if training and self.dropout:
                h = torch.zeros_like(h)
            x = x + torch.sigmoid(F.conv2d(h, w1, b1))
        return x

    def fit(self, train, val, epochs, every, lr):
        opt = torch.optim.Adam(self.p, lr=lr)
        smooth, eps, vals = [], [], []
        for e in range(epochs):
            for x, y in train:
                opt.zero_grad()
                loss = ((y - self.forward(x, True)) ** 2).mean()
                loss.backward()
                opt.step()
                smooth.append(smooth[-1] * 0.99 + loss.item() * 0.01 if smooth else loss.item())
            if e % every == 0 or e == epochs - 1:
                eps.append(e)
                vals.append(self.loss(val))
        return smooth, eps, vals

    def loss(self, data):
        with torch.no_grad():
            return float(sum(((y - self.forward(x)) ** 2).sum() for x, y in data) / sum(len(y) for x, y in data))


def data(ch, sizes, n=6, shift=0.0):
    out = []
    for i, b in enumerate(sizes):
        g = grid_family((b, ch, n, n + 1), ("irr", "irr2"))
        out.append((T(np.mod(g["irr"] + 0.3 * i + shift, 1.0)), T(np.mod(g["irr2"] + 0.7 * i + shift, 1.0) + 0.2)))
    return out


def build(cfg, seed=3):
    m = module()
    return m.StepPredictor(layer_repeats=cfg["layers"], kernel_radius=cfg["radius"], hidden_channels=cfg["hidden"], out_channels=cfg["ch"],
                           dropout=cfg["dropout"], seed=seed, tag=cfg.get("tag", "t"))


def params(p):
    return [q for q in p.parameters()]


def mirror(p, cfg, ctx):
    ps = params(p)
    k = 2 * cfg["radius"] + 1
    want = [(cfg["hidden"], cfg["ch"], k, k), (cfg["hidden"],), (cfg["ch"], cfg["hidden"], 1, 1), (cfg["ch"],)] * cfg["layers"]
    if not ctx.expect([tuple(q.shape) for q in ps] == want, "layers", lambda: "parameters %s instead of %s" % ([tuple(q.shape) for q in ps], want), cfg):
        raise Skip()
    return Ref(ps, cfg["radius"], cfg["dropout"])


def same_params(p, r):
    return max(maxdiff(N(a), N(b)) for a, b in zip(params(p), r.p))


def predict(p, x):
    with torch.no_grad():
        return p(x)


def compare(ctx, p, r, cfg, key, tr):
    ctx.expect(same_params(p, r) <= 2e-6, key + ":params", lambda: "parameters differ by %g from the reference" % same_params(p, r), tr)
    x = data(cfg["ch"], (2,), shift=0.21)[0][0]
    keep = x.clone()
    p.eval()
    with ctx.guard(key + ":predict", tr):
        y = predict(p, x)
    ctx.expect(torch.equal(x, keep), key + ":input", "a prediction changed its input", tr)
    d = maxdiff(N(y), N(r.forward(x)))
    ctx.expect(d <= 1e-5, key + ":predict", "prediction differs by %g from the reference" % d, tr)
    ctx.transitions += 1


def files(kind):
    return {f: os.stat(f).st_mtime_ns for f in glob.glob(os.path.join(SCRATCH["dir"], kind, "*"))}


def fit(ctx, p, r, cfg, train, val, epochs, every, lr, key, tr):
    for k in ("logs", "models"):
        for f in files(k):
            os.unlink(f)
    with ctx.guard(key + ":fit", tr):
        kw = {} if every is None else {"disp_every": every}
        p.fit(train, val_dataloader=val, max_epochs=epochs, lr=lr, **kw)
    smooth, eps, vals = r.fit(train, val, epochs, every or max(1, epochs // 10), lr)
    ctx.transitions += 1
    compare(ctx, p, r, cfg, key, tr)
    logs, models = sorted(files("logs")), sorted(files("models"))
    if not ctx.expect(len(logs) == 1 and len(models) == 1, key + ":files", lambda: "one log and one weights file expected, found %s %s" % (logs, models), tr):
        raise Skip()
    with ctx.guard(key + ":log", tr):
        got = np.load(logs[0], allow_pickle=True).reshape(1)[0]
        ok = list(got["epochs"]) == eps and np.allclose(got["val_loss"], vals, rtol=1e-4, atol=1e-6) and np.allclose(got["train_smooth_loss"], smooth, rtol=1e-4, atol=1e-6)
        ctx.expect(ok, key + ":record", lambda: "recorded epochs %s, validation %s, training %s; reference %s %s %s" % (
            got["epochs"], got["val_loss"], got["train_smooth_loss"], eps, vals, smooth), tr)
        ctx.expect(len(got["wall_time_t"]) == len(smooth) and len(got["wall_time_v"]) == len(eps), key + ":times", "one time per training batch and validation", tr)
        state = torch.load(models[0])
    return state


def run_settings(u, ctx):
    for dropout, epochs, every, sizes, ch, hidden in itertools.product((0.0, 1.0), u["epochs"], (None, 1, 2, 3), ((2,), (2, 1)), (1, 2), (1, 3)):
        cfg = {"layers": u["layers"], "radius": u["radius"], "hidden": hidden, "ch": ch, "dropout": dropout}
        tr = [cfg, epochs, every, sizes]
        with suppress(Skip):
            with ctx.guard("settings", tr):
                p = build(cfg)
                q = build(cfg)
            ctx.visit(tr)
            r = mirror(p, cfg, ctx)
            ctx.expect(same_params(q, r) == 0, "settings:seed", "equal seeds give different networks", tr)
            compare(ctx, p, r, cfg, "new", tr)
            train, val = data(ch, sizes), data(ch, (1, 2), shift=0.4)
            state = fit(ctx, p, r, cfg, train, val, epochs, every, 0.01, "fit", tr)
            with ctx.guard("evaluate", tr):
                e = p.evaluate(val)
            ctx.expect(abs(e - r.loss(val)) <= 1e-4 * max(1, abs(e)), "evaluate", lambda: "test loss %g, reference %g" % (e, r.loss(val)), tr)
            compare(ctx, p, r, cfg, "evaluate", tr)
            with ctx.guard("restore", tr):
                c = build(cfg, seed=99)
                c.load_state_dict(state)
            compare(ctx, c, r, cfg, "restore", tr)
            with ctx.guard("end", tr):
                p.end_evaluate(train, val, val)
                text = open(glob.glob(os.path.join(SCRATCH["dir"], "logs", "*_final.txt"))[0]).read()
            nums = [float(line.rsplit(" ", 1)[-1] if line.rsplit(" ", 1)[-1] else line.split()[-1]) for line in text.strip().splitlines() if line.strip()]
            want = [r.loss(train), r.loss(val), r.loss(val)]
            ctx.expect(np.allclose(nums, want, rtol=1e-4), "end", lambda: "final losses %s, reference %s" % (nums, want), tr)
            compare(ctx, p, r, cfg, "end", tr)
            ctx.traces += 1
            ctx.outcome(round(e, 4))
    # every layer and parameter counts
    cfg = {"layers": u["layers"], "radius": u["radius"], "hidden": 2, "ch": 1, "dropout": 0.1}
    with ctx.guard("reach", cfg):
        p = build(cfg)
        p.eval()
        x = data(1, (1,))[0][0]
        y = predict(p, x)
    for i, w in enumerate(params(p)):
        for j in range(w.numel()):
            with torch.no_grad():
                w.view(-1)[j] += 0.5
                z = predict(p, x)
                w.view(-1)[j] -= 0.5
            ctx.transitions += 1
            ctx.visit(("reach", u["layers"], u["radius"], i, j))
            # a weight behind an inactive hidden cell may not matter for this input; biases of the outer layers always do
            if i % 4 == 3:
                ctx.expect(maxdiff(N(z), N(y)) > 1e-6, "reach", "entry %d of parameter %d has no effect" % (j, i), [cfg, i, j])
    ctx.sample({"layers": u["layers"], "radius": u["radius"]})


OPS = ("fitA", "fitB", "evalA", "restoreB", "predA")


def run_history(u, ctx):
    cfgs = {"A": {"layers": 2, "radius": 1, "hidden": 2, "ch": 1, "dropout": u["dropout"], "tag": "a"},
            "B": {"layers": 2, "radius": 1, "hidden": 2, "ch": 1, "dropout": u["dropout"], "tag": "b"}}
    for hist in itertools.product(OPS, repeat=u["len"] - 1):
        hist = (u["first"],) + hist
        with suppress(Skip):
            with ctx.guard("history", hist):
                net = {k: build(c, seed=5 + ord(k)) for k, c in cfgs.items()}
            ref = {k: mirror(net[k], cfgs[k], ctx) for k in net}
            saved = None
            for n, op in enumerate(hist):
                tr = list(hist[:n + 1])
                k = op[-1]
                if op.startswith("fit"):
                    s = fit(ctx, net[k], ref[k], cfgs[k], data(1, (2, 1), shift=ord(k) * 0.1), data(1, (2,), shift=0.5), 2, None, 0.02, "history", tr)
                    saved = (s, [q.detach().clone() for q in ref[k].p])
                elif op == "evalA":
                    v = data(1, (1, 2), shift=0.9)
                    with ctx.guard("history:evaluate", tr):
                        e = net["A"].evaluate(v)
                    w = ref["A"].loss(v)
                    ctx.expect(abs(e - w) <= 1e-4 * max(1, w), "history:evaluate", "test loss %g, reference %g" % (e, w), tr)
                elif op == "restoreB" and saved:
                    with ctx.guard("history:restore", tr):
                        net["B"].load_state_dict(saved[0])
                    ref["B"].p = [q.clone().requires_grad_(True) for q in saved[1]]
                for j in net:
                    compare(ctx, net[j], ref[j], cfgs[j], "history", tr)
                ctx.visit((u["dropout"], tuple(tr)))
            ctx.traces += 1
            ctx.outcome(hist)


def units(tier, seed):
    th = tier == "thorough"
    us = [{"kind": "settings", "layers": n, "radius": r, "epochs": (1, 2, 3, 11, 12) if th else (1, 2, 3)} for n in range(1, 5 if th else 4) for r in (0, 1, 2)]
    us += [{"kind": "settings", "layers": n, "radius": r, "epochs": (2,)} for n, r in ((5, 1), (6, 0))]
    us += [{"kind": "history", "dropout": d, "len": n, "first": f} for d in (0.0, 1.0) for n in range(1, 5 if th else 4) for f in OPS]
    return us


def run_unit(u, ctx):
    try:
        with ctx.guard("import"):
            module()
        with suppress(Skip):
            {"settings": run_settings, "history": run_history}[u["kind"]](u, ctx)
    finally:
        done()
