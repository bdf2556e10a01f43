"""L01: cloning a rule into a neural automaton saves the best weights it saw."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import tempfile
import numpy as np
import torch
from mc import ref, family as F
from mc.core import Skip
from mc.util import N, same

PROPERTY = "L01"
RULE = ("states = (rules, attempts, steps, error sequence): every sequence of relative errors over the alphabet, over all steps of all attempts of all rules "
        "(the prediction errors are the enumerated environment, the optimiser is real); plus runs with real errors; transition = one training step")
ASSUMPTIONS = ["one external channel", "the errors of scripted runs are exact, ties may be saved from any of the tied steps", "errors equal to the threshold are not tried"]
ALPHA = (0.5, 0.2, 0.7, 0.01)
THRESHOLD = 0.05


def rule(radius, k=0):
    c = F.config("moore1" if radius == 1 else "gauss3", "none", ("gm2", "gaus1", "gaus0")[k % 3], "gm4", dt=0.1, radius=radius)
    return c


class Tape:
    """records every prediction of a network with the weights that made it, optionally scripting the error"""

    def __init__(self, script=None):
        self.script = script
        self.steps = []      # (network id, hidden, error, state dict)
        self.saved = []      # (path, state dict)
        self.nets = []
        self.ca = None

    def __enter__(self):
        from yuca.ca.neural import NCA
        from yuca.ca.continuous import CCA
        self.orig = (NCA.update_universe, CCA.update_universe, torch.save)
        tape = self

        def cca(s, *a, **kw):
            t = tape.orig[1](s, *a, **kw)
            if tape.script is not None:
                t = torch.full_like(t, 0.5)
            tape.ca = s
            return t

        def nca(s, *a, **kw):
            p = tape.orig[0](s, *a, **kw)
            if not any(s is n for n in tape.nets):
                tape.nets.append(s)
            if tape.script is not None:
                e = tape.script(len(tape.steps))
                p = 0.5 * (1 + e) + (p - p.detach())
                err = e
            else:
                # the rule's own update of the grid the network saw
                with torch.no_grad():
                    t = tape.orig[1](tape.ca, tape.ca.id_conv(a[0]), tape.ca.neighborhood_conv(a[0]))
                t, q = N(t), N(p)
                err = float((np.abs(q - t) / (np.abs(t) + 1e-9)).mean())
            tape.steps.append(([n is s for n in tape.nets].index(True), s.hidden_channels, err, copy.deepcopy(s.state_dict())))
            return p

        def save(obj, f, *a, **kw):
            b = io.BytesIO()
            tape.orig[2](obj, b, *a, **kw)
            b.seek(0)
            tape.saved.append((str(f), torch.load(b)))
        NCA.update_universe, CCA.update_universe, torch.save = nca, cca, save
        return self

    def __exit__(self, *a):
        from yuca.ca.neural import NCA
        from yuca.ca.continuous import CCA
        NCA.update_universe, CCA.update_universe, torch.save = self.orig


def hidden_sizes(h, top, n):
    out = []
    for _ in range(n):
        out.append(h)
        h = min(top, int(h * 1.25))
    return out


def run(ctx, d, rules, script, tr, steps, attempts, hidden=2, top=64, name="nca_ca_config.pt", batch=1, threshold=THRESHOLD, lr=1e-2, stem="rule%d"):
    from yuca.clone import clone_from_ca
    paths = []
    for k, c in enumerate(rules):
        paths.append(os.path.join(d, stem % k + ".npy"))
        if not os.path.exists(paths[-1]):
            np.save(paths[-1], c)
    before = [open(p, "rb").read() for p in paths]
    listing = sorted(os.listdir(d))
    with Tape(script) as tape, ctx.guard("clone", tr):
        clone_from_ca(ca_config=paths if len(paths) > 1 else paths[0], max_steps=steps, max_iterations=attempts, hidden_channels=hidden,
                      max_hidden_channels=top, save_name=name, batch_size=batch, error_threshold=threshold, learning_rate=lr)
    ctx.transitions += len(tape.steps)
    ctx.visit(str(tr))
    ctx.expect([open(p, "rb").read() for p in paths] == before and sorted(os.listdir(d)) == listing, "source", "the rule files changed", tr)

    # the attempts, in order
    nets = sorted({s[0] for s in tape.steps})
    by = [[s for s in tape.steps if s[0] == n] for n in nets]
    if not ctx.expect(len(by) == attempts * len(rules), "attempts", lambda: "%d networks were trained, %d attempts for %d rules asked" % (len(by), attempts, len(rules)), tr):
        return
    for a in by:
        met = [i for i, s in enumerate(a) if s[2] < threshold]
        want = met[0] + 1 if met else steps
        ctx.expect(len(a) == want, "early-stop", lambda: "an attempt with errors %s ran %d steps, expected %d" % ([s[2] for s in a], len(a), want), tr)
    sizes = [a[0][1] for a in by]
    ctx.expect(sizes == hidden_sizes(hidden, top, attempts) * len(rules), "size",
               lambda: "hidden channels of the attempts %s, expected %s" % (sizes, hidden_sizes(hidden, top, attempts) * len(rules)), tr)

    # one file per rule
    want = [name.replace("ca_config", stem % k) for k in range(len(rules))]
    got = [os.path.basename(p) for p, _ in tape.saved]
    if not ctx.expect(got == want and all(os.path.basename(os.path.dirname(p)) == "logs" for p, _ in tape.saved), "files",
                      lambda: "saved %s, expected %s in logs" % ([p for p, _ in tape.saved], want), tr):
        return
    for k in range(len(rules)):
        mine = [s for a in by[k * attempts:(k + 1) * attempts] for s in a]
        low = min(s[2] for s in mine)
        tol = 0 if script is not None else 1e-5 * low
        state = tape.saved[k][1]
        ok = [i for i, s in enumerate(mine) if s[2] <= low + tol]
        match = [i for i, s in enumerate(mine) if same(dict(s[3]), dict(state))]
        ctx.expect(set(ok) & set(match), "best", lambda: "rule %d: errors %s, best at %s, the saved weights are those of %s" % (
            k, [round(s[2], 4) for s in mine], ok, match or "none of the predictions"), tr)
        # every network sees the neighborhood of the rule, and only its own weights are trained
        kern = ref.kernel(rules[k]["neighborhood_kernel_config"])
        for a in by[k * attempts:(k + 1) * attempts]:
            for s in a:
                w = s[3].get("neighborhood_layer.weight")
                ctx.expect(w is not None and w.shape[-1] == kern.shape[-1] and np.abs(N(w).reshape(kern.shape) - kern).max() < 1e-5, "neighborhood",
                           "rule %d: the network was trained on another neighborhood" % k, tr)
            if len(a) > 1:
                ctx.expect(not same(dict(a[0][3]), dict(a[1][3])), "trained", "the weights did not change in a training step", tr)
        # and restores
        from yuca.ca.neural import NCA
        h = [s[1] for i, s in enumerate(mine) if i in match]
        if h:
            with ctx.guard("restore", tr):
                n = NCA(hidden_channels=h[0])
                n.set_kernel_config(rules[k]["neighborhood_kernel_config"])
                n.load_state_dict(state)
                ctx.expect(same(dict(n.state_dict()), dict(state)), "restore", "the weights did not restore", tr)
    ctx.outcome([round(s[2], 3) for s in tape.steps])
    ctx.traces += 1
    ctx.sample({"errors": [round(s[2], 4) for s in tape.steps], "saved": got})


def sequences(attempts, steps):
    """all distinct error sequences given that an attempt stops at the first error below the threshold"""
    one = []
    for n in range(1, steps + 1):
        high = [e for e in ALPHA if e > THRESHOLD]
        low = [e for e in ALPHA if e < THRESHOLD]
        for head in itertools.product(high, repeat=n - 1):
            for last in (low if n < steps else ALPHA):
                one.append(head + (last,))
    for seq in itertools.product(one, repeat=attempts):
        yield sum(seq, ())


def units(tier, seed):
    th = tier == "thorough"
    us = []
    for rules, attempts, steps in ((1, 1, 4), (1, 2, 2), (1, 3, 1), (2, 1, 2), (3, 1, 1)) + (((1, 1, 6), (1, 2, 3), (1, 3, 2), (2, 2, 2), (2, 1, 3), (3, 2, 1)) if th else ()):
        parts = 8 if not th else 24
        us += [dict(kind="script", rules=rules, attempts=attempts, steps=steps, part=p, of=parts) for p in range(parts)]
    for radius in (1, 3):
        for hidden, top in ((2, 64), (8, 10), (4, 4)):
            us.append(dict(kind="real", radius=radius, hidden=hidden, top=top, steps=5 if not th else 40, attempts=3))
    us.append(dict(kind="real", radius=1, hidden=8, top=8, steps=5 if not th else 40, attempts=2, rules=2))
    us.append(dict(kind="real", radius=1, hidden=8, top=64, steps=2, attempts=3, rules=3))
    us.append(dict(kind="names"))
    return us


def run_unit(u, ctx):
    d = tempfile.mkdtemp(prefix="yuca-l01-")
    try:
        with contextlib.suppress(Skip):
            if u["kind"] == "script":
                rules = [rule(1, k) for k in range(u["rules"])]
                for i, seq in enumerate(sequences(u["attempts"] * u["rules"], u["steps"])):
                    if i % u["of"] == u["part"]:
                        with contextlib.suppress(Skip):
                            run(ctx, d, rules, lambda k: seq[k] if k < len(seq) else 0.9, [u["rules"], u["attempts"], seq], u["steps"], u["attempts"])
            elif u["kind"] == "real":
                rules = [rule(u["radius"], k) for k in range(u.get("rules", 1))]
                for lr in (1e-1, 1e-2, 3e-1):
                    with contextlib.suppress(Skip):
                        run(ctx, d, rules, None, ["real", u["radius"], u["hidden"], lr], u["steps"], u["attempts"], hidden=u["hidden"], top=u["top"], batch=2, lr=lr)
            else:
                for name in ("nca.pt", "ca_config.pt", "nca_ca_config_b.pt"):
                    with contextlib.suppress(Skip):
                        run(ctx, d, [rule(1)], lambda k: ALPHA[k % 3], ["name", name], 3, 2, name=name)
                for stem in ("life.%d", "b3.s23_%d.v2", "r%d.npy"):
                    with contextlib.suppress(Skip):
                        run(ctx, d, [rule(1), rule(1, 1)], lambda k: ALPHA[k % 3], ["stem", stem], 2, 1, stem=stem)
    finally:
        shutil.rmtree(d, ignore_errors=True)
