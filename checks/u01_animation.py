"""U01: animations, every scenario of a bounded product, with a scripted automaton whose frames are all
different, a frozen clock, and the image library observed where it writes the animation."""
import itertools
import os
import shutil
import tempfile
import time
from contextlib import suppress
import numpy as np
import torch
import matplotlib.pyplot as plt
import PIL.Image
from mc import models as M
from mc.core import Skip
from mc.util import T, N, grid_family

PROPERTY = "U01"
RULE = ("states = (channels, steps, speed-up, vanishing time, colour options, tag form, files present before); transition = one "
        "recording; the animation written and the whole directory tree before and after are compared with the expected ones")
ASSUMPTIONS = ["mode 0 (the only documented as implemented)", "pixel tolerance 1 of 255",
               "empty directories left or removed are not judged, files are"]


class Script:
    """automaton whose state after k steps is known: frame k of the script"""
    my_device = "cpu"

    def __init__(self, channels, vanish, size, batch, flash=(), alone=None):
        self.ch, self.vanish, self.size, self.batch, self.calls = channels, vanish, size, batch, []
        self.flash, self.alone = flash, alone       # empty only at these steps; from here on only the other grids of the batch live

    def at(self, k):
        if k in self.flash or self.vanish is not None and k >= self.vanish:
            g = np.full((self.batch, self.ch) + self.size, 0.0005 if k % 2 else 0.0)
        else:
            h, w = self.size
            i = np.arange(self.batch * self.ch * h * w, dtype=np.float64).reshape((self.batch, self.ch, h, w))
            g = np.mod(i * 0.6180339887 + 0.137 * k + 0.01, 1.0)
            g[0, 0, 0, 0] = 0.02 + 0.9 * ((k * 7) % 101) / 101.0
            if self.alone is not None and k >= self.alone:
                g[0] = 0.0
        return T(g)

    def to_device(self, d):
        pass

    def k_of(self, g):
        for k in range(400):
            if torch.equal(g, self.at(k)):
                return k
        raise AssertionError("automaton was given a grid that is not a state of the run")

    def get_frame(self, grid, mode=0):
        k = self.pos if torch.equal(grid, self.at(self.pos)) else self.k_of(grid)
        self.pos = k + 1
        self.calls.append((k, mode))
        return self.at(k + 1)

    pos = 0


def picture(g, cmap, invert):
    """the image of one grid (channels, h, w)"""
    c = g.shape[0]
    if c == 1:
        img = 255 * np.asarray(cmap(g[0].astype(np.float32)), dtype=np.float64)
    elif c == 2:
        img = np.stack([np.zeros_like(g[0]), 255 * g[0], 255 * g[1]], axis=-1)
    else:
        img = np.moveaxis(255 * g[:4], 0, -1)
    img = np.floor(img + 1e-4)
    if invert:
        img[..., :3] = 255 - img[..., :3]
    return img


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as h:
                out[os.path.relpath(q, d)] = h.read()
    return out


class Recorder:
    """what is written as an animation"""

    def __enter__(self):
        self.anims = []
        self.orig = PIL.Image.Image.save
        rec = self

        def save(im, fp, format=None, **kw):
            if format == "GIF" or str(fp).lower().endswith(".gif"):
                frames = [im] + list(kw.get("append_images", []))
                if not kw.get("save_all"):
                    frames = frames[:1]
                rec.anims.append((str(fp), [np.asarray(f) for f in frames]))
            return rec.orig(im, fp, format=format, **kw)
        PIL.Image.Image.save = save
        return self

    def __exit__(self, *a):
        PIL.Image.Image.save = self.orig


def runs(frames):
    out = []
    for f in frames:
        if not out or out[-1].shape != f.shape or not np.array_equal(out[-1], f):
            out.append(f)
    return out


def read_gif(path):
    im = PIL.Image.open(path)
    out = []
    for i in range(getattr(im, "n_frames", 1)):
        im.seek(i)
        out.append(np.asarray(im.convert("RGB")).astype(int))
    im.close()
    return out


def check(ctx, new_gif, rec, want, key, tr):
    shown = [a for a in rec.anims if os.path.abspath(a[0]) == new_gif]
    if shown:
        got = shown[-1][1]
        if not ctx.expect(len(got) == len(want), key + ":frames", lambda: "animation has %d frames, %d simulated" % (len(got), len(want)), tr):
            return
        for i, (a, b) in enumerate(zip(got, want)):
            if not ctx.expect(a.shape[:2] == b.shape[:2] and a.ndim == 3 and a.shape[2] == b.shape[2] and
                              np.abs(a.astype(float) - b).max() <= 1, key + ":content",
                              lambda: "frame %d is not the grid after %d frames: %s, expected %s" % (
                                  i, i, a.reshape(-1)[:8].tolist(), b.reshape(-1)[:8].tolist()), tr):
                return
    # and in the file (equal neighbours may be merged, colours are quantised)
    real = read_gif(new_gif)
    exp = runs([w[..., :3] for w in want])
    ctx.expect(len(real) == len(exp), key + ":file", lambda: "the file holds %d different frames, expected %d" % (len(real), len(exp)), tr)
    if want[0].shape[2] == 3 or (want[0].shape[2] == 4 and all((w[..., 3] == 255).all() for w in want)):
        for i, (a, b) in enumerate(zip(real, exp)):
            ctx.expect(np.abs(a - b).mean() <= 12, key + ":file-content", "frame %d of the file differs" % i, tr)


def scenario(ctx, sc):
    from yuca import utils
    d = tempfile.mkdtemp(prefix="yuca-mc u01-")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        frames_path = os.path.join(d, sc.get("frames", "fr/ames"))
        gif_root = os.path.join(d, sc.get("gifs", "out/put"))
        pre = sc["pre"]
        os.makedirs(os.path.join(d, "x"))
        sentinels = ["keep.png", "x/frame_00001.png", "fr.png"]
        if pre:
            os.makedirs(frames_path)
            os.makedirs(os.path.join(gif_root, "t"))
            sentinels += [os.path.relpath(os.path.join(frames_path, n), d) for n in (
                ["notes.txt"] if pre == "notes" else ["frame_00000.png", "frame_00007.png", "frame_99999.png", "zz.png"])]
            sentinels += [os.path.relpath(os.path.join(gif_root, "t", n), d) for n in ("gif_t_0500.gif", "gif_t_0501.gif", "gif_t_0999.gif")]
        small = PIL.Image.fromarray(np.full((3, 3, 3), 77, np.uint8))
        for s in sentinels:
            p = os.path.join(d, s)
            if s.endswith(".txt"):
                with open(p, "w") as f:
                    f.write("mine")
            else:
                small.save(p)
        before = tree(d)
        ca = Script(sc["ch"], sc["vanish"], tuple(sc.get("size", (5, 7))), sc.get("batch", 1), sc.get("flash", ()), sc.get("alone"))
        grid = ca.at(0)
        g0 = grid.clone()
        tag = "t" if sc["tag"] == "str" else ("t", "u")
        kw = dict(num_steps=sc["steps"], frames_path=frames_path, gif_path=gif_root, tag=tag, speedup=sc["speed"],
                  invert_colors=sc["invert"])
        if sc.get("cmap"):
            kw["cmap"] = plt.get_cmap(sc["cmap"])
        tr = sc
        real_time = time.time
        with Recorder() as rec:
            try:
                time.time = lambda: 1000.5004
                with ctx.guard("record", tr):
                    for _ in range(sc.get("times", 1)):
                        ca.pos = 0
                        utils.save_fig_sequence(grid, ca, **kw)
            finally:
                time.time = real_time
        ctx.transitions += 1
        ctx.visit(sorted(sc.items(), key=str))
        ctx.expect(torch.equal(grid, g0), "grid-changed", "the starting grid was changed", tr)
        want = []
        for s in range(sc["steps"]):
            g = N(ca.at(s * sc["speed"]))
            if g.max() < 0.001:
                break
            want.append(picture(g[0], kw.get("cmap", plt.get_cmap("magma")), sc["invert"]))
        after = tree(d)
        new = sorted(set(after) - set(before))
        gone = sorted(set(before) - set(after))
        ctx.expect(not gone, "removed", lambda: "files removed that were there before: %s" % gone, tr)
        ctx.expect(all(after[f] == before[f] for f in before if f in after), "overwritten",
                   lambda: "files overwritten: %s" % [f for f in before if f in after and after[f] != before[f]], tr)
        gifs = [f for f in new if f.endswith(".gif")]
        ctx.expect(new == gifs, "left-behind", lambda: "files left behind: %s" % [f for f in new if f not in gifs], tr)
        if not want:
            ctx.expect(not gifs, "vanished-gif", lambda: "animation of an empty run: %s" % gifs, tr)
        elif ctx.expect(len(gifs) == sc.get("times", 1), "one-gif", lambda: "animations written: %s (%d frames simulated)" % (gifs, len(want)), tr):
            for g in gifs:
                ctx.expect(os.path.dirname(g) == os.path.relpath(os.path.join(gif_root, "t"), d), "gif-place", "animation written to %s" % g, tr)
                check(ctx, os.path.join(d, g), rec, want, "animation", tr)
        ctx.outcome((len(want), len(gifs)))
        ctx.traces += 1
        if ctx.traces == 7:
            ctx.sample({"scenario": sc, "frames": len(want), "files": new})
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def real_run(ctx, sc):
    """the same with the real automata: frames are the trajectory of the automaton itself"""
    from yuca import utils
    d = tempfile.mkdtemp(prefix="yuca-u01-")
    try:
        ch = sc["ch"]
        with ctx.guard("build", sc):
            fs = M.every(ch)
            ca, twin = fs[sc["cls"]](), fs[sc["cls"]]()
            for a in (ca, twin):
                a.eval()
                a.no_grad()
        gr = grid_family((2, ch, 9, 8), (sc["grid"],))[sc["grid"]]
        t = T(gr)
        keep = t.clone()
        want = []
        with ctx.guard("simulate", sc):
            g = T(gr)
            M.reseed()
            for s in range(sc["steps"]):
                if N(g).max() < 0.001:
                    break
                want.append(picture(N(g)[0], plt.get_cmap("magma"), True))
                for _ in range(sc["speed"]):
                    g = twin.get_frame(g)
        with Recorder() as rec:
            with ctx.guard("record", sc):
                M.reseed()
                utils.save_fig_sequence(t, ca, num_steps=sc["steps"], frames_path=os.path.join(d, "f"), gif_path=os.path.join(d, "g"),
                                        tag="t", speedup=sc["speed"])
        ctx.transitions += 1
        ctx.visit(sorted(sc.items(), key=str))
        ctx.expect(torch.equal(t, keep), "grid-changed", "the starting grid was changed", sc)
        files = sorted(tree(d))
        if want:
            if ctx.expect(len(files) == 1 and files[0].endswith(".gif"), "one-gif", lambda: "files %s" % files, sc):
                check(ctx, os.path.join(d, files[0]), rec, want, "animation", sc)
        else:
            ctx.expect(not files, "vanished-gif", lambda: "files %s" % files, sc)
        ctx.traces += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def units(tier, seed):
    th = tier == "thorough"
    us = []
    for ch in (1, 2, 3, 4, 5):
        for steps in (0, 1, 2, 3, 5):
            us.append(dict(kind="small", ch=ch, steps=steps))
        us.append(dict(kind="real", ch=ch, steps=4))
    for steps in (9, 10, 11, 39, 40, 41, 49, 50, 51, 99, 100, 101, 110) + ((256, 389) if th else ()):
        us.append(dict(kind="long", steps=steps))
    us.append(dict(kind="files", steps=130))
    us.append(dict(kind="paths"))
    return us


def run_unit(u, ctx):
    base = dict(ch=1, steps=4, speed=1, vanish=None, invert=True, tag="str", pre=None)
    if u["kind"] == "small":
        for speed, van, inv, tag, pre, batch in itertools.product(
                (1, 2, 3), (None, 0, 1, 2, 3, 4), (True, False), ("str", "tuple"), (None, "notes", "frames"), (1, 2)):
            if batch == 2 and (tag == "tuple" or pre == "notes"):
                continue
            with suppress(Skip):
                scenario(ctx, dict(base, ch=u["ch"], steps=u["steps"], speed=speed, vanish=van, invert=inv, tag=tag, pre=pre, batch=batch))
        for times in (2, 3):
            for pre in (None, "frames"):
                with suppress(Skip):
                    scenario(ctx, dict(base, ch=u["ch"], steps=u["steps"], times=times, pre=pre))
        # automata that are empty at some steps only (seen or skipped), and batches whose first grid dies alone
        for speed, k in itertools.product((1, 2, 3), range(0, 5)):
            for flash in [(i,) for i in range(k + 1)] + [(1, 3), (1, 2)]:
                with suppress(Skip):
                    scenario(ctx, dict(base, ch=u["ch"], steps=u["steps"], speed=speed, flash=flash))
            with suppress(Skip):
                scenario(ctx, dict(base, ch=u["ch"], steps=u["steps"], speed=speed, alone=k, batch=2))
    elif u["kind"] == "long":
        for ch, speed, van in itertools.product((1, 3), (1, 2), (None, 8, 10, 45)):
            if u["steps"] * speed > 390:
                continue
            with suppress(Skip):
                scenario(ctx, dict(base, ch=ch, steps=u["steps"], speed=speed, vanish=van, pre="frames", size=(3, 4)))
    elif u["kind"] == "real":
        for cls in list(M.every(u["ch"])):
            for speed, grid, steps in itertools.product((1, 2), ("irr", "dot", "zeros", "ones"), (1, 3)):
                with suppress(Skip):
                    real_run(ctx, dict(cls=cls, ch=u["ch"], steps=steps, speed=speed, grid=grid))
    elif u["kind"] == "files":
        import resource
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        used = len(os.listdir("/proc/self/fd"))
        resource.setrlimit(resource.RLIMIT_NOFILE, (used + 60, hard))
        try:
            with suppress(Skip):
                scenario(ctx, dict(base, steps=u["steps"], size=(3, 4)))
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
    else:
        for fr, gi, cm in itertools.product(("a b", "q;touch z", "f", "fr/x", "$(id)", "it's"), ("o", "o p", "o/p/q", "-n"), (None, "gray")):
            for pre in (None, "frames"):
                with suppress(Skip):
                    scenario(ctx, dict(base, frames=fr, gifs=gi, cmap=cm, pre=pre))
