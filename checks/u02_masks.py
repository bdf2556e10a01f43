"""U02: bite masks, apertures, prepared inputs and targets for every image size, radius and bite centre of
the bounded alphabets; the random source is an enumerated environment."""
import itertools
from contextlib import suppress
import numpy as np
import torch
from mc.core import Skip
from mc.util import N, T

PROPERTY = "U02"
RULE = ("states = (image side, channels, radius, bite centre given or drawn); transition = one call of the mask, aperture, input or "
        "target function, compared cell by cell; inputs: all sequences of drawn bite centres up to the batch size bound")
ASSUMPTIONS = ["cell i of n lies at -h + i*(2h+1)/n with h = n//2 (in cells, bite centres in the same units)",
               "square images (on images of unequal sides: shape, channels and the place of the central disc)",
               "cells within 1e-6 of a disc's edge are not judged", "apertures of 0.975 and more keep everything"]
RADII = (0.0, 0.05, 0.1, 0.25, 0.3333, 0.5, 0.7, 0.9, 0.97, 0.98, 1.0, 1.2)
DRAWS = (0.0, 0.13, 0.5, 0.77, 0.999)


class Source:
    """numpy's uniform random numbers; pairs are bite centres, anything else is noise"""

    def __init__(self, centres, noise):
        self.centres, self.noise = list(centres), noise
        self.n2 = self.nn = 0

    def draw(self, *shape):
        k = int(np.prod(shape)) if shape else 1
        if k < 16 and self.centres:
            # coordinates of bite centres, one, two or several pairs at a time (images have at least 16 cells)
            flat = [x for c in self.centres for x in c]
            v = np.array([flat[(self.n2 + i) % len(flat)] for i in range(k)], dtype=np.float64)
            self.n2 += k
            return v.reshape(shape) if shape else float(v[0])
        self.nn += 1
        v = np.mod(np.arange(k) * 0.6180339887 + self.noise * self.nn, 1.0)
        return v.reshape(shape) if shape else float(v[0])

    def __enter__(self):
        r = np.random
        self.saved = {n: getattr(r, n) for n in ("rand", "random", "random_sample", "uniform")}
        tup = lambda s: () if s is None else (s,) if isinstance(s, int) else tuple(s)
        r.rand = self.draw
        r.random = r.random_sample = lambda size=None: self.draw(*tup(size))
        r.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * self.draw(*tup(size))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def dist(n, centre):
    h = n // 2
    ax = -h + np.arange(n) * (2 * h + 1) / n
    return np.sqrt((ax[None, :] - centre[0]) ** 2 + (ax[:, None] - centre[1]) ** 2) / h


def image(c, n, k=0):
    i = np.arange(c * n * n, dtype=np.float64).reshape(1, c, n, n)
    return np.mod(i * 0.7548776662 + 0.1 + 0.3 * k, 1.0)


def judge(ctx, mask, n, c, centre, radius, keep, key, tr):
    """mask must be `keep` inside the disc and 1-keep outside, in every channel"""
    if not ctx.expect(mask.shape == (1, c, n, n), key + ":shape", lambda: "mask shape %s for a %d channel image of side %d" % (mask.shape, c, n), tr):
        return
    d = dist(n, centre)
    edge = np.abs(d - radius) < 1e-6
    want = np.where(d < radius, keep, 1 - keep)
    bad = (np.abs(mask[0] - want) > 1e-12) & ~edge
    ctx.expect(not bad.any(), key, lambda: "%d of %d cells wrong, first %s (distance %.4f, radius %.4f)" % (
        bad.sum(), bad.size, np.argwhere(bad)[0].tolist(), d[tuple(np.argwhere(bad)[0][1:])], radius), tr)


def run_unit(u, ctx):
    from yuca import utils
    if u["kind"] == "mask":
        for n, c, r in itertools.product(u["sizes"], u["chs"], RADII):
            img = image(c, n)
            keep = img.copy()
            h = n // 2
            centres = [(0.0, 0.0)] + [(a * h, b * h) for a in (-1.0, -0.4, 0.0, 0.3, 1.0) for b in (-0.6, 0.0, 0.51, 1.0)]
            for ce in centres:
                with suppress(Skip):
                    tr = ["bite", n, c, r, ce]
                    given = list(ce)
                    with ctx.guard("bite", tr):
                        m = np.asarray(utils.get_bite_mask(img, r, given))
                    ctx.transitions += 1
                    ctx.visit(tuple(map(str, tr)))
                    judge(ctx, m, n, c, ce, r, 0, "bite", tr)
                    ctx.expect(given == list(ce), "bite:coords-changed", "the bite centre passed in was changed", tr)
            for dr in itertools.product(DRAWS, repeat=2):
                with suppress(Skip):
                    tr = ["random bite", n, c, r, dr]
                    with Source([dr], 0.5), ctx.guard("bite-random", tr):
                        m = np.asarray(utils.get_bite_mask(img, r))
                    ctx.transitions += 1
                    ctx.visit(tuple(map(str, tr)))
                    judge(ctx, m, n, c, (dr[0] * h, dr[1] * h), r, 0, "bite-random", tr)
            with suppress(Skip):
                tr = ["aperture", n, c, r]
                with ctx.guard("aperture", tr):
                    a = np.asarray(utils.get_aperture(img, r))
                ctx.transitions += 1
                ctx.visit(tuple(map(str, tr)))
                if r >= 0.975:
                    ctx.expect(a.shape == img.shape and (a == 1).all(), "aperture:full", "aperture %s masks something" % r, tr)
                else:
                    judge(ctx, a, n, c, (0.0, 0.0), r, 1, "aperture", tr)
            ctx.expect(np.array_equal(img, keep), "image-changed", "the image was changed", [n, c, r])
            ctx.traces += 1
            ctx.outcome((n, c, r))
    elif u["kind"] == "sizes":
        # every image side: the mask fits the image
        for n in u["sizes"]:
            with suppress(Skip):
                img = np.zeros((1, 1, n, n))
                for ce, r in (((0.0, 0.0), 0.5), ((0.3 * n // 2, -0.2 * n // 2), 0.3)):
                    with ctx.guard("bite", [n, ce]):
                        m = np.asarray(utils.get_bite_mask(img, r, list(ce)))
                    ctx.transitions += 1
                    ctx.visit((n, ce))
                    judge(ctx, m, n, 1, ce, r, 0, "bite", ["bite", n, 1, r, ce])
                ctx.traces += 1
    elif u["kind"] == "oblong":
        # images of unequal sides: masks fit, and the central disc is central
        for h, w, c, r in itertools.product(u["sides"], u["sides"], (1, 3), (0.3, 0.5, 0.7, 0.9)):
            with suppress(Skip):
                img = np.zeros((1, c, h, w))
                tr = ["oblong", h, w, c, r]
                with ctx.guard("oblong", tr):
                    m = np.asarray(utils.get_bite_mask(img, r, [0.0, 0.0]))
                    a = np.asarray(utils.get_aperture(img, r))
                ctx.transitions += 2
                ctx.visit(tuple(tr))
                for got, keep, what in ((m, 0, "bite"), (a, 1, "aperture")):
                    if not ctx.expect(got.shape == (1, c, h, w), "oblong:shape", "%s of shape %s" % (what, got.shape), tr):
                        continue
                    ctx.expect((got == got[:, :1]).all() and ((got == 0) | (got == 1)).all(), "oblong:channels", "%s differs between channels" % what, tr)
                    rows, cols = np.where(got[0, 0] == keep)
                    ok = len(rows) and abs(rows.min() + rows.max() - (h - 1)) <= 2 and abs(cols.min() + cols.max() - (w - 1)) <= 2
                    ctx.expect(ok, "oblong:centre", lambda: "%s: the central disc spans rows %s, columns %s of %dx%d" % (
                        what, rows.tolist()[:1] + rows.tolist()[-1:], [cols.min(), cols.max()] if len(cols) else [], h, w), tr)
                ctx.traces += 1
    elif u["kind"] == "input":
        n = u["n"]
        cs = [(0.0, 0.0), (0.5, 0.77), (0.999, 0.2)]
        for c, ap, br, nl in itertools.product((1, 2, 4), (1.0, 0.98, 0.6, 0.3), (0.1, 0.0, 0.4), (0.0, 0.05, 0.5)):
            img = image(c, n)
            keep = img.copy()
            for b in u["batches"]:
                for ext in (None, c, c + 1, c + 3):
                    for seq in itertools.product(cs, repeat=b):
                        if ext not in (None,) and seq[0] != cs[1]:
                            continue
                        with suppress(Skip):
                            tr = ["input", n, c, ap, br, nl, b, ext, seq]
                            kw = dict(batch_size=b, aperture_radius=ap, bite_radius=br, noise_level=nl)
                            if ext is not None:
                                kw["external_channels"] = ext
                            with Source(seq, 0.31) as src, ctx.guard("input", tr):
                                out = utils.prep_input(img, **kw)
                            out = N(out)
                            ctx.transitions += 1
                            ctx.visit(tuple(map(str, tr)))
                            e = c if ext is None else ext
                            if not ctx.expect(out.shape == (b, e, n, n), "input:shape", lambda: "batch of shape %s" % (out.shape,), tr):
                                continue
                            ctx.expect(not out[:, c:].any(), "input:extra-channels", "channels beyond the image's are not empty", tr)
                            for i in range(b):
                                h = n // 2
                                d = dist(n, (seq[i][0] * h, seq[i][1] * h))
                                d0 = dist(n, (0.0, 0.0))
                                edge = (np.abs(d - br) < 1e-6) | ((np.abs(d0 - ap) < 1e-6) & (ap < 0.975))
                                clean = img[0] * (d >= br) * ((d0 < ap) | (ap >= 0.975))
                                noise = out[i, :c] - clean
                                ok = (noise > -1e-5) & (noise < nl + 1e-5) | edge
                                ctx.expect(ok.all(), "input:content", lambda: "element %d: %d cells differ from image*aperture*bite by more than the noise" % (
                                    i, (~ok).sum()), tr)
                                if nl and i and b > 1:
                                    prev = out[i - 1, :c] - img[0] * (dist(n, (seq[i - 1][0] * h, seq[i - 1][1] * h)) >= br) * ((d0 < ap) | (ap >= 0.975))
                                    ctx.expect(np.abs(prev - noise).max() > 1e-6, "input:same-noise", "elements share their noise", tr)
                                if nl and c > 1:
                                    ctx.expect(all(np.abs(noise[j] - noise[0]).max() > 1e-6 for j in range(1, c)), "input:same-noise", "channels share their noise", tr)
                                if nl:
                                    ctx.expect((noise[..., :]).std() > 0.1 * nl, "input:noise", "no noise was added", tr)
                            ctx.expect(src.n2 >= 2 * b, "input:fresh", "only %d bite centres were drawn for %d elements" % (src.n2 // 2, b), tr)
                            ctx.traces += 1
            ctx.expect(np.array_equal(img, keep), "image-changed", "the image was changed", [n, c])
    else:
        for c, h, w, k in itertools.product((1, 2, 3, 4), (1, 2, 5, 8), (1, 3, 5, 8), (0, 1)):
            img = np.mod(np.arange(c * h * w, dtype=np.float64).reshape(c, h, w) * 0.618 + k * 0.3, 1.0)
            keep = img.copy()
            with suppress(Skip):
                with ctx.guard("target", [c, h, w]):
                    t = utils.make_target(img)
                ctx.transitions += 1
                ctx.visit((c, h, w, k))
                ctx.expect(tuple(t.shape) == (1, c, h, w) and np.allclose(N(t)[0], keep, atol=1e-7), "target",
                           "the target is not the image", [c, h, w])
                t += 1
                ctx.expect(np.array_equal(img, keep), "image-changed", "changing the target changes the image", [c, h, w])
                ctx.traces += 1
        for shape in ((3, 3), (1, 2, 4, 4), (7,)):
            for r in (0.0, 0.3, 0.5, 1.0, 2.0):
                g = np.mod(np.arange(int(np.prod(shape))) * 0.5, 1.25).reshape(shape)
                keep = g.copy()
                with suppress(Skip):
                    with ctx.guard("mask", [shape, r]):
                        m = utils.get_mask(g, r)
                    ctx.transitions += 1
                    ctx.expect(np.array_equal(m, (keep >= r).astype(float)) and np.array_equal(g, keep), "get_mask", "mask of %s" % r, [shape, r])
    ctx.sample({"unit": u["kind"], "states": ctx.states})


def units(tier, seed):
    th = tier == "thorough"
    us = [dict(kind="mask", sizes=[n], chs=[1, 3]) for n in ((2, 3, 4, 5, 6, 8, 9, 12, 16, 31, 32) + ((33, 58, 64, 97) if th else ()))]
    top = 513 if th else 257
    us += [dict(kind="sizes", sizes=list(range(2 + i, top, 8))) for i in range(8)]
    us += [dict(kind="input", n=n, batches=[1, 2, 3] if th else [1, 2]) for n in (4, 6, 7)]
    us += [dict(kind="oblong", sides=[8, 9, 12, 17, 24] + ([33, 40, 64] if th else []))]
    us.append(dict(kind="target"))
    return us
