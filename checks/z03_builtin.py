"""Z03: the built-in patterns behave as the creatures they are named after, anywhere on the torus.

Every trajectory is enumerated: grid sizes x placements (wrapping included) x the eight orientations x steps,
stepped by the real automaton.  The exact creatures (Life glider, Morley puffer) are compared cell for cell with the
displaced pattern; the smooth ones with the speed, heading and mass of their species.
"""
import itertools
import os
import tempfile
from contextlib import suppress
import numpy as np
from mc.core import Skip
from mc.util import T, N

PROPERTY = "Z03"
RULE = ("states = (pattern, torus size, placement, orientation, step); transition = one real step; glider: every placement on every "
        "square torus of side 7..12 (7..20 thorough) and some oblong ones, eight orientations, once around the torus; puffer: a full period of 170 steps; "
        "smooth creatures: placements x orientations, 120 (400) steps; plus every ordered pair of pattern calls around an in-place edit")
ASSUMPTIONS = ["speeds and masses of the smooth creatures within 3% of the measured ones (after 30 steps of settling)",
               "get_bosco and get_ltl_spaceship read image files that are not shipped and are left out"]
NAMES = ("glider", "puffer", "pacman", "orbium", "geminium", "smooth_puffer", "smooth_glider")
CH = {"pacman": 3, "smooth_puffer": 3}
# rule file, configuration builder, mass range, speed in cells per step, tolerance, window
SPECIES = {"orbium": ("orbium.npy", "get_orbium_config", 71.5, 74.5, 0.6015, 0.03, 20),
           "geminium": ("geminium.npy", "get_geminium_config", 638.0, 682.0, 0.398, 0.06, 20),
           "smooth_glider": ("smoothlife.npy", "get_smooth_life_config", 186.0, 211.0, 2.0, 0.04, 20)}


def get(name):
    import yuca.patterns as P
    return getattr(P, "get_" + name)()


def orient(g, o):
    return np.rot90(g[..., ::-1] if o >= 4 else g, o % 4, (-2, -1)).copy()


def orient_vec(v, o):
    """where a displacement (dy, dx) goes under orient"""
    dy, dx = v
    if o >= 4:
        dx = -dx
    for _ in range(o % 4):
        dy, dx = -dx, dy
    return dy, dx


def rule(f, builder=None):
    from yuca.ca.continuous import CCA
    ca = CCA()
    if builder:
        import yuca.configs as C
        ca.load_config(getattr(C, builder)())
    else:
        ca.restore_config(f)
    ca.no_grad()
    ca.eval()
    return ca


def life_config(b, s):
    import yuca.configs as C
    return C.get_life_like_config(birth=b, survival=s)


def life(how, b, s, f):
    from yuca.ca.continuous import CCA
    if how == "file":
        return rule(f)
    ca = CCA()
    ca.load_config(life_config(b, s))
    ca.no_grad()
    ca.eval()
    return ca


def run_values(u, ctx):
    for name in NAMES:
        with suppress(Skip):
            with ctx.guard("values", name):
                p = np.asarray(get(name))
            ctx.transitions += 1
            ctx.visit(name)
            c = CH.get(name, 1)
            ok = p.ndim == (3 if c > 1 else 2) and (c == 1 or p.shape[0] == c)
            ctx.expect(ok and np.issubdtype(p.dtype, np.floating), "values:shape", lambda: "%s has shape %s, dtype %s" % (name, p.shape, p.dtype), name)
            ctx.expect(np.isfinite(p).all() and p.min() >= 0 and p.max() <= 1 and p.max() > 0.5, "values:range", "%s leaves [0,1] or is empty" % name, name)
            for k in range(c if ok and c > 1 else 0):
                ctx.expect(p[k].max() > 0.5, "values:channel", "%s: channel %d is empty" % (name, k), name)
            ctx.traces += 1
    # fresh data on every call, whoever edited what before; from every working directory
    first = {}
    for name in NAMES:
        with ctx.guard("fresh", name):
            first[name] = np.array(get(name))
    home = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        for a, b in itertools.product(NAMES, NAMES):
            for cwd in (home, d, "/"):
                os.chdir(cwd)
                try:
                    with suppress(Skip), ctx.guard("fresh", [a, b, cwd]):
                        x = get(a)
                        x[...] = 0.123
                        y = get(b)
                        ctx.expect(np.array_equal(y, first[b]), "fresh", "%s changed after a caller edited its copy of %s" % (b, a), [a, b])
                finally:
                    os.chdir(home)
                ctx.transitions += 1
                ctx.visit((a, b, cwd))
                ctx.traces += 1


def run_glider(u, ctx):
    """B3/S23 glider: every four steps the grid is the start moved one cell diagonally"""
    with ctx.guard("glider", u):
        p = np.asarray(get("glider"), dtype=np.float64)
        ca = life(u["how"], [3], [2, 3], "conway_life.npy")
    nz = np.argwhere(p > 0)
    a, b = nz.min(0), nz.max(0) + 1
    q = p[a[0]:b[0], a[1]:b[1]]
    ctx.expect(set(np.unique(p)) <= {0.0, 1.0} and q.shape == (3, 3) and q.sum() == 5, "glider:cells", "the glider is not five cells in a 3x3 box", None)
    h, w = u["h"], u["w"]
    base = np.zeros((h, w))
    base[:3, :3] = q
    grids, where = [], []
    for o in u["orient"]:
        for y, x in itertools.product(range(h), range(w)):
            g = np.roll(orient(base, o) if h == w or o in (0, 2, 4, 6) else base, (y, x), (0, 1))
            grids.append(g)
            where.append([o, y, x])
    start = np.array(grids)[:, None]
    t = T(start)
    lap = 4 * (h * w // np.gcd(h, w))
    heading = None
    for s in range(1, min(lap, u["steps"]) + 1):
        with ctx.guard("glider:step", [u, s]):
            t = ca(t)
        ctx.transitions += len(grids)
        if s % 4:
            continue
        now = N(t)
        k = s // 4
        if heading is None:
            # each grid moved by one of the four diagonals; orientations of one creature move in the matching ones
            heading = []
            for i, g in enumerate(start[:, 0]):
                ds = [d for d in itertools.product((-1, 1), (-1, 1)) if np.array_equal(np.roll(g, d, (0, 1)), now[i, 0])]
                ctx.expect(len(ds) == 1, "glider:moves", "after four steps the glider (orientation, row, column %s) on a %dx%d torus is not itself moved one cell diagonally" % (where[i], h, w), where[i])
                heading.append(ds[0])
            hs = {o: heading[i] for i, (o, y, x) in reversed(list(enumerate(where)))}
            if h == w:
                for o in hs:
                    ctx.expect(hs[o] == orient_vec(hs[0], o) if 0 in hs else True, "glider:heading", "orientation %d heads %s" % (o, hs[o]), o)
        want = np.array([np.roll(g, (k * d[0], k * d[1]), (0, 1)) for g, d in zip(start[:, 0], heading)])[:, None]
        bad = np.flatnonzero((now != want).any(axis=(1, 2, 3)))
        ctx.expect(not len(bad), "glider:travel", lambda: "step %d: the glider %s on a %dx%d torus is not the start moved by %d cells" % (s, where[bad[0]], h, w, k), [where[bad[0]] if len(bad) else None, s])
        for i in range(len(where)):
            ctx.visit((h, w, u["how"], tuple(where[i]), s))
    ctx.traces += len(grids)
    ctx.outcome((h, w))
    ctx.sample({"torus": [h, w], "placements": len(grids), "steps": min(lap, u["steps"])})


def run_puffer(u, ctx):
    """B368/S245 puffer: it keeps its mirror symmetry and its front recurs 13 cells further every 170 steps"""
    with ctx.guard("puffer", u):
        p = np.asarray(get("puffer"), dtype=np.float64)
        ca = life(u["how"], [3, 6, 8], [2, 4, 5], "morley.npy")
    o, (h, w) = u["orient"], u["size"]
    base = np.zeros((h, w))
    base[:8, :8] = p
    ctx.expect(set(np.unique(p)) <= {0.0, 1.0} and np.array_equal(p[1:7], p[1:7][::-1]), "puffer:cells", "the puffer is not a mirror symmetric binary pattern", None)
    base = np.roll(base, (h // 2 - 4, w // 2 - 4), (0, 1))
    t = T(orient(base, o)[None, None])
    fronts, mass = {}, {}
    for s in range(0, u["steps"] + 1):
        now = orient_back(N(t)[0, 0], o)
        ctx.visit((o, u["how"], s))
        ctx.transitions += 1
        ctx.expect(set(np.unique(now)) <= {0.0, 1.0}, "puffer:binary", "step %d: cells between 0 and 1" % s, s)
        ctx.expect(np.array_equal(now, now[::-1]), "puffer:mirror", "step %d: the puffer lost its mirror symmetry" % s, s)
        cols = np.flatnonzero(now.any(axis=0))
        ctx.expect(len(cols) > 0, "puffer:alive", "the puffer died at step %d" % s, s)
        fronts[s] = cols.max()
        mass[s] = now[:, cols.max() - 3:cols.max() + 1]
        if s >= 180:
            ctx.expect(fronts[s] == fronts[s - 170] + 13 and np.array_equal(mass[s], mass[s - 170]), "puffer:period",
                       "step %d: the puffer's front did not recur 13 cells beyond step %d" % (s, s - 170), s)
        with ctx.guard("puffer:step", s):
            t = ca(t)
    ctx.traces += 1
    ctx.outcome(max(fronts.values()) - fronts[0])


def orient_back(g, o):
    g = np.rot90(g, -(o % 4), (-2, -1))
    return (g[..., ::-1] if o >= 4 else g).copy()


def centre(g):
    """circular centre of mass of a torus grid"""
    out = []
    for ax in (0, 1):
        n = g.shape[ax]
        prof = g.sum(axis=1 - ax)
        z = (prof * np.exp(2j * np.pi * np.arange(n) / n)).sum()
        out.append(np.angle(z) / (2 * np.pi) * n)
    return np.array(out)


def run_smooth(u, ctx):
    name = u["name"]
    f, builder, lo, hi, speed, tol, window = u["species"]
    with ctx.guard("smooth", u):
        p = np.asarray(get(name), dtype=np.float64)
        ca = rule(f, builder if u["how"] == "builder" else None)
        if name == "orbium":
            ca.set_dt(0.1)
    n = u["n"]
    base = np.zeros((n, n))
    base[:p.shape[0], :p.shape[1]] = p
    grids = [np.roll(orient(base, o), pl, (0, 1)) for o, pl in itertools.product(u["orient"], u["places"])]
    t = T(np.array(grids)[:, None])
    prev = [centre(g) for g in grids]
    track = [[np.zeros(2)] for _ in grids]
    for s in range(1, u["steps"] + 1):
        with ctx.guard("smooth:step", [u, s]):
            t = ca(t)
        now = N(t)[:, 0]
        ctx.transitions += len(grids)
        for i, g in enumerate(now):
            ctx.visit((name, u["how"], i, s))
            m = g.sum()
            tr = [name, u["how"], i, s]
            ctx.expect(np.isfinite(g).all() and g.min() >= 0 and g.max() <= 1, "smooth:range", "%s leaves [0,1]" % name, tr)
            if s >= 40:
                ctx.expect(lo <= m <= hi, "smooth:mass", "%s: mass %.2f after %d steps, its kind has %.1f to %.1f" % (name, m, s, lo, hi), tr)
            c = centre(g)
            d = (c - prev[i] + n / 2) % n - n / 2
            prev[i] = c
            track[i].append(track[i][-1] + d)
            if s >= 40 + window:
                v = np.linalg.norm(track[i][s] - track[i][s - window]) / window
                ctx.expect(abs(v - speed) <= tol * speed, "smooth:speed", "%s: %.4f cells per step around step %d, its kind has %.4f" % (name, v, s, speed), tr)
    # orientations and placements of one creature travel the matching ways (up to float32 drift)
    a = track[0][min(u["steps"], 60)]
    for i, (o, pl) in enumerate(itertools.product(u["orient"], u["places"])):
        b = np.array(orient_vec(a, o))
        ctx.expect(np.linalg.norm(track[i][min(u["steps"], 60)] - b) < 0.3, "smooth:heading", "%s: orientation %d at %s heads elsewhere" % (name, o, pl), [o, pl])
    ctx.traces += len(grids)
    ctx.outcome((name, u["how"]))
    ctx.sample({"creature": name, "mass": float(now[0].sum()), "moved": track[0][-1].tolist()})


def units(tier, seed):
    th = tier == "thorough"
    us = [{"kind": "values"}]
    sizes = [(n, n) for n in range(7, 21 if th else 13)] + [(7, 9), (10, 8), (8, 13)]
    for h, w in sizes:
        for how in ("file", "builder"):
            os_ = [0] if h != w else list(range(8))
            us.append({"kind": "glider", "h": h, "w": w, "how": how, "orient": os_, "steps": 10 ** 6 if th else 48})
    for how in ("file", "builder"):
        for o in range(8) if th else (0, 1, 5):
            us.append({"kind": "puffer", "how": how, "orient": o, "size": (100, 100), "steps": 520 if th else 200})
    places = [(0, 0), (-10, -7), (31, 50)] + ([(-25, 20), (44, 13)] if th else [])
    for name, sp in SPECIES.items():
        for how in ("file", "builder"):
            for o in ([0, 1], [0, 2], [0, 3], [0, 4, 5], [0, 6, 7]) if th else ([0, 3], [0, 6]):
                us.append({"kind": "smooth", "name": name, "how": how, "species": sp, "n": {"orbium": 48, "geminium": 96, "smooth_glider": 72}[name],
                           "orient": o, "places": places, "steps": {"orbium": 400, "geminium": 200, "smooth_glider": 200}[name] if th else {"orbium": 120, "geminium": 80, "smooth_glider": 80}[name]})
    return us


def run_unit(u, ctx):
    with suppress(Skip):
        {"values": run_values, "glider": run_glider, "puffer": run_puffer, "smooth": run_smooth}[u["kind"]](u, ctx)
