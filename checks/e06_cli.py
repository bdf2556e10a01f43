"""E06: the command line runs, and records, the search it describes."""
import contextlib
import glob
import io
import itertools
import os
import runpy
import shlex
import sys
import numpy as np
import torch
from mc import evo, core
from mc.core import Skip

PROPERTY = "E06"
RULE = ("states = command lines; transition = one start of the program with that line: all automata x kinds of search x environments x precisions, every pair of options set together with "
        "each of two values, every spelling of values with special characters; then the recorded command line is started again (up to three generations of recordings)")
ASSUMPTIONS = ["the search itself is not run (other properties) except in the replay part", "git is replaced by a program that prints a known hash"]

HASH = "0123456789abcdef0123456789abcdef01234567"
CAS = ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")
SMALL = {"-m": "12", "-c": "2", "-p": "3", "-g": "2", "-s": "3", "-k": "2", "-b": "2"}
# option -> (two values, settings seen in the search)
OPTIONS = {
    "-b": ("3", "5"), "-c": ("3", "7"), "-ch": ("1", "2"), "-x": ("1", "3"), "-k": ("1", "4"), "-kp": ("1", "2"), "-v": ("zeros", "reflect"),
    "-e": ("1", "2"), "-g": ("1", "5"), "-l": ("2", "3"), "-m": ("10", "15"), "-p": ("2", "9"), "-r": ("1", "2"), "-s": ("7", "4 5"),
    "-w": ("0", "1"), "-hc": ("3", "5"), "-a": ("Tanh", "ReLU"), "-d": ("cpu",), "-dtype": ("float32", "float64"), "-cc": ("orbium.npy", "geminium.npy"),
}
LONG = {"-b": "--batch_size", "-c": "--ca_steps", "-ch": "--internal_channels", "-x": "--external_channels", "-k": "--kernel_radius", "-kp": "--kernel_peaks", "-v": "--conv_mode",
        "-e": "--selection_mode", "-g": "--generations", "-l": "--replicates", "-m": "--dim", "-p": "--population_size", "-r": "--prediction_mode", "-s": "--seed", "-w": "--workers",
        "-hc": "--hidden_channels", "-a": "--activation", "-d": "--device", "-dtype": "--dtype", "-cc": "--ca_config", "-ca": "--ca_fn", "-t": "--tag", "-f": "--env_fn"}


@contextlib.contextmanager
def program(d):
    """a scratch git on the path; the default precision is restored"""
    b = os.path.join(d, "bin")
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, "git"), "w") as f:
        f.write("#!/bin/sh\necho %s\n" % HASH)
    os.chmod(os.path.join(b, "git"), 0o755)
    path, argv = os.environ["PATH"], sys.argv
    os.environ["PATH"] = b + os.pathsep + path
    try:
        yield
    finally:
        os.environ["PATH"] = path
        sys.argv = argv
        torch.set_default_dtype(torch.float32)


def start(d, argv, run=False):
    """start the program; returns (search object, precision) of every search it starts"""
    from yuca import cmaes
    got = []
    orig = cmaes.CMAES.search

    def search(self):
        got.append((self, torch.get_default_dtype()))
        if run:
            orig(self)
    cmaes.CMAES.search = search
    sys.modules.pop("yuca.evolve", None)
    torch.set_default_dtype(torch.float32)
    core.seed_everything(99)
    try:
        with program(d), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()) as err:
            sys.argv = ["evolve.py"] + list(argv)
            try:
                runpy.run_module("yuca.evolve", run_name="__main__")
            except SystemExit as e:
                raise RuntimeError("the program exited with %r: %s" % (e.code, err.getvalue()[-300:]))
    finally:
        cmaes.CMAES.search = orig
    return got


def classes():
    from mc.family import classes as c
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    return dict(c(), NCA=NCA, RxnDfn=RxnDfn)


def line(opts):
    out = []
    for k, v in opts.items():
        out += [k] + v.split(" ")
    return out


def settings(ctx, got, opts, tr):
    """compare the started search with the options of its command line"""
    from yuca import cmaes, cppn
    from yuca.params_agent import ParamsAgent
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
    from yuca.wrappers.random_wrapper import RandomWrapper
    from yuca.wrappers.glider_wrapper import GliderWrapper
    if not ctx.expect(len(got) == 1, "one", "%d searches started" % len(got), tr):
        return
    cm, dt = got[0]
    tag = opts["-t"]
    kind = "pattern" if "pattern" in tag else "coevo" if "coevo" in tag else "rule"
    what = "command %s: " % " ".join(line(opts))

    def same(name, a, b):
        ctx.expect(a == b, "setting:" + name, lambda: "%s%s is %r instead of %r" % (what, name, a, b), tr)

    env = {"pattern": GliderWrapper, "coevo": GliderWrapper}.get(kind) or {"SimpleHaltingWrapper": SimpleHaltingWrapper, "HaltingWrapper": HaltingWrapper, "RandomWrapper": RandomWrapper}[opts["-f"]]
    ca = classes()[opts["-ca"]]
    same("search", type(cm).__name__, "CMACES" if kind == "coevo" else "CMAES")
    same("environment", type(cm.env).__name__, env.__name__)
    same("automaton", type(cm.env.ca).__name__, ca.__name__)
    same("precision", str(dt), "torch." + opts.get("-dtype", "float32"))
    same("batch size", (cm.batch_size, cm.env.batch_size), (int(opts["-b"]),) * 2)
    same("steps", (cm.ca_steps, cm.env.ca_steps), (int(opts["-c"]),) * 2)
    same("side", (cm.dim, cm.env.dim), (int(opts["-m"]),) * 2)
    same("selection mode", cm.selection_mode, int(opts.get("-e", 0)))
    same("generations", cm.generations, int(opts["-g"]))
    same("replicates", cm.replicates, int(opts.get("-l", 1)))
    same("population", cm.population_size, int(opts["-p"]))
    same("workers", cm.workers, int(opts.get("-w", 0)))
    same("seeds", [int(s) for s in cm.my_seed], [int(s) for s in opts["-s"].split(" ")])
    same("log name", cm.exp_id.startswith("exp_%s_" % tag), True)
    if kind == "rule":
        same("prediction", cm.env.prediction_mode, int(opts.get("-r", 0)))
    a = cm.env.ca
    same("external channels", (a.external_channels, cm.external_channels), (2 if opts["-ca"] == "RxnDfn" else int(opts.get("-x", 1)),) * 2)
    if "-cc" not in opts and opts["-ca"] != "RxnDfn":
        same("radius", (a.kernel_radius, a.neighborhood_kernels.shape[-1]), (int(opts["-k"]), 2 * int(opts["-k"]) + 1))
        same("peaks", len(np.ravel(a.kernel_params)), 3 * int(opts.get("-kp", 3)))
    if opts["-ca"] not in ("RxnDfn",) and "-cc" not in opts:
        same("padding", a.conv_mode, opts.get("-v", "circular"))
    if opts["-ca"] == "NCA":
        same("hidden channels", a.hidden_channels, int(opts.get("-hc", 16)))
        act = a.act if isinstance(a.act, type) else type(a.act)
        same("activation", act.__name__, opts.get("-a", "Gaussian"))
    elif opts["-ca"] != "RxnDfn" and "-cc" not in opts:
        same("internal channels", a.internal_channels, int(opts.get("-ch", 1)))
    if "-cc" in opts and opts["-ca"] in ("CCA", "RxnDfn"):
        want = ca()
        want.restore_config(opts["-cc"])
        want.no_grad()
        same("step", ["%.6g" % float(x) for x in (a.get_dt(), a.get_dx())], ["%.6g" % float(x) for x in (want.get_dt(), want.get_dx())])
        same("rule", [round(float(x), 5) for x in a.get_params()], [round(float(x), 5) for x in want.get_params()])
    with ctx.guard("reset", tr):
        torch.set_default_dtype(dt)
        try:
            with evo.patched(multivariate_normal=evo.Sampler()):
                cm.reset()
            agent = {"pattern": cppn.CPPN, "coevo": cppn.CPPNPlus, "rule": ParamsAgent}[kind]
            same("candidates", sorted({type(p).__name__ for p in cm.population}), [agent.__name__])
            act = cm.population[-1].get_action()
            if kind == "coevo":
                same("rule part", len(np.ravel(act[0])), len(a.get_params()))
                act = act[1]
            if kind == "rule":
                same("rule part", len(np.ravel(act)), len(a.get_params()))
            else:
                same("pattern", tuple(act.shape)[-3:], (cm.external_channels, cm.dim, cm.dim))
        finally:
            torch.set_default_dtype(torch.float32)


def recorded(ctx, got, argv, tr):
    """the recorded command is the one given, each value at its option; returns it as arguments"""
    kw = got[0][0].kwargs
    what = "command %s: " % shlex.join(argv)
    ctx.expect(str(kw.get("git_hash", "")).strip() == HASH, "hash", "%srecorded git hash %r" % (what, kw.get("git_hash")), tr)
    ep = kw.get("entry_point")
    if not ctx.expect(isinstance(ep, (list, tuple)) and len(ep) > 0 and ep[0] == "evolve.py", "entry", "%srecorded entry point %r" % (what, ep), tr):
        return None
    flat = [str(x) for g in ep[1:] for x in (g if isinstance(g, (list, tuple)) else [g])]
    ctx.expect(sorted(flat) == sorted(argv), "entry", "%srecorded arguments %r" % (what, flat), tr)
    groups, cur = [], None
    for x in argv:
        if x in LONG or x.split("=")[0] in LONG.values():
            groups.append([x])
        else:
            groups[-1].append(x)
    for g in groups:
        ctx.expect(any(list(map(str, h)) == g for h in ep[1:]), "entry", "%sthe recorded entry point %r separates %r" % (what, ep, g), tr)
    return flat


def summary(got):
    cm, dt = got[0]
    out = {}
    for k, v in cm.kwargs.items():
        if k == "entry_point":
            continue
        out[k] = v.__name__ if isinstance(v, type) else repr(v)
    return repr((type(cm).__name__, str(dt), sorted(out.items())))


def u_dispatch(unit, ctx, d):
    for ca, (tag, env), dt in itertools.product(CAS, unit["kinds"], ("float32", "float64")):
        opts = dict(SMALL, **{"-ca": ca, "-t": tag, "-f": env, "-dtype": dt})
        tr = dict(unit, command=line(opts))
        got = []
        with ctx.guard("dispatch", tr):
            got = start(d, line(opts))
        ctx.transitions += 1
        ctx.visit(tuple(line(opts)))
        settings(ctx, got, opts, tr)
        recorded(ctx, got, line(opts), tr)
        ctx.traces += 1
    ctx.sample({"command": line(opts)})


def u_pair(unit, ctx, d):
    o1, ca, kind = unit["option"], unit["ca"], unit["kind2"]
    for o2 in OPTIONS:
        if o2 < o1:
            continue
        for v1, v2 in itertools.product(OPTIONS[o1], OPTIONS[o2]) if o1 != o2 else [(v, v) for v in OPTIONS[o1]]:
            opts = dict(SMALL, **{"-ca": ca, "-t": kind, "-f": "SimpleHaltingWrapper", o1: v1, o2: v2})
            if "-cc" in opts and (ca == "NCA" or "-x" in opts):
                continue
            if "-cc" in opts and ca == "RxnDfn":
                if opts["-cc"] == "orbium.npy":
                    opts["-cc"] = "uskate_rxndfn.npy"
                else:           # a rule file unlike the default
                    own = classes()["RxnDfn"]()
                    own.set_dt(0.37)
                    own.set_dx(1 / 90.)
                    own.set_params(own.get_params() * 0.9)
                    opts["-cc"] = os.path.join(d, "own.npy")
                    own.save_config(opts["-cc"])
            if "-cc" in opts:
                opts["-m"] = "30"
            tr = dict(unit, command=line(opts))
            got = []
            with ctx.guard("pair", tr):
                got = start(d, line(opts))
            ctx.transitions += 1
            ctx.visit(tuple(line(opts)))
            settings(ctx, got, opts, tr)
            recorded(ctx, got, line(opts), tr)
            ctx.traces += 1


def u_spelling(unit, ctx, d):
    """every order and spelling of a few options with special values; the recorded command is run again"""
    tags = ("a", "my-tag", "pattern-run-2", "co-evo", "coevo-b", "a b", "x=1", "-1", "")
    seeds = (["5"], ["4", "5"], ["-3"], ["7", "-2"])
    for tag, seed, style, order in itertools.product(tags, seeds, unit["styles"], unit["orders"]):
        parts = [["-ca", "CCA"], ["-t", tag], ["-s"] + seed, ["-f", "SimpleHaltingWrapper"]] + [[k, v] for k, v in SMALL.items() if k != "-s"]
        if style != "short":
            parts = [[LONG[p[0]]] + p[1:] for p in parts]
        if style == "equals":
            parts = [["%s=%s" % tuple(p)] if len(p) == 2 else p for p in parts]
        k = order % len(parts)
        parts = parts[k:] + parts[:k]
        if order >= len(parts):
            parts = parts[::-1]
        argv = [x for p in parts for x in p]
        tr = dict(unit, command=argv)
        opts = dict(SMALL, **{"-ca": "CCA", "-t": tag, "-f": "SimpleHaltingWrapper", "-s": " ".join(seed)})
        flat, first = argv, None
        for gen in range(unit["replays"]):
            got = []
            with ctx.guard("spelling", tr):
                if any(int(s) < 0 for s in seed) or tag == "-1":
                    got = quiet(d, flat)
                else:
                    got = start(d, flat)
                    settings(ctx, got, opts, tr)
            ctx.transitions += 1
            ctx.visit(tuple(flat))
            if not got:
                break
            now = summary(got)
            first = first or now
            if not ctx.expect(now == first, "replay", "starting the recorded command %s of %s again gives another search" % (shlex.join(flat), shlex.join(argv)), tr):
                break
            flat = recorded(ctx, got, flat, tr)
            if flat is None:
                break
        ctx.traces += 1


def quiet(d, argv):
    """as start, for values a seed or a log name cannot take: only the recorded settings matter"""
    from yuca import cmaes
    got = []

    class R:
        pass
    orig = cmaes.CMAES.__init__

    def init(self, **kw):
        self.kwargs = kw
    cmaes.CMAES.__init__ = init
    try:
        return start(d, argv)
    finally:
        cmaes.CMAES.__init__ = orig


def u_run(unit, ctx, d):
    """run the program, then run the command its log records: the same search"""
    opts = dict(SMALL, **{"-ca": unit["ca"], "-t": unit["tag"], "-f": unit["env"], "-e": str(unit["mode"])})
    argv, logs = line(opts), []
    tr = dict(unit)
    for gen in range(2):
        for f in glob.glob(os.path.join(d, "logs", "*")):
            os.unlink(f)
        # sampling by decomposition is slow for networks; still drawn from the program's own generator
        cheap = lambda m, c, *a, **k: m + np.sqrt(np.abs(np.diag(c))) * np.random.standard_normal(len(m))
        with ctx.guard("run", tr), evo.patched(multivariate_normal=cheap):
            got = start(d, argv, run=True)
        fs = glob.glob(os.path.join(d, "logs", "*.npy"))
        ctx.transitions += 1
        if not ctx.expect(len(fs) == 1, "run:log", "%s wrote %d logs" % (" ".join(argv), len(fs)), tr):
            return
        L = np.load(fs[0], allow_pickle=True).reshape(1)[0]
        logs.append(L)
        ctx.visit((tuple(argv), gen))
        ep = L["kwargs"]["entry_point"]
        ctx.expect(str(L["kwargs"]["git_hash"]).strip() == HASH, "hash", "logged git hash %r" % L["kwargs"]["git_hash"], tr)
        argv = [str(x) for g in ep[1:] for x in (g if isinstance(g, (list, tuple)) else [g])]
    a, b = logs
    ctx.expect(np.array_equal(np.asarray(a["elite_params"][-1]), np.asarray(b["elite_params"][-1])), "run:replay", "running the logged command again found other elites", tr)
    for k in ("mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness"):
        ctx.expect(np.array_equal(np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)), "run:replay", "running the logged command again gives another %s: %s, %s" % (k, a[k], b[k]), tr)
    ctx.traces += 1


KINDS = [("pattern_a", "HaltingWrapper"), ("my-pattern", "RandomWrapper"), ("coevo_a", "HaltingWrapper"), ("the-coevo", "SimpleHaltingWrapper"), ("rules", "HaltingWrapper"),
         ("rules", "SimpleHaltingWrapper"), ("halt-2", "RandomWrapper")]


def units(tier, seed):
    th = tier == "thorough"
    us = [{"kind": "dispatch", "kinds": [k]} for k in KINDS]
    for ca in ("CCA", "NCA", "RxnDfn") + (("Lenia", "CODE", "RandomStepCA", "MetaCA") if th else ()):
        for kind in ("rules", "pattern-x", "coevo-x") if th else (("rules", "pattern-x") if ca == "CCA" else ("rules",)):
            us += [{"kind": "pair", "option": o, "ca": ca, "kind2": kind} for o in OPTIONS]
    for style in ("short", "long", "equals"):
        for order in range(0, 20, 1 if th else 5):
            us.append({"kind": "spelling", "styles": [style], "orders": [order], "replays": 3})
    for ca, (tag, env), mode in itertools.product(CAS, [("pattern-a", "HaltingWrapper"), ("coevo-a", "HaltingWrapper"), ("rule-a", "SimpleHaltingWrapper")],
                                                  (0, 1, 2) if th else (0,)):
        us.append({"kind": "run", "ca": ca, "tag": tag, "env": env, "mode": mode})
    return us


def run_unit(unit, ctx):
    with evo.scratch() as d:
        try:
            globals()["u_" + unit["kind"]](unit, ctx, d)
        except Skip:
            return
