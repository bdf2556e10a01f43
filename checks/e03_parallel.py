"""E03: parallel evaluation equals serial evaluation, under every schedule of the processes."""
import hashlib
import importlib.util
import itertools
import os
import numpy as np
from mc import evo, sched, core
from mc.core import Skip

PROPERTY = "E03"
RULE = ("states = global states (operation history and pending message operation of every process) of the coordinator and its workers, each running the real search() on its own "
        "copy of the module, in buffered and in synchronous send semantics; all reachable states for up to 5 processes (7 thorough), every worker count 0..7 x population 1..12 under "
        "fixed schedules; plus all evaluation orders of three candidates with the real fitness function per automaton class; transition = one message operation or one evaluation")
ASSUMPTIONS = ["the MPI communicator is replaced by a controlled one that pickles every message; messages between two processes arrive in order",
               "a process between two message operations depends only on what it received (random generators and module globals are per process)",
               "adaptive-step automata remember their last accepted step across episodes and are excluded from order independence"]


def units(tier, seed):
    q = tier == "quick"
    us = []
    for np_ in (2, 3, 4, 5) + (() if q else (6, 7)):
        for n in (1, 2, 3, 5) + (() if q else (4, 6, 7, 8, 9)):
            for gens, seeds in ((1, [5]), (2, [5]), (2, [5, 6])) + (() if q else ((3, [5]),)):
                for rv in (False, True):
                    if gens * len(seeds) > {2: 9, 3: 9, 4: 4 if q else 9, 5: 1 if q else 2, 6: 1, 7: 0}[np_] and not (np_ == 7 and rv and gens == 1):
                        continue
                    us.append({"kind": "all", "procs": np_, "n": n, "gens": gens, "seeds": seeds, "rv": rv, "mode": n % 3})
    for w in range(0, 8):
        us.append({"kind": "fixed", "w": w})
    us.append({"kind": "fork"})
    for cls in ("CCA", "MetaCA", "Lenia", "RandomStepCA", "NCA", "RxnDfn"):
        for env in ("SimpleHaltingWrapper", "GliderWrapper"):
            us.append({"kind": "order", "ca": cls, "env": env})
    us.append({"kind": "order", "ca": "CCA", "env": "coevo"})
    us += [{"kind": "real", "procs": p, "n": n} for p, n in ((2, 2), (3, 3), (3, 2), (4, 5))]
    return us


_mods = {}


def module(k):
    """a private copy of the module per process: its globals (comm, rank, ...) are the process's own"""
    if k not in _mods:
        import yuca.cmaes
        spec = importlib.util.spec_from_file_location("yuca_cmaes_p%d" % k, os.path.join(core.REPO, "yuca", "cmaes.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[k] = m
    m = _mods[k]
    for g in ("rank", "num_worker"):
        if hasattr(m, g):
            delattr(m, g)
    m.__file__ = os.path.join(evo.SCRATCH["dir"], "yuca", "cmaes.py")
    m.save_fig_sequence = lambda *a, **k: None
    return m


def score(params, seed):
    h = hashlib.blake2b(np.asarray(params, dtype=np.float64).tobytes() + b"%d" % seed, digest_size=4).digest()
    return np.float64(int.from_bytes(h, "big") / 2 ** 32 - 0.5)


class Rec:
    def __init__(self):
        self.evals, self.gens, self.logs = [], [], []


def build(m, rank, rec, workers, n, gens, seeds, mode, real=False):
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
    from yuca.ca.continuous import CCA

    class Scripted(m.CMAES):
        def get_fitness(self, agent_index, steps=10, replicates=1, seed=13):
            p = np.array(self.population[agent_index].get_params(), dtype=np.float64)
            rec.evals.append((rank, int(agent_index), int(seed), p.tobytes()))
            if real:
                return super().get_fitness(agent_index, steps=steps, replicates=replicates, seed=seed)
            import torch
            return score(p, seed), torch.tensor(0.25)

        def _note(self, fitness):
            rec.gens.append(([np.array(a.get_params(), dtype=np.float64) for a in self.population], [float(f) for f in fitness]))

        def update_population(self, fitness):
            self._note(fitness)
            super().update_population(fitness)
            rec.logs.append((np.array(self.elite_params).tobytes(), np.array(self.means).tobytes(), np.array(self.covar).tobytes()))

        def rank_population(self, fitness, seed=0):
            self._note(fitness)
            super().rank_population(fitness, seed=seed)
            rec.logs.append((np.array(self.elite_params).tobytes(), np.array(self.means).tobytes(), np.array(self.covar).tobytes()))

    m.CMAES_base = Scripted
    return Scripted(ca_fn=CCA, env_fn=SimpleHaltingWrapper, kernel_radius=2, dim=8, ca_steps=1, batch_size=1, population_size=n,
                    generations=gens, replicates=1, selection_mode=mode, seed=list(seeds), workers=workers, tag="mc")


def serial(n, gens, seeds, mode, real=False):
    rec = Rec()
    core.seed_everything(3)
    m = module(0)
    cm = build(m, 0, rec, 0, n, gens, seeds, mode, real)
    cm.search()
    return rec


def processes(np_, n, gens, seeds, mode, recs, real=False):
    """process functions for np_ ranks; recs is refilled for every execution"""
    recs.clear()
    shared = Rec()
    recs.append(shared)

    def mk(k):
        def run(proc):
            m = module(k)
            m.comm = sched.FakeComm(proc, np_)
            core.seed_everything(3)
            cm = build(m, k, shared, np_, n, gens, seeds, mode, real)
            cm.search()
            return cm
        return run
    return [mk(k) for k in range(np_)]


def judge(ctx, rec, ref, n, gens, seeds, what, tr, real=False):
    G = gens * len(seeds)
    if not ctx.expect(len(rec.gens) == G, "generations", "%s: %d generations selected, expected %d" % (what, len(rec.gens), G), tr):
        return
    sd = [g * s for s in seeds for g in range(gens)]
    want = []
    for g, (pop, fit) in enumerate(rec.gens):
        want += [(sd[g], p.tobytes()) for p in pop]
        ctx.expect(len(fit) == n and len(pop) == n, "count", "%s: generation %d: %d fitness values for %d candidates (population %d)" % (what, g, len(fit), len(pop), n), tr)
        if not real:
            exp = [float(score(p, sd[g])) for p in pop]
            ctx.expect(fit == exp, "attribution", "%s: generation %d: fitness %s, the candidates' own are %s" % (what, g, fit, exp), tr)
    got = [(e[2], e[3]) for e in rec.evals]
    ctx.expect(sorted(got) == sorted(want), "once", "%s: %d evaluations (indices %s), expected each of the %d candidates exactly once" % (
        what, len(got), [(e[0], e[1], e[2]) for e in rec.evals][:16], len(want)), tr)
    ctx.expect([g[1] for g in rec.gens] == [g[1] for g in ref.gens], "serial:fitness", "%s: fitness differs from serial evaluation" % what, tr)
    for g, (a, b) in enumerate(zip(rec.logs, ref.logs)):
        for x, y, name in zip(a, b, ("elites", "mean", "covariance")):
            ctx.expect(x == y, "serial:" + name, "%s: generation %d: %s differ from serial evaluation" % (what, g, name), tr)


def run_unit(unit, ctx):
    import pickle  # noqa
    old = os.environ.get("IN_MPI")
    os.environ["IN_MPI"] = "1"
    try:
        with evo.scratch():
            try:
                globals()["u_" + unit["kind"]](unit, ctx)
            except Skip:
                pass
    finally:
        if old is None:
            os.environ.pop("IN_MPI", None)
        else:
            os.environ["IN_MPI"] = old


def run_all(ctx, np_, n, gens, seeds, rv, mode, ref, order=None, label="", real=False):
    recs = []

    def on_end(ex, trace, status):
        what = "%d processes, population %d, %d generation(s), %s sends%s" % (np_, n, gens, "synchronous" if rv else "buffered", label)
        tr = [[c[0], c[1] if isinstance(c[1], str) else list(c[1])] for c in trace]
        if status == "error":
            p = [p for p in ex.procs if p.err][0]
            ctx.fail("raises", "%s: process %d raised %s" % (what, p.idx, p.err[1][-900:]), tr)
        elif status == "deadlock":
            ctx.fail("deadlock", "%s: no process can proceed: %s" % (what, [(p.idx, "ended" if p.done else p.req[:3]) for p in ex.procs]), tr)
        else:
            left = {k: len(v) for k, v in ex.chan.items() if v}
            ctx.expect(not left, "undelivered", "%s: messages left over at the end: %s" % (what, left), tr)
            judge(ctx, recs[0], ref, n, gens, seeds, what, tr, real)
            ctx.outcome((np_, n, len(trace)))
            ctx.traces += 1

    s = sched.explore(lambda: processes(np_, n, gens, seeds, mode, recs, real), rv, on_end, on_state=lambda k: None, order=order, limit=20000)
    ctx.states += s["states"]
    ctx.transitions += s["transitions"]
    ctx.sample({"processes": np_, "population": n, "generations": gens, "synchronous": rv, **s})


def u_all(unit, ctx):
    ref = serial(unit["n"], unit["gens"], unit["seeds"], unit["mode"])
    judge(ctx, ref, ref, unit["n"], unit["gens"], unit["seeds"], "serial, population %d" % unit["n"], None)
    run_all(ctx, unit["procs"], unit["n"], unit["gens"], unit["seeds"], unit["rv"], unit["mode"], ref)


def u_fixed(unit, ctx):
    w = unit["w"]
    for n in range(1, 13):
        ref = serial(n, 2, [5], 0)
        if w <= 1:
            rec = Rec()
            core.seed_everything(3)
            with ctx.guard("search"):
                build(module(0), 0, rec, w, n, 2, [5], 0).search()
            judge(ctx, rec, ref, n, 2, [5], "workers=%d, population %d" % (w, n), None)
            ctx.states += 1
            ctx.transitions += 1
            continue
        for rv in (False, True):
            for name, order in (("first", lambda en, tr: en[0]), ("last", lambda en, tr: en[-1]), ("rotate", lambda en, tr: en[len(tr) % len(en)])):
                run_all(ctx, w, n, 2, [5], rv, 0, ref, order=order, label=", schedule " + name)


def u_real(unit, ctx):
    """the real fitness function: one generation must match serial evaluation"""
    ref = serial(unit["n"], 1, [5], 0, real=True)
    for rv in (False, True):
        run_all(ctx, unit["procs"], unit["n"], 1, [5], rv, 0, ref, real=True)


def u_fork(unit, ctx):
    """more than one worker outside MPI relaunches the same command under mpirun and does not search itself"""
    os.environ.pop("IN_MPI", None)
    for w in range(0, 7):
        rec = Rec()
        m = module(0)
        calls, exits = [], []

        class Exit(BaseException):
            pass

        def check_call(cmd, *a, **k):
            calls.append((list(cmd), k.get("env")))
            return 0

        def ex(code=0):
            exits.append(code)
            raise Exit()

        real_cc, real_exit = m.subprocess.check_call, os._exit
        m.subprocess.check_call, os._exit = check_call, ex
        try:
            build(m, 0, rec, w, 3, 1, [5], 0).search()
        except Exit:
            pass
        finally:
            m.subprocess.check_call, os._exit = real_cc, real_exit
        ctx.visit(w)
        ctx.transitions += 1
        if w <= 1:
            ctx.expect(not calls and len(rec.gens) == 1, "fork:serial", "workers=%d: launched %s, %d generations" % (w, calls, len(rec.gens)))
        else:
            ok = len(calls) == 1 and exits == [0] and not rec.evals
            ctx.expect(ok, "fork:launch", "workers=%d: %d launches, exit %s, %d evaluations in the parent" % (w, len(calls), exits, len(rec.evals)))
            if calls:
                cmd, env = calls[0]
                ctx.expect(str(w) in cmd[:4] and "mpirun" in cmd[0] and (env or {}).get("IN_MPI") is not None, "fork:command", "workers=%d: %s" % (w, cmd))


def u_order(unit, ctx):
    """fitness of a candidate does not depend on which candidates were evaluated before it"""
    import torch
    from yuca import cppn
    from yuca.wrappers import halting_wrapper, glider_wrapper
    from mc.family import classes
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    ca = dict(classes(), NCA=NCA, RxnDfn=RxnDfn)[unit["ca"]]
    kw = dict(ca_fn=ca, population_size=3, dim=8, ca_steps=3, batch_size=2)
    if unit["env"] == "SimpleHaltingWrapper":
        kw.update(env_fn=halting_wrapper.SimpleHaltingWrapper)
        name = "CMAES"
    elif unit["env"] == "GliderWrapper":
        kw.update(env_fn=glider_wrapper.GliderWrapper, agent_fn=cppn.CPPN, tag="pattern")
        name = "CMAES"
    else:
        kw.update(env_fn=glider_wrapper.GliderWrapper, agent_fn=cppn.CPPNPlus, tag="coevo")
        name = "CMACES"
    if unit["ca"] == "RxnDfn":
        kw.update(external_channels=2)
    with ctx.guard("construct"):
        core.seed_everything(11)
        cm = evo.make(name, **kw)
        with evo.patched(multivariate_normal=evo.Sampler()):
            cm.reset()
        cm.env.ca.no_grad()
    alone = {}
    for seed in (0, 5):
        for seq in itertools.product(range(3), repeat=3):
            for i in seq:
                with ctx.guard("evaluate", [unit, seq]):
                    f, alive = cm.get_fitness(i, steps=1, replicates=2, seed=seed)
                ctx.transitions += 1
                v = (float(f), float(torch.as_tensor(alive).mean()))
                want = alone.setdefault((seed, i), v)
                ctx.expect(v == want, "order", "%s/%s: candidate %d scores %s after %s, %s before" % (unit["env"], unit["ca"], i, v, seq, want), [unit, seq])
            ctx.visit((seed, seq))
    ctx.outcome(sorted(alone.values()))
    ctx.sample({"unit": unit, "fitness": sorted(set(alone.values()))})
