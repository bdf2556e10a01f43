"""Explorer core: units, exploration counters, violations, replay artefacts, evidence.

A check module defines
    PROPERTY  id
    RULE      text: what is enumerated and when a state counts as new
    ASSUMPTIONS  list of strings
    units(tier, seed) -> list of JSON-able dicts (each one exhaustively explored sub-space)
    run_unit(unit, ctx)
and main() explores every unit (in parallel), writes evidence/<id>.json and sets the exit code.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YUCA_REPO", "/repo")
MAX_VIOL_PER_UNIT = 3
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))      # sweeps over many changes: stop at the first alarm


class Stop(Exception):
    """enough violations in this unit"""


class Ctx:
    def __init__(self, unit, seed=1, tier="quick"):
        self.unit, self.seed, self.tier = unit, seed, tier
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.violations = []
        self.samples = []
        self._seen = set()

    # -- counting -----------------------------------------------------------
    def visit(self, key):
        """register a state by canonical key; True when it is new"""
        h = hashlib.blake2b(repr(key).encode() if not isinstance(key, bytes) else key,
                            digest_size=12).digest()
        if h in self._seen:
            return False
        self._seen.add(h)
        self.states += 1
        return True

    def outcome(self, o):
        if len(self.outcomes) < 5000:
            self.outcomes.add(repr(o)[:80])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    # -- verdicts -----------------------------------------------------------
    def fail(self, key, msg, trace=None):
        self.violations.append({"key": key, "msg": str(msg)[:1500], "trace": trace, "unit": self.unit})
        if len(self.violations) >= MAX_VIOL_PER_UNIT:
            raise Stop()

    def expect(self, cond, key, msg, trace=None):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, trace)
        return bool(cond)

    @contextlib.contextmanager
    def guard(self, key, trace=None):
        """code under test must not raise inside this block"""
        try:
            yield
        except Stop:
            raise
        except Exception as e:                      # noqa
            self.fail(key + ":raises", "raises %s: %s\n%s" % (
                type(e).__name__, e, traceback.format_exc(limit=-4)), trace)
            raise Skip()


class Skip(Exception):
    """this case already reported; go on with the next one"""


def _prepare():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
    os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    from mc import shim
    shim.install()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def seed_everything(s):
    import numpy as np
    import torch
    random.seed(s)
    np.random.seed(s % (2 ** 32))
    torch.manual_seed(s)


def _work(args):
    modname, unit, seed, tier = args
    import importlib
    mod = importlib.import_module(modname)
    ctx = Ctx(unit, seed, tier)
    err = None
    t = time.time()
    seed_everything(seed)
    cwd = os.getcwd()
    try:
        with quiet():
            mod.run_unit(unit, ctx)
    except (Stop, Skip):
        pass
    except BaseException as e:              # noqa
        tb = traceback.extract_tb(e.__traceback__)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if isinstance(e, KeyboardInterrupt):
            raise
        if any(f.filename.startswith(REPO + "/") for f in tb) or isinstance(e, (AttributeError, ImportError)):
            ctx.violations.append({"key": "raises:" + type(e).__name__, "msg": text, "trace": None, "unit": unit})
        elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)) or \
                isinstance(e, RuntimeError) and "memory" not in str(e):
            # the oracle accepts every value the property allows: what the code returned has a
            # type, shape or key it cannot be compared with
            ctx.violations.append({"key": "incomparable:" + type(e).__name__, "msg": text, "trace": None, "unit": unit})
        else:
            err = text
    os.chdir(cwd)
    return {"unit": unit, "states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces,
            "outcomes": len(ctx.outcomes), "violations": ctx.violations, "samples": ctx.samples,
            "err": err, "wall": time.time() - t}


def load_known(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                # known: property=<id> key=<key> <what fails>
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out.append((key[len("key="):], what))
    return out


def jdefault(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except Exception:
        pass
    if isinstance(o, (set, tuple)):
        return list(o)
    if hasattr(o, "tolist"):
        return o.tolist()
    return repr(o)


def clean_replays(prop):
    import glob
    for f in glob.glob(os.path.join(ROOT, "evidence", "replay-%s-*.json" % prop)):
        os.unlink(f)


def main(modname, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    replay = None
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--unit="):
            only = a[7:]
        elif a.startswith("--replay="):
            replay = a[9:]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    _prepare()
    import importlib
    sys.path.insert(0, ROOT)
    try:
        mod = importlib.import_module(modname)
        us = None if replay else mod.units(tier, seed)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + "/") for f in tb) or isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ImportError)):
            prop = modname.split(".")[-1].split("_")[0].upper()
            return _report(prop, [{"key": "import", "msg": traceback.format_exc(), "trace": None, "unit": {}}],
                           [], tier, seed, {}, t0, None)
        traceback.print_exc()
        return 2
    prop = mod.PROPERTY
    if replay:
        rec = json.load(open(replay))
        us = [rec["unit"]]
        print("replaying unit", json.dumps(us[0])[:400])
        if rec.get("trace") is not None:
            print("recorded trace:", json.dumps(rec["trace"])[:2000])
    else:
        clean_replays(prop)
        if only:
            us = [u for u in us if only in json.dumps(u, default=jdefault)]
    args = [(modname, u, seed, tier) for u in us]
    if jobs > 1 and len(args) > 1:
        with mp.get_context("fork").Pool(min(jobs, len(args)), maxtasksperchild=getattr(mod, "MAXTASKS", 50)) as pool:
            res = []
            for r in pool.imap_unordered(_work, args, chunksize=getattr(mod, "CHUNK", 1)):
                res.append(r)
                if sum(len(x["violations"]) for x in res[-50:]) > (0 if FAILFAST else 40):
                    pool.terminate()
                    break
    else:
        res = []
        for a in args:
            res.append(_work(a))
            if FAILFAST and res[-1]["violations"]:
                break
    errs = [r["err"] for r in res if r["err"]]
    viol = [v for r in res for v in r["violations"]]
    cov = {"states": sum(r["states"] for r in res),
           "transitions": sum(r["transitions"] for r in res),
           "traces_validated_against_impl": sum(r["traces"] or r["transitions"] for r in res),
           "units": len(res), "distinct_outcomes": sum(r["outcomes"] for r in res),
           "rule": mod.RULE,
           "samples": [s for r in res for s in r["samples"]][:12] or ["(no sample recorded)"]}
    if os.environ.get("VERIF_VERBOSE"):
        for r in sorted(res, key=lambda r: -r["wall"])[:10]:
            print("%.1fs %s" % (r["wall"], json.dumps(r["unit"], default=jdefault)[:150]))
    if errs and not viol:
        print("CHECK ERROR in harness:\n" + errs[0])
        return 2
    return _report(prop, viol, getattr(mod, "ASSUMPTIONS", []), tier, seed, cov, t0, mod, bool(replay))


def _report(prop, viol, assumptions, tier, seed, cov, t0, mod, replay=False):
    known = load_known(prop)
    import fnmatch
    hit, new = {}, []
    for v in viol:
        for key, what in known:
            if fnmatch.fnmatchcase(v["key"], key):
                hit.setdefault(key, what)
                break
        else:
            new.append(v)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    # a listed finding is announced on every unchanged-tree run it was met in
    for key, what in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if not replay:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": cov or {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["import failed"]},
              "exhaustive": True, "assumptions": list(assumptions),
              "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=jdefault)
    seen = set()
    for i, v in enumerate(new):
        if v["key"] in seen or len(seen) > 8:
            continue
        seen.add(v["key"])
        path = os.path.join(evdir, "replay-%s-%d.json" % (prop, len(seen)))
        with open(path, "w") as f:
            json.dump({"property": prop, "how": "cd /verif && ./check.sh %s --replay=%s" % (prop, path), **v}, f,
                      indent=1, default=jdefault)
        print("--- %s [%s]\n%s" % (prop, v["key"], v["msg"][:1200]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: states=%s transitions=%s traces=%s units=%s violations=%d wall=%.1fs" % (
        prop, tier, cov.get("states"), cov.get("transitions"), cov.get("traces_validated_against_impl"),
        cov.get("units"), len(new), time.time() - t0))
    return 1 if new else 0
