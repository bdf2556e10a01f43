"""Z01 the pattern library: explicit-state exploration of operation histories on a real directory,
and enumeration of every file-operation crash point of a store.

State = (directory bytes, index of every library object).  The model is a dictionary of live
entries; after every transition the directory, every load and every refreshed index are compared
with it.  Crash exploration interposes on open/write/rename/remove: operation k of a store fails
(error), or the process is killed there with the write torn at 0, half or all of its bytes.
"""
import builtins
import contextlib
import io
import itertools
import os
import shutil
import tempfile
from contextlib import suppress
import numpy as np
from mc.core import Skip

PROPERTY = "Z01"
RULE = ("histories: breadth-first over store/load/refresh/delete/reopen by two library objects, a state is "
        "(directory content, indices); crash: every file operation of a store x {error, killed with 0/half/all "
        "bytes written} x what is stored next; metadata: product of field alphabets")
ASSUMPTIONS = ["operations of different library objects do not overlap in time",
               "metadata values are compared as text without surrounding white space",
               "file operations reach the disk in program order"]

PATTERNS = {
    "p": np.arange(12, dtype=np.float32).reshape(1, 1, 3, 4) / 12,
    "q": np.linspace(0, 1, 7) ** 2,
    "r": (np.arange(8).reshape(1, 2, 2, 2) % 3).astype(np.float64),
}
META = {
    "m": dict(config_name="geminium.npy", entry_point="python -m yuca.evolve -s 1 3", commit_hash="3f786850e387550fdab836ed7e6dc881de23001b3f786850e387550fdab836ed-dirty", notes="plain"),
    "n": dict(ca_config="orbium.npy", entry_point="a,b", notes="first, second"),
    "o": dict(),
}


def expected_meta(kw):
    cfg = kw.get("config_name", "unspecified")
    if cfg == "unspecified":
        cfg = kw.get("ca_config", "unspecified")
    return {"ca_config": cfg, "entry_point": kw.get("entry_point", "not specified"),
            "commit_hash": kw.get("commit_hash", "not_specified"), "notes": str(kw.get("notes", None))}


def snapshot(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            out[n] = f.read()
    return out


def rebuild(d, files):
    for n in os.listdir(d):
        if n not in files:
            os.unlink(os.path.join(d, n))
    for n, b in files.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(b)


def lib(d, verbose=False):
    from yuca.zoo.librarian import Librarian
    return Librarian(directory=d, verbose=verbose)


def meta_ok(got, want):
    return all(str(got.get(k)).strip() == str(v).strip().replace("\r\n", "\n") for k, v in want.items())


def check_entry(ctx, l, name, entry, key, trace):
    p, m = l.load(name)
    want = PATTERNS[entry[0]]
    ctx.expect(isinstance(p, np.ndarray) and p.dtype == want.dtype and p.shape == want.shape and np.array_equal(p, want),
               key + ":pattern", lambda: "entry %s loads %r, stored %r" % (name, p, want), trace)
    w = expected_meta(META[entry[1]])
    ctx.expect(meta_ok(m, w), key + ":meta", lambda: "entry %s loads metadata %r, stored %r" % (name, m, w), trace)


def store_and_find(ctx, d, l, name, pat, meta, model, key, trace):
    """store; returns the name of the new entry after checking nothing else changed"""
    before = snapshot(d)
    with ctx.guard(key + ":store", trace):
        l.store(PATTERNS[pat].copy(), name, **META[meta])
    after = snapshot(d)
    new = [n for n in after if n not in before and n.endswith(".npy")]
    ctx.expect(len(new) == 1, key + ":new-entry", lambda: "store(%s) created %s" % (name, new), trace)
    if len(new) != 1:
        return None
    stem = new[0][:-4]
    ctx.expect(stem.startswith(name) and stem[len(name):].isdigit() and stem not in model, key + ":number",
               lambda: "store(%s) made entry %s" % (name, stem), trace)
    for n in before:
        if n.endswith(".npy") or n[:-4] in model:
            ctx.expect(after.get(n) == before[n], key + ":altered",
                       lambda: "store(%s) -> %s changed the earlier file %s" % (name, stem, n), trace)
    return stem


# ---------------------------------------------------------------- histories
def run_histories(unit, ctx):
    d = tempfile.mkdtemp(prefix="yuca-z01-")
    try:
        names = unit["names"]
        l0, l1 = lib(d), lib(d)
        # node: (files, index0, index1, model, trace); model: stem -> (pattern, meta, has_meta)
        start = ({}, tuple(l0.index), tuple(l1.index), {}, [])
        ctx.visit((sorted(start[0].items()), start[1], start[2]))
        frontier = [start]
        for depth in range(unit["depth"]):
            nxt = []
            for files, i0, i1, model, trace in frontier:
                ops = [("store", o, n, p, m) for o in (0, 1) for n in names for p, m in unit["stores"]]
                ops += [("refresh", 0), ("reopen", 1)]
                # delete the whole entry / only its pattern / only its metadata
                ops += [("delete", s) for s in sorted(model)[:3]]
                ops += [("delmeta", s) for s in sorted(model)[:2] if model[s][2]]
                ops += [("delpat", s) for s in sorted(model)[:2]]
                for op in ops:
                    rebuild(d, files)
                    obj = [l0, l1]
                    l0.index, l1.index = list(i0), list(i1)
                    mod = dict(model)
                    tr = trace + [op]
                    ctx.transitions += 1
                    if op[0] == "store":
                        stem = store_and_find(ctx, d, obj[op[1]], op[2], op[3], op[4], mod, "history", tr)
                        if stem is None:
                            continue
                        mod[stem] = (op[3], op[4], True)
                    elif op[0] == "refresh":
                        with ctx.guard("refresh", tr):
                            l0.update_index()
                        ctx.expect(list(l0.index) == sorted(mod), "index",
                                   lambda: "index %s, stored %s" % (l0.index, sorted(mod)), tr)
                    elif op[0] == "reopen":
                        with ctx.guard("reopen", tr):
                            l1 = lib(d)
                        ctx.expect(list(l1.index) == sorted(mod), "index",
                                   lambda: "index %s, stored %s" % (l1.index, sorted(mod)), tr)
                    else:
                        if op[0] in ("delete", "delpat"):
                            os.unlink(os.path.join(d, op[1] + ".npy"))
                        if op[0] in ("delete", "delmeta") and mod[op[1]][2]:
                            os.unlink(os.path.join(d, op[1] + ".csv"))
                        if op[0] == "delmeta":
                            mod[op[1]] = mod[op[1]][:2] + (False,)
                        else:
                            del mod[op[1]]
                    after = snapshot(d)
                    key = (sorted(after.items()), tuple(l0.index), tuple(l1.index))
                    if not ctx.visit(key):
                        continue
                    for s, e in mod.items():        # every live entry loads through both objects
                        for l in (l0, l1):
                            if e[2]:
                                with ctx.guard("load", tr):
                                    check_entry(ctx, l, s, e, "history", tr)
                            else:
                                ctx.expect(np.array_equal(np.load(os.path.join(d, s + ".npy")), PATTERNS[e[0]]),
                                           "history:lost", "pattern %s overwritten after its metadata was deleted" % s, tr)
                        ctx.traces += 1
                    ctx.expect(snapshot(d) == after, "load-writes", "loading changed the directory", tr)
                    ctx.outcome(sorted(mod))
                    nxt.append((after, tuple(l0.index), tuple(l1.index), mod, tr))
            frontier = nxt
        if frontier:
            ctx.sample({"history": frontier[-1][4], "entries": sorted(frontier[-1][3])})
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- crash points
class Killed(BaseException):
    pass


class Disk:
    """interposes on the file operations below one directory; operation `at` fails"""

    def __init__(self, d, at, mode):
        self.d, self.at, self.mode, self.n, self.dead = os.path.realpath(d), at, mode, 0, False
        self.log = []

    def mine(self, p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(self.d + os.sep)
        except TypeError:
            return False

    def step(self, what, partial=None):
        if self.dead:
            raise Killed()
        k = self.n
        self.n += 1
        self.log.append(what)
        if k == self.at:
            if self.mode == "error":
                raise OSError(28, "No space left on device")
            if partial is not None and self.mode != "kill0":
                partial(self.mode)
            self.dead = True
            raise Killed()

    def __enter__(self):
        self.saved = {"open": builtins.open, "ioopen": io.open}
        disk = self

        class F:
            """unbuffered stand-in for a file opened for writing"""

            def __init__(self, path, mode, kw):
                self.f = disk.saved["open"](path, mode.replace("t", ""), **kw)
                self.path, self.mode, self.name = path, mode, self.f.name

            def write(self, b):
                def part(how):
                    self.f.write(b if how == "killall" else b[:len(b) // 2])
                    self.f.flush()
                disk.step("write", part)
                r = self.f.write(b)
                self.f.flush()
                return r

            def writelines(self, ls):
                for x in ls:
                    self.write(x)

            def flush(self):
                pass

            def close(self):
                if not self.f.closed:
                    self.f.close()
                    if not disk.dead:
                        disk.step("close")

            def fileno(self):
                return self.f.fileno()

            def tell(self):
                return self.f.tell()

            def seek(self, *a):
                return self.f.seek(*a)

            def truncate(self, *a):
                disk.step("truncate")
                return self.f.truncate(*a)

            closed = property(lambda s: s.f.closed)

            def writable(self):
                return True

            def readable(self):
                return False

            def seekable(self):
                return True

            def __enter__(self):
                return self

            def __exit__(self, t, v, tb):
                if t is not None and not disk.dead:
                    self.f.close()
                else:
                    self.close()

        def opener(file, mode="r", *a, **kw):
            names = ("buffering", "encoding", "errors", "newline", "closefd", "opener")
            kw.update(dict(zip(names, a)))
            if any(c in mode for c in "wax+") and not isinstance(file, int) and disk.mine(file):
                disk.step("open", lambda how: disk.saved["open"](file, mode, **kw).close())
                return F(file, mode, kw)
            return disk.saved["open"](file, mode, **kw)

        builtins.open = opener
        io.open = opener
        for fn in ("rename", "replace", "remove", "unlink", "link", "symlink", "mkdir", "rmdir"):
            self.saved[fn] = getattr(os, fn)

            def op(*a, _fn=fn, **kw):
                if disk.mine(a[-1]) or disk.mine(a[0]):
                    disk.step(_fn, lambda how: disk.saved[_fn](*a, **kw))
                return disk.saved[_fn](*a, **kw)
            setattr(os, fn, op)
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.saved["open"], self.saved["ioopen"]
        for fn in ("rename", "replace", "remove", "unlink", "link", "symlink", "mkdir", "rmdir"):
            setattr(os, fn, self.saved[fn])


def run_crash(unit, ctx):
    base = tempfile.mkdtemp(prefix="yuca-z01-")
    try:
        setups = {"empty": [], "one": [("a", "p", "m")], "prefix": [("a", "p", "m"), ("a0", "q", "n"), ("a", "q", "o")]}

        def crash(files, model, name, pat, meta, at, mode, trace, level):
            """one faulty store from this directory; returns True when operation `at` existed"""
            rebuild(base, files)
            l = lib(base)
            disk = Disk(base, at, mode)
            outcome = "done"
            with disk:
                try:
                    l.store(PATTERNS[pat].copy(), name, **META[meta])
                except Killed:
                    outcome = "killed"
                except OSError:
                    outcome = "error"
                except Exception as e:
                    outcome = "other:" + type(e).__name__
            if disk.n <= at:
                return False
            ctx.transitions += 1
            left = snapshot(base)
            ctx.outcome((outcome, disk.log[-1]))
            tr = trace + [("store", name, pat, meta, "operation %d (%s) %s" % (at, disk.log[at], mode))]
            for n in files:
                if n[:-4] in model:
                    ctx.expect(left.get(n) == files[n], "crash:earlier-entry",
                               lambda: "a store that %s at %s damaged %s" % (outcome, disk.log[at], n), tr)
            ctx.visit(sorted(left.items()))
            with ctx.guard("crash:reopen", tr):
                l = lib(base)
            ctx.expect(set(model) <= set(l.index), "crash:index", lambda: "index after the crash %s" % l.index, tr)
            for s, e in model.items():
                with ctx.guard("crash:load", tr):
                    check_entry(ctx, l, s, e, "crash", tr)
            for name2 in ("a", "a0", "b"):                   # and go on
                rebuild(base, left)
                l = lib(base)
                stem = store_and_find(ctx, base, l, name2, "r", "n", model, "after-crash", tr + [("store", name2, "r", "n")])
                if stem is None:
                    continue
                mod = dict(model)
                mod[stem] = ("r", "n", True)
                for s, e in mod.items():
                    with ctx.guard("after-crash:load", tr):
                        check_entry(ctx, l, s, e, "after-crash", tr)
                l.update_index()
                ctx.expect(set(mod) <= set(l.index), "after-crash:index", lambda: "index %s" % l.index, tr)
                ctx.traces += 1
            if level > 1:
                for mode2 in unit["modes"]:
                    for at2 in itertools.count():
                        if not crash(left, model, name, "q", "m", at2, mode2, tr, level - 1):
                            break
            return True

        rebuild(base, {})
        model, tr = {}, []
        l = lib(base)
        for name, p, m in setups[unit["setup"]]:
            stem = store_and_find(ctx, base, l, name, p, m, model, "setup", tr)
            if stem is None:
                return
            model[stem] = (p, m, True)
            tr.append(("store", name, p, m))
        files = snapshot(base)
        for name in ("a", "a0"):
            for meta in ("m", "n"):
                for mode in unit["modes"]:
                    for at in range(unit["maxops"]):
                        if not crash(files, model, name, "p", meta, at, mode, tr, unit["level"]):
                            break
        ctx.sample({"setup": unit["setup"], "crash states": ctx.states})
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- metadata
TEXTS = ["plain", "with,comma", 'say "hi", twice', "two\nlines", "entry_point,fake", "notes, fake\nca_config,other.npy",
         "caf\u00e9 \u2603", "", "a;b\tc", "'quoted'", "trailing,", ",leading", '"']


def run_meta(unit, ctx):
    d = tempfile.mkdtemp(prefix="yuca-z01-")
    try:
        verbose = unit["verbose"]
        PATTERNS["x"] = np.ones((1, 1, 2, 2), dtype=np.float32)

        def case(kw, tr):
            rebuild(d, {})
            META["x"] = kw
            l = lib(d, verbose)
            ctx.transitions += 1
            stem = store_and_find(ctx, d, l, "pat", "x", "x", {}, "meta", tr)
            if stem is not None:
                with ctx.guard("meta:load", tr):
                    check_entry(ctx, lib(d, verbose), stem, ("x", "x"), "meta", tr)
                ctx.visit(sorted(snapshot(d).items()))
                ctx.traces += 1

        fields = unit["fields"]
        for combo in itertools.product(TEXTS, repeat=len(fields)):
            kw = dict(zip(fields, combo))
            case(kw, [("store", kw)])
        for names in itertools.product((None, "unspecified", "x.npy"), (None, "unspecified", "y.npy"), (None, "n"), (None, "h")):
            kw = {k: v for k, v in zip(("config_name", "ca_config", "notes", "commit_hash"), names) if v is not None}
            case(kw, [("store", kw)])
        # names, shapes and types: every one is indexed and loads bit for bit
        rebuild(d, {})
        model = {}
        META["x"] = {}
        l = lib(d, verbose)
        for name in ("a", "a0", "a00", "csv", "csv_like", "x.py", "py", "my.ipynb.note", "with space", "__pycache__x", "dot.ted",
                     "caf\u00e9", "npy", ".npyx"):
            for k, arr in enumerate((np.zeros((1, 1, 3, 3)), np.float32([[0.1, 0.2]]), np.arange(5), np.array(3.5),
                                     np.asfortranarray(np.arange(6.).reshape(2, 3)), np.ones((0, 2)), np.array([True, False]))):
                PATTERNS["x"] = arr
                tr = [("store", name, str(arr.dtype), list(arr.shape))]
                stem = store_and_find(ctx, d, l, name, "x", "x", model, "name", tr)
                ctx.transitions += 1
                if stem is None:
                    continue
                model[stem] = arr
                with ctx.guard("name:load", tr):
                    check_entry(ctx, l, stem, ("x", "x"), "name", tr)
        for s, arr in model.items():
            ctx.expect(np.array_equal(l.load(s)[0], arr), "name:final", "entry %s changed" % s, None)
        l.update_index()
        ctx.expect(sorted(l.index) == sorted(model), "name:index", lambda: "missing from the index: %s, extra: %s" % (
            sorted(set(model) - set(l.index)), sorted(set(l.index) - set(model))), None)
        # many entries of one name: from the first on, and around the change of width of the number
        for first, count in ((0, unit["many"]), (97, 6), (995, 9)):
            many(ctx, d, verbose, first, count)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def many(ctx, d, verbose, first, count):
    if True:
        rebuild(d, {})
        l = lib(d, verbose)
        l.store(np.array([-1.0]), "m")
        files = snapshot(d)
        for i in range(1, first):           # earlier entries, put there as copies
            for n, data in files.items():
                with open(os.path.join(d, n.replace("000", "%03d" % i)), "wb") as f:
                    f.write(data)
        if not first:
            rebuild(d, {})
        model = {n[:-4]: -1.0 for n in os.listdir(d) if n.endswith(".npy")}
        META["x"] = {}
        for i in range(count):
            PATTERNS["x"] = np.array([float(i)])
            before = set(os.listdir(d))
            with ctx.guard("many", [first, i]):
                l.store(PATTERNS["x"], "m")
            new = [n for n in os.listdir(d) if n not in before and n.endswith(".npy")]
            ctx.transitions += 1
            if not ctx.expect(len(new) == 1, "many:new", lambda: "store number %d created %s" % (i, new), [i]):
                continue
            model[new[0][:-4]] = float(i)
        with ctx.guard("many", [first, count]):
            for s, v in model.items():
                ctx.expect(l.load(s)[0][0] == v, "many:lost", "entry %s was overwritten" % s, None)
            l.update_index()
            ctx.expect(list(l.index) == sorted(model), "many:index", "index is not the sorted list of entries", None)


def units(tier, seed):
    th = tier == "thorough"
    us = []
    for names in (["a", "a0"], ["a", "b"], ["a0", "a00"], ["a1", "a"]):
        us.append(dict(kind="hist", names=names, stores=[["p", "m"], ["q", "n"]], depth=5 if th else 4))
        us.append(dict(kind="hist", names=names, stores=[["p", "m"]], depth=6 if th else 5))
    for s in ("empty", "one", "prefix"):
        for modes in (["error"], ["kill0", "killhalf", "killall"]):
            us.append(dict(kind="crash", setup=s, modes=modes, maxops=60, level=2 if th else 1))
    for v in (False, True):
        for f in (["notes", "entry_point"], ["config_name", "notes"], ["commit_hash", "notes"], ["ca_config", "entry_point"]):
            us.append(dict(kind="meta", verbose=v, fields=f, many=1010 if th else 130))
    us += [dict(kind="crop", size=sz, lead=[[], [1, 1], [2, 1], [1, 4]], dtype=t) for sz in (([4, 5], [3, 6], [7, 7]) if th else ([4, 5],)) for t in ("float64", "float32")]
    return us


def run_crop(unit, ctx):
    """every window of a pattern: the cells of that window, in a new array"""
    import itertools
    with contextlib.redirect_stdout(io.StringIO()), tempfile.TemporaryDirectory(prefix="yuca-mc-") as d:
        with ctx.guard("crop", dict(unit)):
            l = lib(d)
        h, w = unit["size"]
        for lead in unit["lead"]:
            base = np.mod(np.arange(int(np.prod(lead + [h, w])), dtype=float) * 0.6180339887, 1.0).reshape(lead + [h, w]).astype(unit["dtype"])
            for r0, r1, c0, c1 in itertools.product(range(h + 1), range(h + 1), range(w + 1), range(w + 1)):
                if r0 >= r1 or c0 >= c1:
                    continue
                tr = dict(unit, rows=(r0, r1), columns=(c0, c1), leading=lead)
                p = base.copy()
                with suppress(Skip), ctx.guard("crop", tr):
                    o = l.crop(p, (r0, r1), (c0, c1))
                    ctx.transitions += 1
                    ctx.visit((tuple(lead), r0, r1, c0, c1))
                    want = [[base[i + (r, c)] for c in range(c0, c1)] for i in np.ndindex(*lead) for r in range(r0, r1)]
                    ctx.expect(tuple(o.shape) == tuple(lead) + (r1 - r0, c1 - c0) and np.array_equal(np.asarray(o).reshape(-1, c1 - c0), np.array(want)), "crop:cells",
                               lambda: "rows %d:%d, columns %d:%d of a %s pattern are cropped to shape %s, %s" % (r0, r1, c0, c1, base.shape, o.shape, np.ravel(o)[:8]), tr)
                    o[...] = 7
                    ctx.expect(np.array_equal(p, base), "crop:shared", "writing to the cropped pattern changed the original", tr)
                ctx.traces += 1


def run_unit(unit, ctx):
    {"crop": run_crop, "hist": run_histories, "crash": run_crash, "meta": run_meta}[unit["kind"]](unit, ctx)
