"""Explicit-state exploration of message-passing processes running the real code.

Every process is a thread that only ever runs while the controller waits for it; it stops at each
message operation.  Between operations a process is a deterministic function of what it received
(its random generators are swapped in and out with it), so the pair of operation histories and
pending operations identifies a global state; the explorer visits every reachable one by replaying
choice prefixes, in both extreme send semantics (buffered: a send never blocks; synchronous: a send
waits for the matching receive)."""
import hashlib
import pickle
import random
import threading
import numpy as np
import torch

ANY = -1


def canon(o):
    """bytes that identify a message by value (pickles of tensors contain addresses)"""
    if isinstance(o, torch.Tensor):
        return b"T" + repr((tuple(o.shape), str(o.dtype), o.detach().cpu().tolist())).encode()
    if isinstance(o, np.ndarray):
        return b"A" + repr((o.shape, str(o.dtype))).encode() + (o.tobytes() if o.dtype != object else canon(o.tolist()))
    if isinstance(o, dict):
        return b"{" + b",".join(canon(k) + b":" + canon(v) for k, v in o.items()) + b"}"
    if isinstance(o, (list, tuple)):
        return b"[" + b",".join(canon(x) for x in o) + b"]"
    return repr(o).encode()


class Killed(BaseException):
    pass


class Proc:
    def __init__(self, idx, fn, ctl):
        self.idx, self.fn, self.ctl = idx, fn, ctl
        self.go = threading.Semaphore(0)
        self.req = None
        self.reply = None
        self.done = False
        self.kill = False
        self.err = None
        self.result = None
        self.hist = b""
        self.rng = None
        self.thread = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        self.go.acquire()
        try:
            if not self.kill:
                self.result = self.fn(self)
        except Killed:
            pass
        except BaseException as e:      # noqa
            import traceback
            self.err = (e, traceback.format_exc())
        self.done = True
        self.req = None
        self.ctl.release()

    def op(self, req):
        self.req = req
        self.ctl.release()
        self.go.acquire()
        if self.kill:
            raise Killed()
        return self.reply


class FakeComm:
    """the part of an MPI communicator a program with point-to-point messages uses"""

    def __init__(self, proc, size):
        self._p, self._n = proc, size
        self.rank, self.size = proc.idx, size

    def Get_size(self):
        return self._n

    def Get_rank(self):
        return self._p.idx

    def send(self, obj, dest, tag=0):
        if not 0 <= dest < self._n:
            raise ValueError("MPI_ERR_RANK: invalid rank %s" % dest)
        self._p.op(("send", int(dest), int(tag), pickle.dumps(obj)))

    ssend = send
    bsend = send

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        if source != ANY and not 0 <= source < self._n:
            raise ValueError("MPI_ERR_RANK: invalid rank %s" % source)
        src, t, data = self._p.op(("recv", int(source), int(tag)))
        if status is not None:
            status.source, status.tag = src, t
            try:
                status.Get_source = lambda: src
                status.Get_tag = lambda: t
            except AttributeError:
                pass
        return pickle.loads(data)

    def isend(self, obj, dest, tag=0):
        if not 0 <= dest < self._n:
            raise ValueError("MPI_ERR_RANK: invalid rank %s" % dest)
        self._p.op(("isend", int(dest), int(tag), pickle.dumps(obj)))

        class R:
            def wait(self, status=None):
                return None

            def test(self, status=None):
                return (True, None)
        return R()

    def Barrier(self):
        if self._p.idx == 0:
            for i in range(1, self._n):
                self.recv(source=i, tag=-77)
            for i in range(1, self._n):
                self.send(None, i, tag=-78)
        else:
            self.send(None, 0, tag=-77)
            self.recv(source=0, tag=-78)

    barrier = Barrier

    def bcast(self, obj, root=0):
        if self._p.idx == root:
            for i in range(self._n):
                if i != root:
                    self.send(obj, i, tag=-79)
            return obj
        return self.recv(source=root, tag=-79)

    def scatter(self, objs, root=0):
        if self._p.idx == root:
            for i in range(self._n):
                if i != root:
                    self.send(objs[i], i, tag=-80)
            return objs[root]
        return self.recv(source=root, tag=-80)

    def gather(self, obj, root=0):
        if self._p.idx == root:
            return [obj if i == root else self.recv(source=i, tag=-81) for i in range(self._n)]
        self.send(obj, root, tag=-81)


def rng_get():
    return np.random.get_state(), torch.get_rng_state(), random.getstate()


def rng_set(s):
    np.random.set_state(s[0])
    torch.set_rng_state(s[1])
    random.setstate(s[2])


class Execution:
    def __init__(self, fns, rendezvous):
        self.ctl = threading.Semaphore(0)
        self.rv = rendezvous
        self.procs = [Proc(i, f, self.ctl) for i, f in enumerate(fns)]
        self.chan = {}          # (src, dst) -> list of (tag, payload)
        self.base = rng_get()
        self.ops = 0
        for p in self.procs:
            p.thread.start()

    def resume(self, p):
        rng_set(p.rng if p.rng is not None else self.base)
        p.go.release()
        self.ctl.acquire()
        p.rng = rng_get()

    def start(self):
        for p in self.procs:
            self.resume(p)

    def match(self, p):
        """for a pending receive: candidate (source, position) pairs; per source the oldest matching message"""
        _, src, tag = p.req
        out = []
        for s in ([src] if src != ANY else range(len(self.procs))):
            for k, (t, _) in enumerate(self.chan.get((s, p.idx), [])):
                if tag in (ANY, t):
                    out.append((s, k))
                    break
        return out

    def enabled(self):
        """list of choices; a choice is (process, what)"""
        out = []
        for p in self.procs:
            if p.done or p.req is None:
                continue
            if p.req[0] in ("send", "isend"):
                if not self.rv or p.req[0] == "isend":
                    out.append((p.idx, "send"))
                else:
                    q = self.procs[p.req[1]]
                    if q.req is not None and q.req[0] == "recv" and q.req[1] in (ANY, p.idx) and q.req[2] in (ANY, p.req[2]) \
                            and not self.chan.get((p.idx, q.idx)):
                        out.append((p.idx, "sync"))
            else:
                for s, k in self.match(p):
                    out.append((p.idx, ("recv", s, k)))
        return out

    def note(self, p, x):
        p.hist = hashlib.blake2b(p.hist + x, digest_size=16).digest()

    def do(self, c):
        self.ops += 1
        p = self.procs[c[0]]
        if c[1] == "send":
            _, dst, tag, data = p.req
            self.chan.setdefault((p.idx, dst), []).append((tag, data))
            p.reply = None
            self.note(p, b"s")
            self.resume(p)
        elif c[1] == "sync":
            _, dst, tag, data = p.req
            q = self.procs[dst]
            p.reply = None
            q.reply = (p.idx, tag, data)
            self.note(p, b"s")
            self.note(q, b"r%d" % p.idx + canon(pickle.loads(data)))
            q.req = p.req = None
            self.resume(p)
            self.resume(q)
        else:
            _, s, k = c[1]
            tag, data = self.chan[(s, p.idx)].pop(k)
            p.reply = (s, tag, data)
            self.note(p, b"r%d" % s + canon(pickle.loads(data)))
            self.resume(p)

    def key(self):
        return tuple((p.hist, p.done, p.req[:3] if p.req else None) for p in self.procs)

    def close(self):
        for p in self.procs:
            if not p.done:
                p.kill = True
                p.go.release()
                self.ctl.acquire()
        for p in self.procs:
            p.thread.join()


def explore(make, rendezvous, on_end, on_state=None, limit=None, order=None):
    """make() -> list of process functions.  on_end(execution, trace, status) for every maximal run,
    status in done/deadlock/error.  order: None = all schedules, else a function choosing one."""
    seen, stack = set(), [[]]
    runs = states = transitions = 0
    complete = True
    while stack:
        prefix = stack.pop()
        ex = Execution(make(), rendezvous)
        trace = []
        try:
            ex.start()
            runs += 1
            while True:
                err = [p for p in ex.procs if p.err]
                if err:
                    on_end(ex, trace, "error")
                    break
                en = ex.enabled()
                if len(trace) < len(prefix):
                    c = prefix[len(trace)]
                else:
                    k = ex.key()
                    if k in seen:
                        break
                    seen.add(k)
                    states += 1
                    if on_state:
                        on_state(k)
                    if not en:
                        on_end(ex, trace, "done" if all(p.done for p in ex.procs) else "deadlock")
                        break
                    if order is not None:
                        c = order(en, trace)
                    else:
                        c = en[0]
                        for alt in en[1:]:
                            stack.append(trace + [alt])
                trace.append(c)
                ex.do(c)
                transitions += 1
        finally:
            ex.close()
        if limit and runs >= limit:
            complete = not stack
            break
    return {"runs": runs, "states": states, "transitions": transitions, "complete": complete}
