"""Simulated MPI: every rank is a thread, exactly one runs at a time; the k-th communication of all ranks must match."""
import copy, threading, types, sys
import numpy as np
from . import core
from .core import Control


class SpmdError(Exception):
    """mismatched or unfinished communication between ranks"""


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


def _add(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a + b
    return a + b


SUM = Op("SUM", _add)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else (a if a >= b else b))
MIN = Op("MIN", lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else (a if a <= b else b))
LOR = Op("LOR", lambda a, b: a or b)
LAND = Op("LAND", lambda a, b: a and b)


class _InPlace:
    pass


IN_PLACE = _InPlace()


def make_MPI(comm):
    m = types.ModuleType("mpi4py.MPI")
    m.COMM_WORLD = comm
    m.COMM_SELF = SerialComm()
    m.SUM, m.PROD, m.MAX, m.MIN, m.LOR, m.LAND, m.IN_PLACE = SUM, PROD, MAX, MIN, LOR, LAND, IN_PLACE
    for n in ("DOUBLE", "COMPLEX", "DOUBLE_COMPLEX", "C_DOUBLE_COMPLEX", "INT", "LONG", "INT64_T", "FLOAT", "BYTE", "CHAR"):
        setattr(m, n, n)
    m.ANY_SOURCE, m.ANY_TAG = -1, -1
    m.Wtime = __import__("time").time
    m.Get_processor_name = lambda: "node"
    m.Status = lambda: None
    m.Comm = m.Intracomm = object
    return m


def unbuf(b):
    if isinstance(b, (list, tuple)) and len(b) >= 1 and isinstance(b[0], np.ndarray):
        return b[0]
    return b


def put(dst, src):
    dst = unbuf(dst)
    src = np.asarray(unbuf(src))
    if not isinstance(dst, np.ndarray):
        raise TypeError("message: expecting a buffer")
    if src.size > dst.size:
        raise SpmdError("message truncated: sent %d items, room for %d" % (src.size, dst.size))
    if src.size == dst.size:
        dst[...] = src.reshape(dst.shape)
    else:
        dst.reshape(-1)[:src.size] = src.reshape(-1)


def snap(b):
    b = unbuf(b)
    if not isinstance(b, np.ndarray):
        raise TypeError("message: expecting a buffer")
    return b.copy()


class Base:
    name = "MPI_COMM_WORLD"

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _copy(self, x):
        return rank_copy(x, self)

    # object collectives
    def bcast(self, obj=None, root=0):
        vals = self._coll("bcast", root, obj if self.rank == root else None)
        return self._copy(vals[root]) if self.rank != root else obj

    def gather(self, sendobj, root=0):
        vals = self._coll("gather", root, sendobj)
        return [self._copy(v) for v in vals] if self.rank == root else None

    def allgather(self, sendobj):
        return [self._copy(v) for v in self._coll("allgather", None, sendobj)]

    def scatter(self, sendobj=None, root=0):
        vals = self._coll("scatter", root, sendobj if self.rank == root else None)
        s = vals[root]
        if len(s) != self.size:
            raise ValueError("expecting %d items, got %d" % (self.size, len(s)))
        return self._copy(list(s)[self.rank])

    def alltoall(self, sendobj):
        vals = self._coll("alltoall", None, list(sendobj))
        return [self._copy(v[self.rank]) for v in vals]

    def _red(self, vals, op):
        r = self._copy(vals[0])
        for v in vals[1:]:
            v = self._copy(v)
            r = op.f(r, v) if isinstance(op, Op) else op(r, v)
        return r

    def reduce(self, sendobj, op=SUM, root=0):
        vals = self._coll("reduce", (root, getattr(op, "name", "fn")), sendobj)
        return self._red(vals, op) if self.rank == root else None

    def allreduce(self, sendobj, op=SUM):
        return self._red(self._coll("allreduce", getattr(op, "name", "fn"), sendobj), op)

    def scan(self, sendobj, op=SUM):
        return self._red(self._coll("scan", op.name, sendobj)[:self.rank + 1], op)

    def exscan(self, sendobj, op=SUM):
        v = self._coll("exscan", op.name, sendobj)[:self.rank]
        return self._red(v, op) if v else None

    def barrier(self):
        self._coll("barrier", None, None)
    Barrier = barrier

    # buffer collectives
    def Bcast(self, buf, root=0):
        vals = self._coll("Bcast", root, snap(buf))
        if vals[root].size != vals[self.rank].size:
            raise SpmdError("Bcast buffer sizes differ: %d, %d" % (vals[root].size, vals[self.rank].size))
        if self.rank != root:
            put(buf, vals[root])

    def _Red(self, vals, op):
        r = vals[0]
        for v in vals[1:]:
            if v.size != r.size:
                raise SpmdError("reduction buffer sizes differ")
            r = op.f(r, v)
        return r

    def Reduce(self, sendbuf, recvbuf=None, op=SUM, root=0):
        s = snap(recvbuf if isinstance(sendbuf, _InPlace) else sendbuf)
        vals = self._coll("Reduce", (root, op.name), s)
        if self.rank == root:
            put(recvbuf, self._Red(vals, op))

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s = snap(recvbuf if isinstance(sendbuf, _InPlace) else sendbuf)
        put(recvbuf, self._Red(self._coll("Allreduce", op.name, s), op))

    def Gather(self, sendbuf, recvbuf=None, root=0):
        vals = self._coll("Gather", root, snap(sendbuf))
        if self.rank == root:
            put(recvbuf, np.concatenate([v.reshape(-1) for v in vals]))

    def Allgather(self, sendbuf, recvbuf):
        if isinstance(sendbuf, _InPlace):
            n = unbuf(recvbuf).size // self.size
            sendbuf = unbuf(recvbuf).reshape(-1)[self.rank * n:(self.rank + 1) * n]
        vals = self._coll("Allgather", None, snap(sendbuf))
        put(recvbuf, np.concatenate([v.reshape(-1) for v in vals]))

    def Scatter(self, sendbuf, recvbuf, root=0):
        vals = self._coll("Scatter", root, snap(sendbuf) if self.rank == root else None)
        n = unbuf(recvbuf).size
        put(recvbuf, vals[root].reshape(-1)[self.rank * n:(self.rank + 1) * n])

    def Dup(self):
        return self

    def Free(self):
        pass

    def Abort(self, code=1):
        raise SpmdError("Abort called")


class SerialComm(Base):
    rank, size = 0, 1

    def _coll(self, name, key, val):
        return [val]

    def send(self, *a, **k):
        raise SpmdError("send on a single rank")
    recv = Send = Recv = isend = irecv = send


def rank_copy(x, comm):
    t = type(x)
    if t is RankSet or t is RankFrozen:
        r = t(set.__iter__(x) if t is RankSet else frozenset.__iter__(x))
        if t is RankSet:
            r.desc = comm.rank % 2 == 1
            return r
        return RankFrozen.mk(r, comm.rank % 2 == 1)
    if t is list:
        return [rank_copy(v, comm) for v in x]
    if t is tuple:
        return tuple(rank_copy(v, comm) for v in x)
    if t is dict:
        return {rank_copy(k, comm) if type(k) in (tuple, RankFrozen) else k: rank_copy(v, comm) for k, v in x.items()}
    return copy.deepcopy(x)


class SimComm(Base):
    def __init__(self, sim, rank):
        self.sim, self.rank, self.size = sim, rank, sim.size

    def _coll(self, name, key, val):
        if name[0].islower():
            val = copy.deepcopy(val)      # contents at the time of the call
        return self.sim.collective(self.rank, name, key, val)

    def send(self, obj, dest, tag=0):
        self.sim.send(self.rank, dest, tag, copy.deepcopy(obj))

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return rank_copy(self.sim.recv(self.rank, source, tag), self)

    def isend(self, obj, dest, tag=0):
        self.sim.post(self.rank, dest, tag, copy.deepcopy(obj))
        return Request(lambda: None)

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(lambda: self.recv(None, source, tag))

    def Send(self, buf, dest, tag=0):
        self.sim.send(self.rank, dest, tag, snap(buf))

    def Recv(self, buf, source=-1, tag=-1, status=None):
        put(buf, self.sim.recv(self.rank, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        self.sim.post(self.rank, dest, sendtag, copy.deepcopy(sendobj))
        return self.recv(None, source, recvtag)


class Request:
    def __init__(self, f):
        self.f, self.done, self.v = f, False, None

    def wait(self, status=None):
        if not self.done:
            self.v, self.done = self.f(), True
        return self.v
    Wait = wait

    def test(self):
        return True, self.wait()


class _Kill(Control):
    pass


class Sim:
    """runs fn(rank, comm) on every rank; sequential baton scheduling"""

    def __init__(self, size, order=None):
        self.size = size
        self.order = order or list(range(size))

    def run(self, fn):
        n = self.size
        self.comms = [SimComm(self, r) for r in range(n)]
        self.state = ["new"] * n       # new, ready, blocked, done
        self.wait = [None] * n
        self.result = [None] * n
        self.exc = [None] * n
        self.resume = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.coll_seq = [0] * n
        self.queues = {}
        self.kill = False
        threads = []
        old = threading.stack_size(64 * 1024 * 1024) if False else None
        prof = sys.getprofile()

        def body(r):
            self.resume[r].acquire()
            if self.kill:
                self.state[r] = "done"
                self.back.release()
                return
            if prof:
                sys.setprofile(prof)
            try:
                self.result[r] = fn(r, self.comms[r])
            except _Kill:
                pass
            except BaseException as e:
                self.exc[r] = e
            finally:
                sys.setprofile(None)
            self.state[r] = "done"
            self.back.release()
        for r in range(n):
            t = threading.Thread(target=body, args=(r,), daemon=True)
            t.start()
            threads.append(t)
        err = None
        try:
            while True:
                prog = False
                for r in self.order:
                    if self.state[r] in ("new", "ready"):
                        prog = True
                        self.state[r] = "run"
                        self.resume[r].release()
                        self.back.acquire()
                        if self.exc[r] is not None and isinstance(self.exc[r], Control):
                            raise self.exc[r]
                        self.match()
                if all(s == "done" for s in self.state):
                    for r in range(n):
                        if self.exc[r] is not None:
                            raise self.exc[r]
                    break
                if not prog:
                    # nobody can run
                    for r in range(n):
                        if self.exc[r] is not None:
                            raise self.exc[r]
                    raise SpmdError("deadlock: " + "; ".join("rank %d %s" % (r, self.wait[r][:3] if self.wait[r] else self.state[r]) for r in range(n)))
                for r in range(n):
                    if self.exc[r] is not None:
                        # other ranks may still have to be unwound
                        raise self.exc[r]
        finally:
            self.kill = True
            for r in range(n):
                while self.state[r] != "done":
                    self.resume[r].release()
                    self.back.acquire()
            for t in threads:
                t.join(5)
        left = {k: v for k, v in self.queues.items() if v}
        if left:
            raise SpmdError("message never received: %s" % list(left)[:2])
        return self.result

    def block(self, r, what):
        self.wait[r] = what
        self.state[r] = "blocked"
        self.back.release()
        self.resume[r].acquire()
        if self.kill:
            raise _Kill()
        w = self.wait[r]
        self.wait[r] = None
        return w

    def collective(self, r, name, key, val):
        w = self.block(r, ("coll", name, key, val))
        return w[1]

    def send(self, r, dest, tag, obj):
        if not 0 <= dest < self.size:
            raise SpmdError("invalid destination %r" % (dest,))
        self.block(r, ("send", dest, tag, obj))

    def post(self, r, dest, tag, obj):
        self.queues.setdefault((r, dest), []).append((tag, obj))

    def recv(self, r, source, tag):
        if not (-1 <= source < self.size):
            raise SpmdError("invalid source %r" % (source,))
        w = self.block(r, ("recv", source, tag, None))
        return w[1]

    def match(self):
        n = self.size
        changed = True
        while changed:
            changed = False
            # point to point (sends are synchronous)
            for r in range(n):
                w = self.wait[r]
                if self.state[r] == "blocked" and w[0] == "recv":
                    srcs = [w[1]] if w[1] >= 0 else range(n)
                    for s in srcs:
                        q = self.queues.get((s, r), [])
                        hit = [k for k, (t, _) in enumerate(q) if w[2] in (-1, t)]
                        if hit:
                            t, o = q.pop(hit[0])
                            self.wait[r] = ("ok", o)
                            self.state[r] = "ready"
                            changed = True
                            break
                        ws = self.wait[s]
                        if self.state[s] == "blocked" and ws[0] == "send" and ws[1] == r and w[2] in (-1, ws[2]):
                            self.wait[r] = ("ok", ws[3])
                            self.wait[s] = ("ok", None)
                            self.state[r] = self.state[s] = "ready"
                            changed = True
                            break
            ws = self.wait
            if all(self.state[r] == "blocked" and ws[r][0] == "coll" for r in range(n)):
                keys = {(ws[r][1], ws[r][2]) for r in range(n)}
                if len(keys) != 1:
                    raise SpmdError("ranks call different collectives: %s" % sorted(map(str, keys)))
                vals = [ws[r][3] for r in range(n)]
                for r in range(n):
                    self.wait[r] = ("ok", vals)
                    self.state[r] = "ready"
                changed = True
            elif any(self.state[r] == "done" for r in range(n)) and all(self.state[r] == "done" or (self.state[r] == "blocked" and ws[r][0] == "coll") for r in range(n)) \
                    and any(self.state[r] == "blocked" for r in range(n)):
                for r in range(n):
                    if self.exc[r] is not None:
                        raise self.exc[r]
                b = [r for r in range(n) if self.state[r] == "blocked"][0]
                raise SpmdError("rank %d waits in %s but other ranks have finished" % (b, ws[b][1]))


# ------------------------------------------------------------------ sets whose iteration order differs between ranks
def _order(it, desc):
    xs = list(it)
    try:
        xs.sort()
    except BaseException:
        return xs
    if desc:
        xs.reverse()
    return xs


class RankSet(set):
    desc = False

    def __iter__(self):
        return iter(_order(set.__iter__(self), self.desc))

    def _w(self, s):
        r = RankSet(s)
        r.desc = self.desc
        return r

    def pop(self):
        x = next(iter(self))
        self.discard(x)
        return x

    def copy(self):
        return self._w(set.__iter__(self))

    def __deepcopy__(self, m):
        return self.copy()


class RankFrozen(frozenset):
    desc = False

    @staticmethod
    def mk(s, desc):
        r = RankFrozen(s)
        r.desc = desc
        return r

    def __iter__(self):
        return iter(_order(frozenset.__iter__(self), self.desc))

    def _w(self, s):
        return RankFrozen.mk(s, self.desc)

    def __deepcopy__(self, m):
        return self


for _cls, _b in ((RankSet, set), (RankFrozen, frozenset)):
    for _n in ("union", "intersection", "difference", "symmetric_difference", "__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__"):
        def _mk(n, b):
            f = getattr(b, n)

            def g(self, *a):
                r = f(self, *a)
                return r if r is NotImplemented else self._w(b.__iter__(r) if isinstance(r, b) else r)
            return g
        setattr(_cls, _n, _mk(_n, _b))


def rank_sets(rank):
    d = rank % 2 == 1

    def mkset(*a):
        r = RankSet(*a)
        r.desc = d
        return r

    def mkfroz(*a):
        return RankFrozen.mk(*(a or ((),)), d) if a else RankFrozen.mk((), d)
    return mkset, mkfroz
