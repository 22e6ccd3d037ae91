"""
A message passing world inside one process: every rank is a thread, exactly one of them runs at a time, and a scheduler driven by a
random source decides after every call who goes on and which pending network event happens. Data of a non-blocking send are taken from
the buffer of the sender at any moment until its request completes; a posted receive buffer holds rubbish until its request completes.
"""
import contextlib
import copy
import importlib.util
import os
import pickle
import sys
import threading
import types

import numpy as np


class Failure(Exception):
    """The program breaks the rules of message passing or cannot go on."""


class Abort(BaseException):
    pass


ANY = -1
_local = threading.local()


def buf_bytes(b):
    """Writable bytes of a buffer specification."""
    if isinstance(b, (list, tuple)):
        b = b[0]
    if b is None:
        return None
    if not isinstance(b, np.ndarray):
        b = np.asarray(b)
    if not b.flags['C_CONTIGUOUS']:
        raise Failure('a buffer that is not contiguous is given to message passing')
    return b.reshape(-1).view(np.uint8)


class Request:
    def __init__(self, world, rank, what):
        self.world, self.rank, self.what, self.done = world, rank, what, False
        self.obj = None

    def Wait(self, status=None):
        self.world.block(self.rank, lambda: self.done, 'wait for ' + self.what)
        return True

    def wait(self, status=None):
        self.Wait()
        return self.obj

    def Test(self, status=None):
        self.world.step(self.rank, 'test')
        return self.done

    test = Test

    def Free(self):
        pass

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for r in requests:
            r.Wait()
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Testall(cls, requests, statuses=None):
        return all([r.Test() for r in requests])

    @classmethod
    def Waitany(cls, requests, status=None):
        rs = [r for r in requests if r is not None]
        w = rs[0].world
        w.block(rs[0].rank, lambda: any(r.done for r in rs), 'wait for any')
        return next(i for i, r in enumerate(requests) if r is not None and r.done)


class Message:
    def __init__(self, req, src, dst, tag, buf, eager):
        self.req, self.src, self.dst, self.tag, self.buf, self.eager = req, src, dst, tag, buf, eager
        self.data = None
        self.recv = None
        self.delivered = False


class Posted:
    def __init__(self, req, src, dst, tag, buf):
        self.req, self.src, self.dst, self.tag, self.buf = req, src, dst, tag, buf
        self.msg = None


class Comm:
    def __init__(self, world, rank):
        self.world, self.rank = world, rank
        self.colls = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.world.n

    size = property(Get_size)

    # Point to point.

    def Isend(self, buf, dest, tag=0):
        w = self.world
        r = Request(w, self.rank, 'send to {0}'.format(dest))
        if not 0 <= dest < w.n:
            raise Failure('send to the wrong rank {0}'.format(dest))
        w.sends.append(Message(r, self.rank, dest, tag, buf_bytes(buf), w.rng.random() < w.eager))
        w.match()
        w.log.append(('isend', self.rank, dest))
        w.step(self.rank, 'isend')
        return r

    Issend = Isend

    def Irecv(self, buf, source=ANY, tag=ANY):
        w = self.world
        r = Request(w, self.rank, 'receive from {0}'.format(source))
        b = buf_bytes(buf)
        b[:] = 0xFF
        w.recvs.append(Posted(r, source, self.rank, tag, b))
        w.match()
        w.log.append(('irecv', self.rank, source))
        w.step(self.rank, 'irecv')
        return r

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    Ssend = Send

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        self.Irecv(buf, source, tag).Wait()

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        a = self.Irecv(recvbuf, source, recvtag)
        b = self.Isend(sendbuf, dest, sendtag)
        a.Wait()
        b.Wait()

    def isend(self, obj, dest, tag=0):
        return self.Isend(np.frombuffer(pickle.dumps(obj), dtype=np.uint8).copy(), dest, tag)

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).Wait()

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        b = np.zeros(1 << 20, dtype=np.uint8)
        self.Recv(b, source, tag)
        return pickle.loads(b.tobytes())

    # Collective.

    def _enter(self, kind, value):
        w = self.world
        k = self.colls
        self.colls += 1
        c = w.collectives.setdefault(k, (kind, {}))
        if c[0] != kind:
            raise Failure('rank {0} calls {1} while others call {2}'.format(self.rank, kind, c[0]))
        c[1][self.rank] = value
        w.log.append((kind, self.rank))
        w.step(self.rank, kind)
        return c[1]

    def _all(self, got, what):
        self.world.block(self.rank, lambda: len(got) == self.world.n, what)

    def Barrier(self):
        self._all(self._enter('barrier', None), 'barrier')

    barrier = Barrier

    def Ibarrier(self):
        got = self._enter('barrier', None)
        w = self.world
        r = Request(w, self.rank, 'barrier')
        w.barriers.append((r, got))
        return r

    def gather(self, sendobj, root=0):
        got = self._enter('gather', pickle.dumps(sendobj))
        if self.rank == root or self.world.rng.random() < 0.3:
            self._all(got, 'gather')
        return [pickle.loads(got[r]) for r in range(self.world.n)] if self.rank == root else None

    def allgather(self, sendobj):
        got = self._enter('allgather', pickle.dumps(sendobj))
        self._all(got, 'allgather')
        return [pickle.loads(got[r]) for r in range(self.world.n)]

    def bcast(self, obj=None, root=0):
        got = self._enter('bcast', pickle.dumps(obj) if self.rank == root else None)
        self.world.block(self.rank, lambda: root in got, 'bcast')
        return pickle.loads(got[root])

    def Gatherv(self, sendbuf, recvbuf=None, root=0):
        got = self._enter('gatherv', buf_bytes(sendbuf).copy())
        if self.rank != root:
            if self.world.rng.random() < 0.3:
                self._all(got, 'gatherv')
            return
        self._all(got, 'gatherv')
        spec = list(recvbuf) if isinstance(recvbuf, (list, tuple)) else [recvbuf]
        arr = spec[0]
        item = arr.dtype.itemsize
        b = buf_bytes(arr)
        counts = displs = None
        rest = [s for s in spec[1:] if s is not None and not isinstance(s, str)]
        if rest and isinstance(rest[0], (tuple, list)) and len(rest[0]) == 2 and np.ndim(rest[0][0]) == 1:
            rest = list(rest[0]) + rest[1:]
        if rest:
            counts = [int(c) for c in np.asarray(rest[0]).reshape(-1)]
        if len(rest) > 1 and np.ndim(rest[1]) == 1:
            displs = [int(c) for c in rest[1]]
        if counts is None:
            counts = [arr.size // self.world.n] * self.world.n
        if displs is None:
            displs = [sum(counts[:k]) for k in range(self.world.n)]
        b[:] = 0xFF
        order = list(range(self.world.n))
        self.world.rng.shuffle(order)
        for r in order:
            d = got[r]
            if len(d) > counts[r] * item:
                raise Failure('gatherv: rank {0} sends {1} bytes, {2} expected'.format(r, len(d), counts[r] * item))
            p = displs[r] * item
            if p + len(d) > len(b):
                raise Failure('gatherv: out of the receive buffer')
            b[p:p + len(d)] = d

    Gather = Gatherv


class World:
    def __init__(self, n, rng, policy='random', eager=0.5):
        self.n, self.rng, self.policy, self.eager = n, rng, policy, eager
        self.sends, self.recvs, self.barriers = [], [], []
        self.collectives = {}
        self.log = []
        self.events = 0
        self.schedule = []
        self.comms = [Comm(self, r) for r in range(n)]
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.cond = [None] * n
        self.what = ['start'] * n
        self.alive = [True] * n
        self.error = None
        self.aborting = False
        self.starved = rng.randrange(n)

    # Called by ranks.

    def step(self, rank, what):
        self.block(rank, None, what)

    def block(self, rank, cond, what):
        self.cond[rank], self.what[rank] = cond, what
        self.main.release()
        self.sems[rank].acquire()
        if self.aborting:
            raise Abort()

    # Network.

    def match(self):
        for m in self.sends:
            if m.recv is None:
                for p in self.recvs:
                    if p.msg is None and p.dst == m.dst and p.src in (ANY, m.src) and p.tag in (ANY, m.tag):
                        m.recv, p.msg = p, m
                        break

    def net(self):
        ev = []
        for m in self.sends:
            if m.data is None and (m.eager or m.recv is not None):
                ev.append(('capture', m))
            if m.data is not None and m.recv is not None and not m.delivered:
                ev.append(('deliver', m))
        for r, got in self.barriers:
            if not r.done and len(got) == self.n:
                ev.append(('barrier', r))
        return ev

    def happen(self, e):
        kind, m = e
        self.events += 1
        if kind == 'capture':
            m.data = m.buf.copy()
            m.req.done = True
        elif kind == 'deliver':
            b = m.recv.buf
            if len(m.data) > len(b):
                raise Failure('the message from {0} to {1} ({2} bytes) is longer than the buffer ({3} bytes)'.format(
                    m.src, m.dst, len(m.data), len(b)))
            b[:len(m.data)] = m.data
            m.delivered = True
            m.recv.req.done = True
        else:
            m.done = True
        self.schedule.append((kind[0],) + ((m.src, m.dst) if kind != 'barrier' else (m.rank,)))

    def pick(self, ready, net):
        p = self.policy
        r = self.rng
        if p == 'net first' and net:
            return r.choice(net)
        if p == 'net last' and ready:
            return r.choice(ready)
        if p == 'deliver late':
            k = [e for e in net if e[0] != 'deliver']
            if ready or k:
                return r.choice(ready + k)
        if p == 'capture late':
            k = [e for e in net if e[0] != 'capture']
            if ready or k:
                return r.choice(ready + k)
        if p == 'starve':
            k = [e for e in ready + net if not (e[0] == 'run' and e[1] == self.starved)]
            if k:
                return r.choice(k)
        if p == 'one by one' and ready:
            return ready[0]
        return r.choice(ready + net)

    def run(self, fns):
        """fns: functions of ranks."""
        def body(r):
            _local.comm = self.comms[r]
            self.sems[r].acquire()
            try:
                if not self.aborting:
                    fns[r]()
            except Abort:
                pass
            except BaseException as e:
                if self.error is None:
                    self.error = e
            finally:
                self.alive[r] = False
                self.main.release()
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.n)]
        for t in ts:
            t.start()
        try:
            while any(self.alive) and self.error is None:
                ready = [('run', r) for r in range(self.n) if self.alive[r] and (self.cond[r] is None or self.cond[r]())]
                net = self.net()
                if not ready and not net:
                    raise Failure('nobody can go on: ' + ', '.join('rank {0} at {1}'.format(r, self.what[r]) for r in range(self.n)
                                                                    if self.alive[r]))
                if len(self.schedule) > 200000:
                    raise Failure('the exchange does not come to an end')
                e = self.pick(ready, net)
                if e[0] == 'run':
                    self.schedule.append(('r', e[1]))
                    self.cond[e[1]] = None
                    self.sems[e[1]].release()
                    self.main.acquire()
                else:
                    self.happen(e)
        finally:
            self.aborting = True
            for r in range(self.n):
                if self.alive[r]:
                    self.sems[r].release()
            for t in ts:
                t.join(10)
        if self.error is not None:
            raise self.error


class _World:
    """COMM_WORLD: the communicator of the calling thread."""

    def __getattr__(self, name):
        return getattr(_local.comm, name)


def fake_modules():
    mpi = types.ModuleType('mpi4py')
    m = types.ModuleType('mpi4py.MPI')
    m.COMM_WORLD = _World()
    m.Request = Request
    m.DOUBLE, m.FLOAT, m.INT = 'd', 'f', 'i'
    m.ANY_SOURCE, m.ANY_TAG = ANY, ANY
    m.SUM = 'sum'
    mpi.MPI = m
    swim = types.ModuleType('swim')
    swim.hi = lambda *a: None
    return {'mpi4py': mpi, 'mpi4py.MPI': m, 'swim': swim}


def load_rank(src, rank, **names):
    """A copy of crys.py for one rank."""
    saved = {k: sys.modules.get(k) for k in ('mpi4py', 'mpi4py.MPI', 'swim')}
    limit, opts, path = sys.getrecursionlimit(), np.get_printoptions(), list(sys.path)
    sys.modules.update(fake_modules() if not hasattr(load_rank, 'fake') else load_rank.fake)
    if not hasattr(load_rank, 'fake'):
        load_rank.fake = {k: sys.modules[k] for k in saved}
    try:
        spec = importlib.util.spec_from_file_location('crys_rank_{0}'.format(rank), os.path.join(src, 'crys.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        sys.setrecursionlimit(limit)
        np.set_printoptions(**{k: v for k, v in opts.items() if k != 'override_repr'})
        sys.path[:] = path
    for k, v in names.items():
        setattr(mod, k, v)
    return mod


_codes = {}


def main_code(src):
    p = os.path.join(src, 'crys.py')
    if p not in _codes:
        with open(p, 'rb') as f:
            _codes[p] = compile(f.read(), p, 'exec')
    return _codes[p]


@contextlib.contextmanager
def fakes(hi):
    """The simulated world is what programs import."""
    saved = {k: sys.modules.get(k) for k in ('mpi4py', 'mpi4py.MPI', 'swim')}
    limit, opts, path = sys.getrecursionlimit(), np.get_printoptions(), list(sys.path)
    mods = fake_modules()
    mods['swim'].hi = hi
    sys.modules.update(mods)
    try:
        yield
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        sys.setrecursionlimit(limit)
        np.set_printoptions(**{k: v for k, v in opts.items() if k != 'override_repr'})
        sys.path[:] = path
