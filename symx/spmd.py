"""MPI ranks as threads with strict hand-over (one runs at a time).

Ranks only interact through collectives, so running them one after the other
up to the next collective explores every schedule.  Mismatched collectives and
ranks left waiting are reported as a hang.  Objects sent between ranks are
copied the way pickling does (classes and functions by qualified name).
"""
import builtins
import pickle
import os
import threading
import traceback
import types

import numpy as np

from . import core
from .core import Control, PathEnd


class Hang(Exception):
    """This rank waits for ever in a collective."""


class Aborted(Exception):
    """comm.Abort() was called."""


class _InPlace:
    def __repr__(self):
        return 'MPI.IN_PLACE'


IN_PLACE = _InPlace()


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


def _max(a, b):
    if core.is_sym(a) or core.is_sym(b):
        return core.smax(a, b)
    return np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)


def _min(a, b):
    if core.is_sym(a) or core.is_sym(b):
        return core.smin(a, b)
    return np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b)


SUM = Op('SUM', lambda a, b: a + b)
PROD = Op('PROD', lambda a, b: a * b)
MAX = Op('MAX', _max)
MIN = Op('MIN', _min)
LAND = Op('LAND', lambda a, b: a and b)
LOR = Op('LOR', lambda a, b: a or b)

_TLS = threading.local()


def transport(x, dst, memo=None):
    """Copy x into the namespace of another rank, like pickle would."""
    if memo is None:
        memo = {}
    if x is None or isinstance(x, (builtins.bool, builtins.int, builtins.float,
                                   str, bytes, complex, np.generic)) \
            or core.is_sym(x):
        return x
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, type) or isinstance(x, types.FunctionType):
        m = x.__module__ or ''
        if m == 'qsonic' or m.startswith('qsonic.'):
            if '<locals>' in x.__qualname__ or '<lambda>' in x.__qualname__:
                raise pickle.PicklingError(f"Can't pickle {x}")
            o = dst.mod(m)
            for p in x.__qualname__.split('.'):
                o = getattr(o, p)
            return o
        return x
    t = type(x)
    m = t.__module__ or ''
    if m == 'qsonic' or m.startswith('qsonic.'):
        c = transport(t, dst, memo)
        o = c.__new__(c)
        memo[id(x)] = o
        o.__dict__.update({k: transport(v, dst, memo)
                           for k, v in x.__dict__.items()})
        if isinstance(x, BaseException):
            o.args = tuple(transport(v, dst, memo) for v in x.args)
        return o
    if t is list:
        o = []
        memo[id(x)] = o
        o.extend(transport(v, dst, memo) for v in x)
        return o
    if t is tuple:
        return tuple(transport(v, dst, memo) for v in x)
    if t is set:
        return {transport(v, dst, memo) for v in x}
    if t is dict:
        o = {}
        memo[id(x)] = o
        for k, v in x.items():
            o[transport(k, dst, memo)] = transport(v, dst, memo)
        return o
    if isinstance(x, types.MethodType):
        return getattr(transport(x.__self__, dst, memo), x.__func__.__name__)
    if hasattr(x, 'copy') and (isinstance(x, np.ndarray)
                               or m.startswith('symx')):
        return x.copy()
    if t.__name__ == 'Namespace':
        return type(x)(**{k: transport(v, dst, memo)
                          for k, v in vars(x).items()})
    if t is object:
        o = object()
        memo[id(x)] = o
        return o
    if callable(getattr(x, '__reduce__', None)) and not isinstance(
            x, types.ModuleType):
        return pickle.loads(pickle.dumps(x))
    raise pickle.PicklingError(f"Can't pickle {t}")


class World:
    def __init__(self, n):
        self.n = n
        self.cv = threading.Condition()
        self.turn = None
        self.post = [None] * n       # pending collective of each rank
        self.reply = [None] * n
        self.done = [False] * n
        self.killed = False
        self.aborted = False
        self.hung = False
        self.loaders = [None] * n
        self.log = []

    def collective(self, rank, kind, args):
        if self.killed:
            raise PathEnd()
        if self.aborted:
            raise Aborted()
        with self.cv:
            self.post[rank] = (kind, args)
            self.reply[rank] = None
            self._next(rank)
            while self.turn != rank and not self.killed:
                self.cv.wait()
            if self.killed:
                raise PathEnd()
            ok, val = self.reply[rank]
            if not ok:
                raise val
            return val

    def _next(self, rank):
        """Give the turn to the next runnable rank (lock held)."""
        for r in range(self.n):
            if not self.done[r] and self.post[r] is None:
                self.turn = r
                self.cv.notify_all()
                return
            if not self.done[r] and self.reply[r] is not None:
                self.post[r] = None
                self.turn = r
                self.cv.notify_all()
                return
        # nobody can run: all done or all waiting
        waiting = [r for r in range(self.n) if not self.done[r]]
        if not waiting:
            self.turn = -1
            self.cv.notify_all()
            return
        kinds = {(self.post[r][0], self.post[r][1].get('root'))
                 for r in waiting}
        if self.aborted:
            for r in waiting:
                self.reply[r] = (False, Aborted())
        elif len(waiting) < self.n or len(kinds) > 1:
            self.hung = True
            why = 'waiting in %s; finished ranks: %s' % (
                sorted({self.post[r][0] for r in waiting}),
                [r for r in range(self.n) if self.done[r]])
            for r in waiting:
                self.reply[r] = (False, Hang(why))
        else:
            try:
                outs = self._perform(self.post[0][0],
                                     [p[1] for p in self.post])
                for r in range(self.n):
                    self.reply[r] = outs[r]
            except Control as e:
                for r in range(self.n):
                    self.reply[r] = (False, e)
            except Exception as e:
                for r in range(self.n):
                    self.reply[r] = (False, e)
        self._next(rank)

    def _perform(self, kind, a):
        n = self.n
        self.log.append(kind)
        root = a[0].get('root')
        L = self.loaders

        def send(x, dst):
            return x if L[dst] is None else transport(x, L[dst])
        if kind == 'barrier':
            return [(True, None)] * n
        if kind == 'bcast':
            x = a[root]['obj']
            return [(True, x if r == root else send(x, r)) for r in range(n)]
        if kind == 'scatter':
            x = a[root]['obj']
            if x is None or len(x) != n:
                raise ValueError(
                    f"expecting {n} items, got {len(x) if x else 0}")
            x = list(x)
            return [(True, send(x[r], r)) for r in range(n)]
        if kind == 'gather':
            return [(True, [send(a[q]['obj'], r) for q in range(n)]
                     if r == root else None) for r in range(n)]
        if kind == 'allgather':
            return [(True, [send(a[q]['obj'], r) for q in range(n)])
                    for r in range(n)]
        if kind in ('reduce', 'allreduce'):
            outs = []
            for r in range(n):
                if kind == 'reduce' and r != root:
                    outs.append((True, None))
                    continue
                op = a[r]['op']
                acc = send(a[0]['obj'], r)
                for q in range(1, n):
                    acc = op(acc, send(a[q]['obj'], r))
                outs.append((True, acc))
            return outs
        if kind in ('Allreduce', 'Reduce'):
            src = [(x['recv'] if x['send'] is IN_PLACE else x['send'])
                   for x in a]
            op = a[0]['op']
            if len({s.size for s in src}) != 1:
                raise Exception('MPI_ERR_TRUNCATE: message truncated')
            acc = src[0].copy()
            for s in src[1:]:
                acc = op(acc, s)
            acc = acc.copy()
            for r in range(n):
                if kind == 'Reduce' and r != root:
                    continue
                a[r]['recv'][...] = acc
            return [(True, None)] * n
        if kind == 'Bcast':
            for r in range(n):
                if r != root:
                    a[r]['recv'][...] = a[root]['recv']
            return [(True, None)] * n
        raise core.EngineLimit(f'MPI {kind}')


class Comm:
    def __init__(self, world, rank):
        self._w, self._r = world, rank

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._w.n

    rank = property(Get_rank)
    size = property(Get_size)

    def _c(self, kind, **a):
        return self._w.collective(self._r, kind, a)

    def bcast(self, obj=None, root=0):
        return self._c('bcast', obj=obj, root=root)

    def scatter(self, sendobj=None, root=0):
        return self._c('scatter', obj=sendobj, root=root)

    def gather(self, sendobj=None, root=0):
        return self._c('gather', obj=sendobj, root=root)

    def allgather(self, sendobj=None):
        return self._c('allgather', obj=sendobj)

    def reduce(self, sendobj=None, op=SUM, root=0):
        return self._c('reduce', obj=sendobj, op=op, root=root)

    def allreduce(self, sendobj=None, op=SUM):
        return self._c('allreduce', obj=sendobj, op=op)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        return self._c('Allreduce', send=sendbuf, recv=recvbuf, op=op)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        return self._c('Reduce', send=sendbuf, recv=recvbuf, op=op, root=root)

    def Bcast(self, buf, root=0):
        return self._c('Bcast', recv=buf, root=root)

    def Barrier(self):
        return self._c('barrier')

    barrier = Barrier

    def Abort(self, code=0):
        self._w.aborted = True
        raise Aborted()


class _WorldProxy:
    """MPI.COMM_WORLD: the communicator of the running rank."""

    def __getattr__(self, name):
        c = getattr(_TLS, 'comm', None)
        if c is None:
            c = Comm(World(1), 0)
            c._w.turn = 0
        return getattr(c, name)


COMM_WORLD = _WorldProxy()


def mpi_module():
    m = types.ModuleType('mpi4py.MPI')
    m.COMM_WORLD = COMM_WORLD
    m.COMM_SELF = COMM_WORLD
    m.IN_PLACE = IN_PLACE
    for o in (SUM, PROD, MAX, MIN, LAND, LOR):
        setattr(m, o.name, o)
    m.Comm = Comm
    m.Op = Op
    pkg = types.ModuleType('mpi4py')
    pkg.MPI = m
    return pkg


class Outcome:
    def __init__(self):
        self.value, self.exc = None, None

    @property
    def ok(self):
        return self.exc is None

    def raised(self, name):
        return self.exc is not None and type(self.exc).__name__ == name

    def __repr__(self):
        return f"Outcome({self.value!r}, {self.exc!r})"


def run(n, loaders, fn):
    """Run fn(comm, rank, loader.mod) on n ranks -> list of Outcome."""
    w = World(n)
    w.loaders = loaders
    outs = [Outcome() for _ in range(n)]
    ctrl = []

    def body(r):
        comm = Comm(w, r)
        _TLS.comm = comm
        with w.cv:
            while w.turn != r and not w.killed:
                w.cv.wait()
        if w.killed:
            return
        try:
            outs[r].value = fn(comm, r, loaders[r].mod)
        except Control as e:
            ctrl.append(e)
            with w.cv:
                w.killed = True
                w.cv.notify_all()
            return
        except SystemExit as e:
            outs[r].exc = e
        except Exception as e:
            outs[r].exc = e
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exc()
        with w.cv:
            w.done[r] = True
            w.post[r] = None
            if not w.killed:
                w._next(r)

    ths = [threading.Thread(target=body, args=(r,), daemon=True)
           for r in range(n)]
    if n == 1:
        w.turn = 0
        old = getattr(_TLS, 'comm', None)
        body(0)
        _TLS.comm = old
    else:
        for t in ths:
            t.start()
        with w.cv:
            w.turn = 0
            w.cv.notify_all()
        for t in ths:
            t.join()
    if ctrl:
        for e in ctrl:
            if not isinstance(e, PathEnd):
                raise e
        raise ctrl[0]
    return outs
