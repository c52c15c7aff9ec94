"""Simulated MPI for crys.py: ranks are threads that hand over to each other only at blocking calls."""
import sys
import threading
import types


def stub_modules():
    m = types.ModuleType('mpi4py')
    m.MPI = types.SimpleNamespace(COMM_WORLD=None, Request=Request, Status=object, ANY_TAG=-1, ANY_SOURCE=-1)
    saved = {n: sys.modules.get(n) for n in ('mpi4py', 'mpi4py.MPI', 'swim')}
    sys.modules['mpi4py'] = m
    sys.modules['mpi4py.MPI'] = m.MPI
    sys.modules['swim'] = types.ModuleType('swim')
    return saved


def unstub(saved):
    for n, v in saved.items():
        if v is None:
            sys.modules.pop(n, None)
        else:
            sys.modules[n] = v


def load_crys(h):
    if 'crys' in sys.modules:
        return sys.modules['crys']
    saved = stub_modules()
    lim = sys.getrecursionlimit()
    try:
        return h.mod('crys')
    finally:
        unstub(saved)
        sys.setrecursionlimit(lim)


def namespace(mod, **k):
    """The functions of the module over their own copy of its globals."""
    ns = dict(mod.__dict__)
    for n, v in list(ns.items()):
        if isinstance(v, types.FunctionType) and v.__globals__ is mod.__dict__:
            ns[n] = types.FunctionType(v.__code__, ns, v.__name__, v.__defaults__, v.__closure__)
    ns.update(k)
    return ns


class World:
    def __init__(self, h, n, per_send=True):
        self.h, self.n = h, n
        self.per_send = per_send
        self.turn = 0
        self.cv = threading.Condition()
        self.done = [False] * n
        self.msgs = []
        self.error = None
        self.nmsg = 0
        self.coll = {}

    # -- scheduling ----------------------------------------------------------------------------
    def run(self, body):
        ts = []
        first = self.h.choice('first', list(range(self.n)))
        self.turn = first
        for r in range(self.n):
            t = threading.Thread(target=self._main, args=(r, body), daemon=True)
            ts.append(t)
            t.start()
        for t in ts:
            t.join()
        if self.error is not None:
            raise self.error

    def _main(self, r, body):
        with self.cv:
            while self.turn != r:
                self.cv.wait()
        try:
            if self.error is None:
                body(r)
        except BaseException as e:   # engine control flow included: it belongs to the main thread
            if self.error is None:
                self.error = e
        with self.cv:
            self.done[r] = True
            self._next(r)

    def _next(self, r):
        for k in range(1, self.n + 1):
            q = (r + k) % self.n
            if not self.done[q]:
                self.turn = q
                self.cv.notify_all()
                return

    def block(self, r, ready):
        """Rank r waits until ready() holds; other ranks run meanwhile."""
        idle = 0
        while True:
            if self.error is not None:
                raise Abort()
            if ready():
                return
            idle += 1
            if idle > 50 * self.n:
                raise RuntimeError('deadlock')
            with self.cv:
                self._next(r)
                while self.turn != r:
                    self.cv.wait()

    def pause(self, r):
        """A point where another rank may run first."""
        with self.cv:
            self._next(r)
            while self.turn != r:
                self.cv.wait()
        if self.error is not None:
            raise Abort()


class Abort(BaseException):
    pass


class Msg:
    def __init__(self, src, dst, buf, tag):
        self.src, self.dst, self.buf, self.tag = src, dst, buf, tag
        self.data = None
        self.taken = False


class Request:
    def __init__(self, comm, kind, msg=None, buf=None, src=None, tag=None):
        self.comm, self.kind, self.msg, self.buf, self.src, self.tag = comm, kind, msg, buf, src, tag
        self.finished = False

    def _find(self):
        for m in self.comm.w.msgs:
            if not m.taken and m.dst == self.comm.r and m.src == self.src and (self.tag is None or m.tag == self.tag):
                return m
        return None

    def Wait(self, status=None):
        if self.finished:
            return
        w = self.comm.w
        if self.kind == 'recv':
            w.block(self.comm.r, lambda: self._find() is not None)
            m = self._find()
            m.taken = True
            data = m.data if m.data is not None else [x for x in m.buf]
            if len(data) > len(self.buf):
                raise RuntimeError('message truncated')
            for i, x in enumerate(data):
                self.buf[i] = x
        elif self.kind == 'send':
            m = self.msg
            if m.data is None and not m.taken:
                m.data = [x for x in m.buf]   # the library has taken the message when the wait returns
        elif self.kind == 'barrier':
            w.block(self.comm.r, lambda: self.msg['n'] == w.n)
        self.finished = True
    wait = Wait

    @staticmethod
    def Waitall(reqs, statuses=None):
        for q in reqs:
            if q.kind == 'send':
                q.Wait()
        for q in reqs:
            q.Wait()
    waitall = Waitall


class Comm:
    def __init__(self, w, r):
        self.w, self.r = w, r
        self.nbar = 0

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.w.n
    rank = property(Get_rank)
    size = property(Get_size)

    def Isend(self, buf, dest, tag=None):
        m = Msg(self.r, dest, buf, tag)
        self.w.nmsg += 1
        # the library may copy the buffer now, or read it as late as the send is completed
        k = len([x for x in self.w.msgs if x.src == self.r]) if self.w.per_send else 0
        if self.w.h.is_true(self.w.h.bool('eager_%d_%d' % (self.r, k))):
            m.data = [x for x in buf]
        self.w.msgs.append(m)
        return Request(self, 'send', m)

    def Send(self, buf, dest, tag=None):
        self.Isend(buf, dest, tag).Wait()

    def Irecv(self, buf, source, tag=None):
        return Request(self, 'recv', buf=buf, src=source, tag=tag)

    def Recv(self, buf, source, tag=None):
        self.Irecv(buf, source, tag).Wait()

    def Sendrecv(self, sendbuf, dest, sendtag=None, recvbuf=None, source=None, recvtag=None):
        q = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag)
        q.Wait()

    def Ibarrier(self):
        b = self.w.coll.setdefault(('bar', self.nbar), {'n': 0})
        self.nbar += 1
        b['n'] += 1
        return Request(self, 'barrier', b)

    def Barrier(self):
        self.Ibarrier().Wait()
    barrier = Barrier

    def gather(self, x, root=0):
        c = self.w.coll.setdefault(('gather', self._cnt('gather')), {})
        c[self.r] = x
        if self.r != root:
            return None
        self.w.block(self.r, lambda: len(c) == self.w.n)
        return [c[i] for i in range(self.w.n)]

    def allgather(self, x):
        c = self.w.coll.setdefault(('allgather', self._cnt('allgather')), {})
        c[self.r] = x
        self.w.block(self.r, lambda: len(c) == self.w.n)
        return [c[i] for i in range(self.w.n)]

    def bcast(self, x, root=0):
        c = self.w.coll.setdefault(('bcast', self._cnt('bcast')), {})
        if self.r == root:
            c['x'] = x
        self.w.block(self.r, lambda: 'x' in c)
        return c['x']

    def _cnt(self, k):
        n = self.__dict__.setdefault('_c', {})
        n[k] = n.get(k, 0) + 1
        return n[k]

    def Gatherv(self, sendbuf, recvbuf, root=0):
        c = self.w.coll.setdefault(('gatherv', self._cnt('gatherv')), {})
        c[self.r] = [x for x in (sendbuf[0] if isinstance(sendbuf, (list, tuple)) else sendbuf).reshape(-1)]
        if self.r != root:
            return
        self.w.block(self.r, lambda: len(c) == self.w.n)
        buf, counts = recvbuf[0], recvbuf[1]
        if isinstance(counts, (tuple, list)) and len(counts) == 2 and hasattr(counts[0], '__len__'):
            counts, displs = counts
        else:
            displs = recvbuf[2] if len(recvbuf) > 3 or (len(recvbuf) == 3 and hasattr(recvbuf[2], '__len__')) else None
        if displs is None:
            displs = [sum(int(k) for k in counts[:i]) for i in range(len(counts))]
        for i in range(self.w.n):
            n = int(counts[i])
            if len(c[i]) > n:
                raise RuntimeError('message truncated')
            for j, x in enumerate(c[i]):
                buf[int(displs[i]) + j] = x


# -- the whole program -------------------------------------------------------------------------
def run_main(h, size, text, kernel, remesher):
    """
    Run crys.py as the main program of every process. The file is the one it reads; kernel(rank, names of the program, T, Hi, Hw)
    stands for the native code, remesher(grid) for the remeshing.
    """
    import multiprocessing
    import os
    world = World(h, size, False)
    here = threading.local()

    class MPI(types.ModuleType):
        COMM_WORLD = property(lambda self: here.comm)
    mod = MPI('mpi4py.MPI')
    mod.Request, mod.Status, mod.ANY_TAG, mod.ANY_SOURCE = Request, object, -1, -1

    class Pool:
        def __init__(self, *a, **k):
            pass

        def map(self, f, x, *a):
            return [f(y) for y in x]

        def close(self):
            pass
        join = terminate = close

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    class Recorder:
        def __init__(self, *a, **k):
            pass

        def __call__(self, g):
            remesher(g)

    def hi(T, H, W):
        f = sys._getframe(1)
        kernel(here.comm.r, dict(f.f_globals, **f.f_locals), T, H, W)
    remeshing = h.mod('remeshing')
    h.mod('split')
    saved = stub_modules()
    keep = multiprocessing.Pool, remeshing.TongRemesher, os.getcwd(), sys.getrecursionlimit(), list(sys.path)
    argv, top = list(sys.argv), sys.modules.get('__main__')
    try:
        sys.modules['mpi4py'].MPI = sys.modules['mpi4py.MPI'] = mod
        sys.modules['swim'].hi = hi
        multiprocessing.Pool, remeshing.TongRemesher = Pool, Recorder
        for d in ('cases/grids', 'run'):
            os.makedirs(h.tmp(d))
        with open(h.tmp('cases/grids/bunny.dat'), 'w') as f:
            f.write(text)
        with open(h.tmp('cases/grids/bunny.json'), 'w') as f:
            f.write('{}')
        os.chdir(h.tmp('run'))

        def body(r):
            here.comm = Comm(world, r)
            h.script('crys.py')
        world.run(body)
    finally:
        multiprocessing.Pool, remeshing.TongRemesher = keep[:2]
        os.chdir(keep[2])
        sys.setrecursionlimit(keep[3])
        sys.path[:] = keep[4]
        sys.argv, sys.modules['__main__'] = argv, top
        unstub(saved)
