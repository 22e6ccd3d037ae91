"""Users of the library which work with own objects: alone, in turns, one inside the other, or in threads at the same time."""
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import threading
import time

from . import atomic as A
from . import mesh as M

_local = threading.local()


class Router:
    """Standard output of every thread for itself."""

    def write(self, s):
        b = getattr(_local, 'out', None)
        if b is not None:
            b.append(s)
        return len(s)

    def flush(self):
        pass


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def state(g):
    """Everything about the grid, without addresses."""
    nk = {id(n): i for i, n in enumerate(g.Nodes)}
    ek = {id(e): i for i, e in enumerate(g.Edges)}
    fk = {id(f): i for i, f in enumerate(g.Faces)}
    zk = {id(z): i for i, z in enumerate(g.Zones)}
    return (g.Name,
            [(n.GloId, repr([float(n.P[k]) for k in range(3)]), [ek.get(id(e)) for e in n.Edges], [fk.get(id(f)) for f in n.Faces], n.border)
             for n in g.Nodes],
            [(e.GloId, [nk.get(id(n)) for n in e.Nodes], [fk.get(id(f)) for f in e.Faces]) for e in g.Edges],
            [(f.GloId, [nk.get(id(n)) for n in f.Nodes], [ek.get(id(e)) for e in f.Edges], zk.get(id(f.Zone)),
              [(k, repr(v)) for k, v in f.Data.items()]) for f in g.Faces],
            [(z.Name, z.IsFixed, [nk.get(id(n)) for n in z.Nodes], [ek.get(id(e)) for e in z.Edges], [fk.get(id(f)) for f in z.Faces])
             for z in g.Zones])


class Actor:
    """Deterministic sequence of operations on own objects. `inside` is called in the middle of some of them."""

    OPS = ['load', 'load', 'linear', 'hierarchical', 'hierarchical', 'farhat', 'mono', 'store', 'store_mpi', 'info', 'matrix', 'edit', 'edit', 'paths',
           'marks', 'grow', 'grow', 'smooth', 'explode', 'results', 'cloud', 'cloud', 'clouds', 'flight', 'laws', 'values', 'export', 'transfer']

    def __init__(self, place, files, seed, count, ops=None):
        self.ops = ops or self.OPS
        self.place, self.files, self.rng, self.count = place, files, random.Random(seed), count
        self.g, self.k, self.record = None, 0, []
        self.inside = lambda: None
        os.makedirs(place, exist_ok=True)

    def path(self, name):
        return os.path.join(self.place, name)

    def step(self):
        op = 'load' if self.g is None else self.rng.choice(self.ops)
        old = getattr(_local, 'out', None)
        _local.out = []
        done = False
        try:
            try:
                r = getattr(self, op)()
                done = True
            except Exception as e:
                r = type(e).__name__, str(e)
            out = ''.join(_local.out)
        finally:
            _local.out = old
        if 'seconds' in out or 'total time' in out:
            out = ''
        self.record.append((op, digest((r, out)), digest(state(self.g)) if self.g is not None else '', 'done' if done else repr(r)))
        self.k += 1

    def run(self):
        while self.k < self.count:
            self.step()

    def text(self, p):
        with open(p, 'rb') as f:
            return f.read()

    # --- operations -------------------------------------------------------------------------------

    def load(self):
        import gsu
        self.g = None
        g = gsu.Grid()
        g.load(self.rng.choice(self.files), self.rng.random() < 0.9)
        self.g = g

    def linear(self):
        self.g.decompose_linear(self.rng.randint(1, 6))

    def mono(self):
        self.g.decompose_mono()

    def fixed(self):
        names = sorted({z.Name for z in self.g.Zones})
        return self.rng.sample(names, self.rng.randint(0, len(names) - 1)) if self.rng.random() < 0.4 else []

    def hierarchical(self):
        kw = {}
        if self.rng.random() < 0.4:
            w = [self.rng.uniform(-1, 1) for _ in range(3)]
            once = [True]

            def sign(f):
                if once:
                    once.pop()
                    self.inside()
                return sum(a * float(f.get_center()[k]) for k, a in enumerate(w))
            kw['extract_signs_funs'] = [sign]
        fx = self.fixed()
        if fx:
            kw['fixed_zones'] = fx
        self.g.decompose_hierarchical(levels=self.rng.randint(1, 4), **kw)

    def farhat(self):
        kw = {}
        fx = self.fixed()
        if fx:
            kw['fz_names'] = fx
        self.g.decompose_farhat(count=self.rng.randint(1, 6), **kw)

    def store(self):
        p = self.path('s.dat')
        self.g.store(p)
        return self.text(p)

    def store_mpi(self):
        self.g.store_mpi(self.path('m'), '000000000007')
        return [(n, self.text(self.path(n))) for n in sorted(os.listdir(self.place)) if n.startswith('m_')]

    def info(self):
        self.g.print_info()

    def matrix(self):
        import gsu
        z = gsu.ZonesAdjacencyMatrix(self.g.Edges, self.g.Zones)
        return z.M, z.edges_statistics()

    def edit(self):
        import geom
        r = []
        for _ in range(self.rng.randint(1, 4)):
            op = self.rng.choice(A.OPS)
            c = A.choose(self.rng, self.g, op)
            if c is not None:
                A.perform(self.g, geom, op, *c)
                r.append(op)
        return r

    def paths(self):
        fs = self.g.Faces
        pos = {id(f): k for k, f in enumerate(fs)}
        m = self.rng.randint(1, 4)
        once = [True]

        def wanted(f):
            if once:
                once.pop()
                self.inside()
            return pos[id(f)] % m != 0
        return [pos[id(f)] for f in self.g.bfs_path(self.rng.choice(fs), wanted)]

    def marks(self):
        self.g.mark_all_fixed_nodes()

    def grow(self):
        import remeshing
        h = self.rng.choice([0.0, 1e-3, 1e-2])
        for f in self.g.Faces:
            f['Hi'] = h * self.rng.random()
        k = self.rng.randint(1, 3)
        p = self.path('o.json')
        with open(p, 'w') as f:
            json.dump({'remesh_nsteps_min': k, 'remesh_nsteps_max': k, 'remesh_nsmooth_steps': self.rng.choice([0, 1]),
                       'remesh_hsmooth_steps': self.rng.choice([0, 1]), 'remesh_nss_steps': self.rng.choice([0, 0, 1])}, f)
        remeshing.TongRemesher('/x.dat', p if self.rng.random() < 0.8 else None, self.place)(self.g)

    def smooth(self):
        import smoothing
        smoothing.NullSpaceSmoothing(self.g, self.rng.randint(0, 2), fix_boundary_nodes=False, st=self.rng.choice([0.1, 0.2])).smoothing()

    def explode(self):
        self.g.move_from_mean_point(self.rng.choice([0.1, 0.01]))

    def results(self):
        rows = self.rng.sample(range(len(self.g.Faces)), self.rng.randint(0, len(self.g.Faces)))
        p = self.path('r.txt')
        with open(p, 'w') as f:
            f.write('VARIABLES="GloId", "T", "Hw", "Hi"\n' + ''.join('{0} {1} {2} 0.001\n'.format(k, self.rng.random(), self.rng.random()) for k in rows))
        self.g.load_faces_calc_data(p)

    def values(self):
        for f in self.g.Faces:
            for v in f.Data:
                if self.rng.random() < 0.3:
                    f.Data[v] = self.rng.uniform(0, 1)

    def triangles(self):
        ts = []
        for f in self.g.Faces:
            t = f.get_triangle()
            t.BackRef = f
            ts.append(t)
        return ts

    def point(self):
        n = self.rng.choice(self.g.Nodes)
        # Users may ask about the same places.
        d = self.rng.choice([0.0, 0.0, 0.25, self.rng.uniform(-1, 1)])
        return [float(n.P[k]) + d for k in range(3)]

    def cloud(self):
        import geom
        ts = self.triangles()
        pos = {id(t): k for k, t in enumerate(ts)}
        c = geom.TrianglesCloud(list(ts))
        r = []
        for _ in range(6):
            a, b = self.point(), self.point()
            t = c.first_intersection_with_segment(geom.Segment(geom.Vect(*a), geom.Vect(*b)))
            r.append(None if t is None else pos[id(t)])
        return r

    def clouds(self):
        import geom
        ts = self.triangles()[:12]
        moved = []
        d = [self.rng.uniform(-0.1, 0.1) for _ in range(3)]
        for t in ts:
            moved.append(geom.Triangle(*[geom.Vect(*[x + y for x, y in zip(p, d)]) for p in self.tri_points(t)]))
        r = geom.TrianglesCloud(ts).intersection_with_triangles_cloud(geom.TrianglesCloud(moved))
        return [[repr(p.coords_tuple()) for p in x[1]] for x in r]

    def tri_points(self, t):
        return [[float(p[k]) for k in range(3)] for p in (t.a(), t.b(), t.c())]

    def flight(self):
        import drops
        import geom
        ds = [tuple(geom.Vect(*p) for p in (self.point(), [self.rng.uniform(-9, 9) for _ in range(3)])) for _ in range(12)]
        pos = {id(x): k for k, x in enumerate(ds)}
        s = drops.Space(ds, [d[0].coords_tuple() for d in ds])
        c = geom.TrianglesCloud(self.triangles())
        r = [pos[id(s.find_nearest(geom.Vect(*self.point())))] for _ in range(6)]
        for _ in range(2):
            v, f, tr = s.fly(geom.Vect(*self.point()), geom.Vect(*self.point()), 1e-4, 0.02, c, 30)
            r.append((v, None if f is None else f.GloId, repr(tr.last_point().coords_tuple()), tr.points_count()))
        return r

    def laws(self):
        from phys import laws as L
        t = self.rng.uniform(230, 320)
        r = []
        for n in sorted(vars(L)):
            x = getattr(L, n)
            if not isinstance(x, type) and callable(x) and type(x).__module__ == L.__name__:
                r.append((n, repr(x(t))))
        return r

    def export(self):
        from convert import gsu_converter as C
        g = C.Grid()
        g.Import(self.rng.choice(self.files))
        p = self.path('e.dat')
        g.Export(p)
        return self.text(p)

    def transfer(self):
        from convert import interpolate as I
        import gsu
        a = gsu.Grid()
        a.load(self.rng.choice(self.files))
        I.face_centered_interpolation(a, self.g)


class Threads:
    """Runs actors in threads; gives the processor away at random calls of functions of the library."""

    def __init__(self, seed, root, rate):
        self.seed, self.root, self.rate = seed, root, rate
        self.last, self.switches, self.calls, self.order = None, 0, 0, hashlib.sha1()

    def hook(self, frame, event, arg):
        if event != 'call' or not frame.f_code.co_filename.startswith(self.root):
            return None
        me = _local.me
        self.calls += 1
        if self.last != me:
            self.last = me
            self.switches += 1
            self.order.update(('%d %s;' % (me, frame.f_code.co_name)).encode())
        if _local.left and _local.rng.random() < self.rate:
            _local.left -= 1
            time.sleep(0 if _local.rng.random() < 0.8 else 1e-4)
        return None

    def run(self, actors):
        gate = threading.Barrier(len(actors))
        lost = []

        def body(k, a):
            _local.me, _local.rng, _local.left = k, random.Random(self.seed * 31 + k), 600
            gate.wait()
            try:
                a.run()
            except BaseException as e:
                lost.append(repr(e))
        old = sys.getswitchinterval()
        sys.setswitchinterval(5e-4)
        threading.settrace(self.hook)
        try:
            ts = [threading.Thread(target=body, args=(k, a)) for k, a in enumerate(actors)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            threading.settrace(None)
            sys.setswitchinterval(old)
        if lost:
            raise RuntimeError(lost)


def turns(actors, rng, nested, root=''):
    """Operations in a random order; with `nested` also one in the middle of another one: at any call of a function of the library."""
    depth = [0]

    def inside(me):
        def f():
            others = [a for a in actors if a is not me and a.k < a.count and not busy[id(a)]]
            if others and rng.random() < 0.7:
                a = rng.choice(others)
                depth[0] += 1
                go(a)
        return f
    busy = {id(a): False for a in actors}

    def go(a):
        busy[id(a)] = True
        try:
            a.step()
        finally:
            busy[id(a)] = False
    if nested:
        for a in actors:
            a.inside = inside(a)
    order = []
    wait = [0]

    def hook(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(root):
            wait[0] -= 1
            if wait[0] < 0:
                wait[0] = int(rng.expovariate(1) * 10 ** rng.uniform(1, 4))
                me = [a for a in actors if busy[id(a)]]
                if me:
                    order.append(frame.f_code.co_name)
                    inside(me[-1])()
        return None
    if nested:
        sys.settrace(hook)
    try:
        while True:
            left = [a for a in actors if a.k < a.count]
            if not left:
                return order, depth[0]
            a = rng.choice(left)
            order.append(actors.index(a))
            go(a)
    finally:
        sys.settrace(None)


def fresh(fn, limit=100):
    """Result of a call in a forked process, which has run nothing of the library before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            sys.stdout = Router()
            try:
                b = pickle.dumps(('done', fn()))
            except BaseException as e:
                b = pickle.dumps(('lost', repr(e)))
            with os.fdopen(w, 'wb') as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(w)
    try:
        b = b''
        while True:
            x = os.read(r, 1 << 16)
            if not x:
                break
            b += x
        st = os.waitpid(pid, 0)[1]
        pid = 0
    finally:
        os.close(r)
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if not b:
        return 'lost', 'status {0}'.format(st)
    return pickle.loads(b)
