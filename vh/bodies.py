"""Smooth oriented bodies, ice fields and remeshing runs for the remesher checks."""
import json
import math

from . import mesh as M
from .core import quiet

STD = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ']


def plate(rng, nx, ny, jitter=0.25):
    V, F = M.sheet(rng, nx, ny, jitter, 0.0)
    return V, F


def ellipsoid(rng, level):
    V, F = M.sphere(level, 1.0, rng.choice(['ico', 'oct']))
    ax = [rng.uniform(0.7, 1.4) for _ in range(3)]
    return [[v[k] * ax[k] for k in range(3)] for v in V], F


def torus(rng, n, m):
    return M.torus(rng, n, m, 3.0, 1.0, 0.0)


def wavy(rng, nx, ny):
    V, F = M.sheet(rng, nx, ny, 0.15, 0.0)
    a, b = rng.uniform(0.2, 0.6), rng.uniform(0.2, 0.6)
    return [[v[0], v[1], 0.4 * math.sin(a * v[0]) * math.cos(b * v[1])] for v in V], F


def outward(V, F):
    """Orient a closed surface outwards (positive volume)."""
    if volume(V, F) < 0:
        F = [(a, c, b) for a, b, c in F]
    return V, F


def volume(V, F):
    s = []
    for a, b, c in F:
        p, q, r = V[a], V[b], V[c]
        s.append((p[0] * (q[1] * r[2] - q[2] * r[1]) + p[1] * (q[2] * r[0] - q[0] * r[2]) + p[2] * (q[0] * r[1] - q[1] * r[0])) / 6)
    return math.fsum(s)


def area(V, f):
    p, q, r = (V[i] for i in f)
    u = [q[k] - p[k] for k in range(3)]
    v = [r[k] - p[k] for k in range(3)]
    return 0.5 * math.sqrt(sum(x * x for x in (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])))


def normal(V, f):
    p, q, r = (V[i] for i in f)
    u = [q[k] - p[k] for k in range(3)]
    v = [r[k] - p[k] for k in range(3)]
    n = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    l = math.sqrt(sum(x * x for x in n))
    return tuple(x / l for x in n)


def min_side(V, f):
    return min(math.dist(V[f[i]], V[f[(i + 1) % 3]]) for i in range(3))


def body(rng, kinds=None, level=None):
    """(kind, closed, V, F)"""
    kind = rng.choice(kinds or ['plate', 'wavy', 'sphere', 'ellipsoid', 'torus', 'bumpy', 'cavity'])
    if kind == 'plate':
        V, F = plate(rng, rng.randint(1, 6), rng.randint(1, 6))
        closed = False
    elif kind == 'wavy':
        V, F = wavy(rng, rng.randint(3, 7), rng.randint(3, 7))
        closed = False
    elif kind == 'sphere':
        V, F = outward(*M.sphere(level or rng.choice([1, 2]), 1.0, rng.choice(['ico', 'oct'])))
        closed = True
    elif kind == 'bumpy':
        V, F = outward(*bumpy(rng, level or rng.choice([1, 2])))
        closed = True
    elif kind == 'cavity':
        V, F = outward(*ellipsoid(rng, level or rng.choice([1, 2])))
        F = [(a, c, b) for a, b, c in F]
        closed = True
    elif kind == 'ellipsoid':
        V, F = outward(*ellipsoid(rng, level or rng.choice([1, 2])))
        closed = True
    else:
        k = rng.randint(7, 12)
        V, F = outward(*torus(rng, 2 * k, k))
        closed = True
    return kind, closed, [tuple(float(c) for c in v) for v in V], [tuple(f) for f in F]


def bumpy(rng, level):
    V, F = M.sphere(level, 1.0, rng.choice(['ico', 'oct']))
    ws = [[rng.gauss(0, 1.6) for _ in range(3)] for _ in range(3)]
    ph = [rng.uniform(0, 6) for _ in range(3)]
    res = []
    for v in V:
        r = 1.0 + sum(0.09 * math.sin(sum(w[k] * v[k] for k in range(3)) + p) for w, p in zip(ws, ph))
        res.append(tuple(r * x for x in v))
    return res, F


def ice_field(rng, V, F, scale, kind=None):
    """(kind, heights)"""
    kind = kind or rng.choice(['constant', 'wave', 'cap', 'random'])
    res = []
    w = [rng.gauss(0, 0.7) for _ in range(3)]
    d = [rng.gauss(0, 1) for _ in range(3)]
    l = math.sqrt(sum(x * x for x in d))
    cs = [[sum(V[i][k] for i in f) / 3 for k in range(3)] for f in F]
    pr = [sum(c[k] * d[k] for k in range(3)) / l for c in cs]
    mid = sorted(pr)[len(pr) // 2]
    span = max(max(pr) - mid, 1e-300)
    size = max(max(abs(x) for x in c) for c in cs) or 1.0
    for c, t in zip(cs, pr):
        if kind == 'constant':
            h = scale
        elif kind == 'wave':
            h = scale * (1.0 + 0.5 * math.sin(sum(w[k] * c[k] for k in range(3)) / size))
        elif kind == 'steep':
            h = scale * (1.0 + 0.95 * math.sin(3 * sum(d[k] * c[k] for k in range(3)) / l / size))
        elif kind == 'cap':
            h = scale * max(0.0, t - mid) / span
        elif kind == 'zero':
            h = 0.0
        else:
            h = scale * rng.choice([0.0, rng.random(), 1.0])
        res.append(h)
    return kind, res


def make(rng, V, F, hi, nz=None):
    m = M.Mesh(V, F)
    M.add_zones(rng, m, nz)
    M.add_data(rng, m, STD)
    for d, h in zip(m.data, hi):
        d['Hi'] = h
    return m


def remesh(ctx, m, options, grid=None, name='g.dat'):
    """Write, load and remesh; returns the grid and what was printed."""
    import gsu
    import remeshing
    from . import loadcmp
    p = ctx.path('rm', name)
    M.write_dat(m, p)
    g = loadcmp.load(gsu, p)
    j = None
    if options is not None:
        j = ctx.path('rm', 'opt.json')
        with open(j, 'w') as f:
            json.dump(options, f)
    with quiet() as out:
        remeshing.TongRemesher('/' + name, j, ctx.path('rm', 'out')[:-1])(g)
    return g, out.getvalue()


def positions(m, g):
    """
    New position of every vertex of the mesh, found through faces (so nothing is assumed on numbering),
    or None for a vertex which got two positions.
    """
    order = [i for z in m.by_zone() for i in z]
    assert len(order) == len(g.Faces)
    pos = {}
    for i, f in zip(order, g.Faces):
        for v, n in zip(m.F[i], f.Nodes):
            p = tuple(float(x) for x in n.P.coords_tuple())
            if pos.setdefault(v, p) != p:
                return None
    return [pos.get(k) for k in range(len(m.V))]


def node_normals(V, F):
    """Sum of unit normals of the faces of every vertex."""
    res = [[0.0] * 3 for _ in V]
    for f in F:
        n = normal(V, f)
        for i in f:
            for k in range(3):
                res[i][k] += n[k]
    return res


def sound(V, F):
    """Consistently oriented, no degenerate face, a definite outer side at every vertex."""
    seen = set()
    for f in F:
        for i in range(3):
            e = (f[i], f[(i + 1) % 3])
            if e in seen:
                return False
            seen.add(e)
        if area(V, f) <= 1e-3 * max(math.dist(V[f[i]], V[f[(i + 1) % 3]]) for i in range(3)) ** 2:
            return False
    return all(math.sqrt(sum(x * x for x in n)) > 0.3 for n in node_normals(V, F))


def any_body(rng, size='s'):
    """A smooth body or any oriented shape."""
    if rng.random() < 0.5:
        return body(rng)
    for _ in range(20):
        m = M.random_shape(rng, size)
        V, F = [tuple(float(c) for c in v) for v in m.V], [tuple(f) for f in m.F]
        if len(F) > 0 and sound(V, F):
            es = M.edge_faces(F)
            return m.kind, all(len(x) == 2 for x in es.values()), V, F
    return body(rng)


def options(rng, smoothing=True):
    """A random configuration without null-space smoothing and pseudo-2D mode."""
    o = {}
    r = rng.random()
    if r < 0.4:
        n = rng.randint(1, 6)
        o['remesh_nsteps_min'], o['remesh_nsteps_max'] = n, n
    elif r < 0.7:
        o['remesh_nsteps_max'] = rng.randint(1, 8)
    if rng.random() < 0.5:
        o['remesh_rest_volume_redistr'] = rng.random() < 0.5
    if rng.random() < 0.3:
        o['remesh_nsteps_hi_side_fact'] = rng.choice([0.05, 0.1, 0.3])
    if rng.random() < 0.3:
        o['remesh_nsteps_ignore_part'] = rng.choice([0.0, 0.1, 0.5])
    if smoothing and rng.random() < 0.4:
        o['remesh_nsmooth_steps'] = rng.randint(1, 4)
    if smoothing and rng.random() < 0.4:
        o['remesh_hsmooth_steps'] = rng.randint(1, 4)
    return o
