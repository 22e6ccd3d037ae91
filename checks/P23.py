"""P23: metamorphic monitoring of the remesher: the same body moved, scaled, renumbered, rezoned, mirrored, repeated."""
import json
import math

import remeshing
from vh import bodies as B
from vh import loadcmp
from vh import mesh as M
from vh.core import quiet

RULE = ('distinct (relation, body kind, ice field kind, faces bucket, steps, redistribution, smoothing options)')
QUICK, THOROUGH = 330, 5000
MIN = {'pairs': 90, 'nodes compared': 3000, 'rotate': 8, 'scale': 8, 'renumber': 8, 'rezone': 8, 'twice': 8, 'symmetric': 8,
       'moved nodes': 2000}
TIMEOUT = 120
ASSUMPTIONS = ['The number of steps is fixed by the configuration, so that rounding cannot change it.',
               'Planned ice per face and step is zero or above 1e-8 in both runs (thresholds in the code are absolute, 1e-10).',
               'Corners of faces are not renumbered: the volume of a displaced triangle depends on the corner it starts from when '
               'the sides of the displaced prism are not flat. For this reason symmetric bodies are judged without redistribution.',
               'Results are compared within 1e-7 of the size of the body.']
KINDS = ['rotate', 'scale', 'renumber', 'rezone', 'twice', 'symmetric']


def run(ctx, m, opts, name):
    import gsu
    p = ctx.path(name, 'g.dat')
    M.write_dat(m, p)
    g = loadcmp.load(gsu, p)
    j = ctx.path(name, 'o.json')
    with open(j, 'w') as f:
        json.dump(opts, f)
    with quiet():
        remeshing.TongRemesher('/g.dat', j, ctx.path(name, 'x')[:-2])(g)
    P = B.positions(m, g)
    ctx.check(P is not None, 'nodes are split')
    return P


def symmetric(rng):
    """(V, F, list of maps vertex -> vertex, list of point maps, ice by face)"""
    base = rng.choice(['oct', 'plate'])
    if base == 'oct':
        V, F = B.outward(*M.sphere(rng.choice([0, 1, 2, 2]), 1.0, 'oct'))
        ax = rng.choice([[1, 1, 1], [1, 1, 1.3], [0.8, 1, 1.25]])
        V = [tuple(v[k] * ax[k] for k in range(3)) for v in V]
    else:
        # Square plate, a fan of four triangles in every cell: symmetric in x, in y and under exchange of x and y.
        n = rng.randint(1, 3)
        V = [(2.0 * i - n, 2.0 * j - n, 0.0) for i in range(n + 1) for j in range(n + 1)]
        F = []
        for i in range(n):
            for j in range(n):
                a, b, c, d = i * (n + 1) + j, (i + 1) * (n + 1) + j, (i + 1) * (n + 1) + j + 1, i * (n + 1) + j + 1
                V.append((2.0 * i - n + 1.0, 2.0 * j - n + 1.0, 0.0))
                e = len(V) - 1
                F += [(a, b, e), (b, c, e), (c, d, e), (d, a, e)]
        ax = [1, 1, 1]
        if rng.random() < 0.7:
            q = rng.uniform(0.02, 0.1)
            V = [(x, y, -q * (x * x + y * y)) for x, y, _ in V]
    maps = [lambda p: (-p[0], p[1], p[2]), lambda p: (p[0], -p[1], p[2])]
    if base == 'oct':
        maps.append(lambda p: (p[0], p[1], -p[2]))
    if ax[0] == ax[1]:
        maps.append(lambda p: (p[1], p[0], p[2]))
        maps.append(lambda p: (-p[1], p[0], p[2]))
    if ax == [1, 1, 1] and base == 'oct':
        maps.append(lambda p: (p[1], p[2], p[0]))
    side = min(B.min_side(V, f) for f in F)
    k = rng.choice(['constant', 'radial', 'pole'])
    h = []
    for f in F:
        c = [sum(V[i][a] for i in f) / 3 for a in range(3)]
        if k == 'constant':
            x = 1.0
        elif k == 'radial':
            x = 0.5 + 0.1 * (abs(c[0]) + abs(c[1]) + abs(c[2])) if base == 'oct' else 0.5 + 0.1 * (c[0] ** 2 + c[1] ** 2)
        else:
            # Symmetric about the z axis only.
            x = 0.5 + 0.2 * c[2] ** 3
            maps = [q for q in maps if q((0.0, 0.0, 1.0)) == (0.0, 0.0, 1.0)]
        h.append(0.2 * side * x)
    return base + '-' + k, V, F, maps, h


def case(ctx, rng, i):
    rel = KINDS[i % len(KINDS)]
    if rel == 'symmetric':
        kind, V, F, maps, hi = symmetric(rng)
        ik = 'symmetric'
    else:
        for _ in range(10):
            kind, closed, V, F = B.any_body(rng, 's')
            if len(F) <= 400:
                break
        side = min(B.min_side(V, f) for f in F)
        ik, hi = B.ice_field(rng, V, F, rng.choice([0.05, 0.2]) * side, rng.choice(['constant', 'wave', 'cap', 'random']))
    n = rng.choice([1, 2, 3])
    opts = {'remesh_nsteps_min': n, 'remesh_nsteps_max': n,
            'remesh_rest_volume_redistr': rel != 'symmetric' and rng.random() < 0.5}
    if rng.random() < 0.3:
        opts['remesh_nsmooth_steps'] = rng.randint(1, 3)
    if rng.random() < 0.3:
        opts['remesh_hsmooth_steps'] = rng.randint(1, 3)
    if rng.random() < 0.2:
        opts['remesh_nss_steps'] = rng.randint(1, 2)
    s0 = rng.choice([1.0, 10.0])
    V = [tuple(c * s0 for c in v) for v in V]
    hi = [h * s0 for h in hi]
    s = 1.0
    if rel == 'scale':
        s = rng.choice([0.04, 0.04, 0.3, 7.0, 1000.0]) if s0 == 1.0 else rng.choice([0.01, 0.1, 7.0])
    lo = min(1.0, s)
    hi = [h if h * lo * B.area(V, f) * lo * lo / n > 1e-8 else 0.0 for h, f in zip(hi, F)]
    m = B.make(rng, V, F, hi)
    P = run(ctx, m, opts, 'a')
    size = max(max(abs(c) for c in v) for v in V)
    ctx.count('moved nodes', sum(math.dist(p, v) > 1e-3 * max(hi + [1e-9]) for p, v in zip(P, V)))
    ctx.count('pairs')
    ctx.count(rel)

    def same(Q, want, what, tol):
        for k, (q, w) in enumerate(zip(Q, want)):
            ctx.count('nodes compared')
            ctx.check(max(abs(a - b) for a, b in zip(q, w)) <= tol,
                      lambda: '{0}, {1}, {2} faces, ice {3}, {4}: node {5} is at {6}, expected {7}'.format(
                          what, kind, len(F), ik, opts, k, q, w), rel)

    if rel == 'twice':
        same(run(ctx, m, opts, 'b'), P, 'second run', 0.0)
    elif rel == 'rotate':
        R, t = M.rotate(rng), [rng.uniform(-3, 3) * size for _ in range(3)]
        if rng.random() < 0.2:
            R = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        if rng.random() < 0.2:
            t = [0.0] * 3
        m2 = m.copy()
        m2.V = [tuple(M.apply(R, t, 1.0, v)) for v in V]
        same(run(ctx, m2, opts, 'b'), [M.apply(R, t, 1.0, p) for p in P], 'rotated and shifted', 1e-7 * size)
    elif rel == 'scale':
        m2 = m.copy()
        m2.V = [tuple(c * s for c in v) for v in V]
        m2.data = [dict(d, Hi=d['Hi'] * s) for d in m.data]
        same(run(ctx, m2, opts, 'b'), [[c * s for c in p] for p in P], 'scaled by {0}'.format(s), 1e-7 * size * s)
    elif rel == 'renumber':
        pv, pf = list(range(len(V))), list(range(len(F)))
        rng.shuffle(pv)
        rng.shuffle(pf)
        inv = {old: new for new, old in enumerate(pv)}
        m2 = m.copy()
        m2.V = [V[k] for k in pv]
        m2.F = [tuple(inv[x] for x in F[k]) for k in pf]
        m2.zone = [m.zone[k] for k in pf]
        m2.data = [m.data[k] for k in pf]
        Q = run(ctx, m2, opts, 'b')
        same([Q[inv[k]] for k in range(len(V))], P, 'renumbered', 1e-7 * size)
    elif rel == 'rezone':
        m2 = m.copy()
        M.add_zones(rng, m2, rng.randint(1, 6))
        same(run(ctx, m2, opts, 'b'), P, 'redistributed over {0} zones'.format(len(m2.znames)), 1e-7 * size)
    else:
        key = {tuple(round(c / s0, 6) + 0.0 for c in v): k for k, v in enumerate(V)}
        for j, f in enumerate(maps):
            img = [key.get(tuple(round(c / s0, 6) + 0.0 for c in f(v))) for v in V]
            assert None not in img, 'body is not symmetric'
            same([P[k] for k in img], [f(p) for p in P], 'symmetry {0}'.format(j), 1e-7 * size)
    ctx.sig(rel, kind, ik, len(F).bit_length(), n, opts['remesh_rest_volume_redistr'], sorted(opts))
    ctx.sample({'relation': rel, 'body': kind, 'faces': len(F), 'ice': ik, 'options': opts})
