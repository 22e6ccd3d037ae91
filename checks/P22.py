"""P22: the volume between the old and the new surface is measured and compared with the requested ice."""
import json
import math
import re

import remeshing
from vh import bodies as B
from vh import loadcmp
from vh import mesh as M
from vh.core import quiet

RULE = ('distinct (body kind, ice field kind, faces bucket, steps, redistribution, height to side ratio, heights smoothing, growths, '
        'scale)')
QUICK, THOROUGH = 270, 3000
MIN = {'volumes compared': 60, 'plates compared': 8, 'plate nodes': 300, 'redistributed': 20, 'not redistributed': 20,
       'fine bodies': 2, 'reports': 10}
TIMEOUT = 120
ASSUMPTIONS = ['Nodes move along one direction each, so on a faceted surface the height over a face is less than the height of its '
               'nodes: the loss D is the mean over face corners (weighted by requested volume) of 1 - cos of the angle between the '
               'normals of the face and of the node. The grown volume has to be short by this loss and by '
               'nothing else: the relative error is -D within 0.45 D + 0.3% in one pass (no redistribution), and between -2.1 D / n and '
               '-0.55 D / n, within 0.3%, with n steps of redistribution. D is 1% to 15% on the bodies used.',
               'Ice is at most 0.3 of the shortest side of the body and steeply varying ice is used only without redistribution; node directions are not smoothed and null-space smoothing is off.',
               'Surfaces have dimensions of 0.1 and more (thresholds in the code are absolute).']


def loss(V, F, hi):
    nn = B.node_normals(V, F)
    d, tot = 0.0, 0.0
    for f, h in zip(F, hi):
        fn, w = B.normal(V, f), B.area(V, f) * h
        tot += w
        for i in f:
            l = math.sqrt(sum(x * x for x in nn[i]))
            d += w / 3 * (1 - sum(a * b for a, b in zip(fn, nn[i])) / l)
    return d / tot, tot


def remesher(ctx, opts):
    j = ctx.path('o.json')
    with open(j, 'w') as f:
        json.dump(opts, f)
    with quiet():
        return remeshing.TongRemesher('/g.dat', j, ctx.path('out', 'x')[:-2])


def loaded(ctx, m):
    import gsu
    M.write_dat(m, ctx.path('g.dat'))
    return loadcmp.load(gsu, ctx.path('g.dat'))


def set_ice(m, g, hi):
    for d, h in zip(m.data, hi):
        d['Hi'] = h
    for x, f in zip([x for z in m.by_zone() for x in z], g.Faces):
        f['Hi'] = hi[x]


def plate(ctx, rng):
    V, F = B.plate(rng, rng.randint(1, 6), rng.randint(1, 6))
    s = rng.choice([1e-4, 0.1, 1.0, 10.0, 1000.0])
    R, t = M.rotate(rng), [rng.uniform(-5, 5) * s for _ in range(3)]
    if rng.random() < 0.3:
        R, t = [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0]
    V = [tuple(M.apply(R, t, s, v)) for v in V]
    side = min(B.min_side(V, f) for f in F)
    h = side * rng.choice([0.01, 0.1, 0.5, 2.0])
    m = B.make(rng, V, F, [h] * len(F))
    opts = B.options(rng)
    g = loaded(ctx, m)
    with quiet():
        remesher(ctx, opts)(g)
    P = B.positions(m, g)
    ctx.check(P is not None, 'nodes are split')
    ctx.count('plates compared')
    n = B.normal(V, F[0])
    size = max(max(abs(c) for c in v) for v in V)
    for i, (p, v) in enumerate(zip(P, V)):
        ctx.count('plate nodes')
        ctx.check(max(abs(p[k] - v[k] - h * n[k]) for k in range(3)) <= 1e-8 * size + 1e-6 * h,
                  lambda: 'flat plate, constant ice {0!r}: node {1} moved by {2}, normal {3}, options {4}'.format(
                      h, i, [p[k] - v[k] for k in range(3)], n, opts), 'plate')
    got = math.fsum(B.area(V, f) * sum(sum((P[i][k] - V[i][k]) * n[k] for k in range(3)) for i in f) / 3 for f in F)
    want = math.fsum(B.area(V, f) * h for f in F)
    ctx.close(got, want, 'volume on a plate', 1e-6, 1e-8 * size ** 3)
    ctx.sig('plate', len(F).bit_length(), sorted(opts.items()), s)


def case(ctx, rng, i):
    if rng.random() < 0.3:
        plate(ctx, rng)
        return
    fine = i % 12 == 7
    kind, closed, V, F = B.body(rng, ['sphere', 'ellipsoid', 'cavity', 'bumpy'] if fine else ['sphere', 'ellipsoid', 'torus', 'cavity', 'bumpy'],
                                3 if fine else rng.choice([1, 2, 2]))
    s = rng.choice([0.1, 1.0, 10.0, 1000.0])
    R, t = M.rotate(rng), [rng.uniform(-3, 3) * s for _ in range(3)]
    V = [tuple(M.apply(R, t, s, v)) for v in V]
    side = min(B.min_side(V, f) for f in F)
    n = rng.choice([1, 2, 3, 5] if fine else [1, 2, 3, 5, 8])
    red = rng.random() < 0.5
    hs = rng.choice([0, 0, 2, 8])
    verbose = rng.random() < 0.3
    opts = {'remesh_nsteps_min': n, 'remesh_nsteps_max': n, 'remesh_rest_volume_redistr': red, 'remesh_hsmooth_steps': hs,
            'remesh_verbose': verbose}
    m = B.make(rng, V, F, [0.0] * len(F))
    m.V = V
    growths = 1 if fine else rng.choice([1, 1, 2])
    r, g = remesher(ctx, opts), None
    ratio = rng.choice([0.01, 0.1, 0.3] if kind in ('sphere', 'ellipsoid', 'torus') and red else [0.01, 0.1])
    for k in range(growths):
        ik, hi = B.ice_field(rng, V, F, ratio * side, rng.choice(['constant', 'wave'] if red else ['constant', 'wave', 'steep', 'steep']))
        if g is None:
            for d, h in zip(m.data, hi):
                d['Hi'] = h
            g = loaded(ctx, m)
        else:
            set_ice(m, g, hi)
        D, want = loss(V, F, hi)
        ctx.path('out', 'x')
        with quiet() as out:
            r(g)
        P = B.positions(m, g)
        ctx.check(P is not None, 'nodes are split')
        c = [sum(v[k] for v in V) / len(V) for k in range(3)]
        P0, V0 = [[p[k] - c[k] for k in range(3)] for p in P], [[p[k] - c[k] for k in range(3)] for p in V]
        got = B.volume(P0, F) - B.volume(V0, F)
        lo, hi_ = (-2.1 * D / n - 0.003, -0.55 * D / n + 0.003) if red else (-1.45 * D - 0.003, -0.55 * D + 0.003)
        ctx.count('volumes compared')
        ctx.count('redistributed' if red else 'not redistributed')
        ctx.count('fine bodies', int(fine))
        ctx.check(lo <= got / want - 1 <= hi_, lambda: '{0} of {1} faces, {2} ice, options {3}, growth {8}: requested volume {4:.6g}, '
                  'grown {5:.6g} ({6:+.3f}%), allowed {7:.3f}% to {9:.3f}%'.format(kind, len(F), ik, opts, want, got, 100 * (got / want - 1),
                                                                     100 * lo, k, 100 * hi_), 'volume')
        if verbose:
            x = re.search(r'ice : (\S+) - target, (\S+) - diff', out.getvalue())
            y = re.search(r'accuracy   : (\S+) %', out.getvalue())
            ctx.check(x is not None and y is not None, 'no volume report printed')
            ctx.count('reports')
            ctx.close(float(x.group(1)), want, 'reported requested volume', 1e-3)
            ctx.close(float(y.group(1)), 100 * float(x.group(2)) / float(x.group(1)), 'reported accuracy', 2e-3, 1e-9)
            ctx.check(abs(got - want) <= float(x.group(2)) * 1.001 + 0.02 * want,
                      lambda: 'grown {0:.6g} of {1:.6g}, but the reported difference is only {2}'.format(got, want, x.group(2)))
        ctx.sig(kind, ik, len(F).bit_length(), n, red, ratio, hs, k, s)
        ctx.sample({'body': kind, 'faces': len(F), 'ice': ik, 'options': opts, 'requested': want, 'grown': got, 'allowed': [lo, hi_]})
        V = [tuple(p) for p in P]
        side = min(B.min_side(V, f) for f in F)
