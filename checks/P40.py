"""P40: ice grows by the documented scheme, step by step, with the configured coefficients."""
import json

import numpy as np
import remeshing

from vh import bodies as B
from vh import mesh as M
from vh import tong
from vh.core import quiet

RULE = ('distinct (body, ice field, faces bucket, steps, redistribution, steps of the three smoothings, which coefficients are not the '
        'default ones, zones)')
QUICK, THOROUGH = 330, 6000
MIN = {'growths compared': 200, 'nodes compared': 8000, 'normals smoothed': 60, 'heights smoothed': 60, 'null-space smoothed': 40,
       'redistributed': 80, 'not redistributed': 40, 'own coefficients': 100,
       'second growths': 20, 'small bodies': 40}
TIMEOUT = 120
ASSUMPTIONS = ['The scheme is the one in the comments of remeshing.py (requirements FR.RM.MT.TN.02 to 08) and in the article they name.',
               'The number of steps is given by equal limits; the pseudo-2D mode is off (both are in P24).',
               'Results are compared to 1e-7 of the shortest side, or to 2000 times the response of the scheme to a change of the '
               'coordinates in the last digits where this is larger; growths in which the scheme is not stable to that (thresholds hit '
               'exactly, surfaces folding over) are counted and left out.']


def config(rng):
    """(configuration, coefficients it stands for)"""
    j, o = {}, {'s': 10.0, 'k': 0.15, 'alfa': 0.2, 'beta': 0.1, 'eps': 0.01, 'st': 0.2, 'fix': True, 'redistribute': True,
                'nsmooth': 0, 'hsmooth': 0, 'nss': 0}

    def put(name, key, v):
        j[name] = v
        o[key] = v
    n = rng.choice([1, 1, 2, 3, 4, 6])
    put('remesh_nsteps_min', 'steps', n)
    put('remesh_nsteps_max', 'steps', n)
    if rng.random() < 0.6:
        put('remesh_rest_volume_redistr', 'redistribute', rng.random() < 0.4)
    if rng.random() < 0.45:
        put('remesh_nsmooth_steps', 'nsmooth', rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.45:
        put('remesh_hsmooth_steps', 'hsmooth', rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.3:
        put('remesh_nss_steps', 'nss', rng.choice([1, 2]))
    for name, key, vs in (('remesh_nsmooth_s', 's', [0.5, 2.0, 40]), ('remesh_nsmooth_k', 'k', [0.01, 0.5, 1]),
                          ('remesh_hsmooth_alfa', 'alfa', [0.02, 0.5, 1]), ('remesh_hsmooth_beta', 'beta', [0.02, 0.05, 0.15]),
                          ('remesh_nss_epsilon', 'eps', [0.001, 0.05]), ('remesh_nss_st', 'st', [0.05, 0.5, 1]),
                          ('remesh_nss_fix_nodes', 'fix', [True, False])):
        if rng.random() < 0.35:
            put(name, key, rng.choice(vs))
    return j, o


def case(ctx, rng, i):
    kind, closed, V, F = B.any_body(rng, rng.choice(['s', 's', 'm']))
    s = rng.choice([0.3, 1.0, 1.0, 10.0, 0.01, 1e-3, 1e-4])
    R, t = M.rotate(rng), [rng.uniform(-2, 2) * s for _ in range(3)]
    V = [tuple(M.apply(R, t, s, v)) for v in V]
    side = min(B.min_side(V, f) for f in F)
    ik, hi = B.ice_field(rng, V, F, side * rng.choice([0.01, 0.05, 0.1, 0.25]))
    m = B.make(rng, V, F, hi)
    j, o = config(rng)
    g = None
    for turn in range(rng.choice([1, 1, 1, 2])):
        if turn:
            # The same grid object grows once more, with other options.
            V = P
            side = min(B.min_side(V, f) for f in F)
            if not B.sound(V, F):
                return
            ik, hi = B.ice_field(rng, V, F, side * rng.choice([0.01, 0.05, 0.1]))
            for d, h in zip(m.data, hi):
                d['Hi'] = h
            for x, f in zip([x for z in m.by_zone() for x in z], g.Faces):
                f['Hi'] = hi[x]
            j, o = config(rng)
            ctx.count('second growths')
        V0 = np.array([[float(repr(x)) for x in v] for v in V])

        def scheme(W, thr=1e-10):
            x = tong.Scheme(W, F, hi, dict(o, thr=thr))
            with np.errstate(all='ignore'):
                return x.grow(), x
        try:
            want, x = scheme(V0)
            r = np.random.RandomState(rng.randrange(2 ** 31))
            size = np.abs(V0).max()
            other = max(float(np.abs(scheme(V0 + r.uniform(-1, 1, V0.shape) * 4e-15 * size)[0] - want).max()) for _ in range(2))
        except (ArithmeticError, np.linalg.LinAlgError):
            ctx.count('scheme refuses')
            return
        tol = max(1e-7 * side, 2000 * other, 3 * x.shaky)
        if not tol < 3e-5 * side:
            ctx.count('not stable')
            return
        if g is None:
            g, out = B.remesh(ctx, m, j)
        else:
            p = ctx.path('again.json')
            with open(p, 'w') as f:
                json.dump(j, f)
            with quiet():
                remeshing.TongRemesher('/g.dat', p, ctx.path('rm', 'out')[:-1])(g)
        P = B.positions(m, g)
        ctx.check(P is not None and all(p is not None for p in P), 'nodes are split')
        ctx.count('growths compared')
        ctx.count('nodes compared', len(P))
        ctx.count('redistributed' if o['redistribute'] else 'not redistributed')
        for key, what in (('nsmooth', 'normals smoothed'), ('hsmooth', 'heights smoothed'), ('nss', 'null-space smoothed')):
            ctx.count(what, int(o[key] > 0))
        own = sorted(k for k in j if not k.endswith('steps') and 'nsteps' not in k and 'redistr' not in k)
        ctx.count('own coefficients', int(bool(own)))
        d = np.linalg.norm(np.array(P) - want, axis=1)
        k = int(d.argmax())
        if s < 0.1:
            ctx.count('small bodies')
            if float(d[k]) > tol:
                # Where the terms of second order stop to count is a matter of rounding: they may count down to zero.
                try:
                    other, y = scheme(V0, 0.0)
                    if y.shaky > tol:
                        ctx.count('not stable')
                        return
                    want = other
                    d = np.linalg.norm(np.array(P) - want, axis=1)
                    k = int(d.argmax())
                except (ArithmeticError, np.linalg.LinAlgError):
                    pass
        ctx.check(float(d[k]) <= tol, lambda: '{0} of {1} faces, {2} ice, configuration {3}, growth {10}: node {4} is at {5}, the scheme '
                  'puts it at {6} (distance {7:.3g}, its own move {8:.3g}, shortest side {9:.3g})'.format(
                      kind, len(F), ik, j, k, P[k], list(want[k]), d[k], float(np.linalg.norm(want[k] - V0[k])), side, turn), 'place')
    ctx.sig(kind, ik, len(F).bit_length(), o['steps'], o['redistribute'], o['nsmooth'] > 0, o['hsmooth'] > 0, o['nss'] > 0, tuple(own),
            min(len(m.znames), 3))
    ctx.sample({'body': kind, 'faces': len(F), 'ice': ik, 'configuration': j, 'largest difference': float(d[k]), 'allowed': tol})
