"""P24: what the remesher says it does (options, number of steps) and does under random configurations; pseudo-2D mode."""
import json
import math
import os
import random
import re

import remeshing
from vh import bodies as B
from vh import loadcmp
from vh import mesh as M
from vh.core import quiet, run_cli

RULE = ('distinct (part, keys given in the configuration) for options; (faces bucket, limits, factor, ignored part, which limit decided) '
        'for steps; (layers, curve, closed, smoothing options, steps) for pseudo-2D mode')
QUICK, THOROUGH = 1620, 12000
MIN = {'configurations': 60, 'options compared': 1000, 'step counts': 60, 'columns': 200, 'rejections': 20,
       'limits rejected': 5, 'options changed between objects': 60, 'pseudo-2D runs': 25, 'pseudo-2D moved nodes': 400, 'pseudo-2D refused': 10, 'neutral options': 20,
       'intermediate grids': 60, 'border nodes kept': 20}
ASSUMPTIONS = ['Options are read from what the remesher prints about itself; steps are counted by printed step lines and by '
               'intermediate grids stored in verbose mode, which have to agree.',
               'A face whose ice per step is within 1e-9 (relative) of the limit counts for either side.']
# key -> (default, generator)
KEYS = {'export_stl': (False, lambda r: r.random() < 0.5),
        'remesh_verbose': (False, lambda r: r.random() < 0.5),
        'remesh_nsteps_min': (0, lambda r: r.randint(0, 20)),
        'remesh_nsteps_max': (10, lambda r: r.randint(0, 30)),
        'remesh_nsteps_hi_side_fact': (0.1, lambda r: r.choice([0.05, 0.2, 1.0, r.random()])),
        'remesh_nsteps_ignore_part': (0.05, lambda r: r.choice([0.0, 0.5, 1.0, r.random()])),
        'remesh_nsmooth_steps': (0, lambda r: r.randint(0, 9)),
        'remesh_nsmooth_s': (10.0, lambda r: r.uniform(0.1, 20)),
        'remesh_nsmooth_k': (0.15, lambda r: r.uniform(0.01, 1)),
        'remesh_hsmooth_steps': (0, lambda r: r.randint(0, 9)),
        'remesh_hsmooth_alfa': (0.2, lambda r: r.random()),
        'remesh_hsmooth_beta': (0.1, lambda r: r.random()),
        'remesh_rest_volume_redistr': (True, lambda r: r.random() < 0.5),
        'remesh_nss_steps': (0, lambda r: r.randint(0, 9)),
        'remesh_nss_epsilon': (0.01, lambda r: r.random()),
        'remesh_nss_st': (0.2, lambda r: r.random()),
        'remesh_nss_fix_nodes': (True, lambda r: r.random() < 0.5),
        'remesh_pseudo_2d_oz': (False, lambda r: r.random() < 0.5)}


def remesher(ctx, opts, verbose=None):
    j = None
    if opts is not None:
        j = ctx.path('o.json')
        if ctx.rng_old.random() < 0.3:
            # The file of options had other values for an earlier object.
            with open(j, 'w') as f:
                json.dump({k: KEYS[k][1](ctx.rng_old) for k in KEYS}, f)
            with quiet():
                remeshing.TongRemesher('/g.dat', j, '.')
            ctx.count('options changed between objects')
        with open(j, 'w') as f:
            json.dump(opts, f)
    os.makedirs(ctx.path('out', 'x')[:-2], exist_ok=True)
    with quiet():
        if verbose is None:
            return remeshing.TongRemesher('/g.dat', j, ctx.path('out', 'x')[:-2])
        return remeshing.TongRemesher('/g.dat', j, ctx.path('out', 'x')[:-2], verbose=verbose)


def loaded(ctx, m):
    import gsu
    M.write_dat(m, ctx.path('g.dat'))
    return loadcmp.load(gsu, ctx.path('g.dat'))


def options(ctx, rng):
    r = rng.random()
    if r < 0.1:
        given = None
    else:
        given = {k: KEYS[k][1](rng) for k in KEYS if rng.random() < rng.choice([0.1, 0.5, 1.0])}
        if rng.random() < 0.3:
            given['something_else'] = 17
        ks = list(given)
        rng.shuffle(ks)
        given = {k: given[k] for k in ks}
    v = rng.choice([None, None, True, False])
    with quiet() as out:
        remesher(ctx, given, v).print_options()
    seen = dict(re.findall(r'^ +(\w+) += (.*)$', out.getvalue(), re.M))
    ctx.count('configurations')
    for k, (default, _) in KEYS.items():
        want = (given or {}).get(k, default)
        if k == 'remesh_verbose' and v:
            want = True
        ctx.check(k in seen, 'option {0} is not reported'.format(k))
        ctx.check(seen[k] == str(want), lambda: 'option {0} is {1}, configured {2}'.format(k, seen[k], want), k, 'options compared')
    ctx.sig('options', sorted(given or {}), v)


def steps_of(ctx, out):
    n = len(re.findall(r'^\.\.\.\.\. step \d+ --', out, re.M))
    fs = [f for f in os.listdir(ctx.path('out', 'x')[:-2]) if re.fullmatch(r'g_\d{5}\.dat', f)]
    ctx.eq(sorted(fs), ['g_{0:05d}.dat'.format(k) for k in range(n)], 'intermediate grids', monitor='intermediate lists')
    ctx.count('intermediate grids', len(fs))
    return n


def steps(ctx, rng):
    kind, closed, V, F = B.body(rng, None, 1)
    s = rng.choice([1e-4, 0.1, 1.0, 100.0])
    V = [tuple(c * s for c in v) for v in V]
    side = [B.min_side(V, f) for f in F]
    fact = rng.choice([0.05, 0.1, 0.3])
    k = rng.random()
    if k < 0.2:
        hi = [0.0] * len(F)
    elif k < 0.4:
        hi = [rng.choice([0.0, 0.01, 0.3]) * x for x in side]
    elif k < 0.6:
        hi = [rng.uniform(0, 0.6) * x for x in side]
    else:
        # Few bad faces.
        hi = [rng.uniform(0, 0.2) * x for x in side]
        for j in rng.sample(range(len(F)), min(len(F), rng.randint(1, 3))):
            hi[j] = rng.uniform(0.5, 1.5) * side[j]
    given = {'remesh_nsteps_hi_side_fact': fact, 'remesh_verbose': True}
    if rng.random() < 0.8:
        given['remesh_nsteps_ignore_part'] = rng.choice([0.0, 0.02, 0.1, 0.3, 0.9, 1.0])
    lo, up = rng.choice([0, 0, 1, 2, 3]), rng.choice([1, 2, 4, 8, 12])
    if 0.7 < k:
        # As many too bad faces as may be ignored, or one or two more; all the others need less than the maximum.
        up = rng.choice([4, 8, 12])
        may = int(len(F) * given.get('remesh_nsteps_ignore_part', 0.05))
        hi = [rng.uniform(0.0, up - 2.0) * fact * x for x in side]
        for j in rng.sample(range(len(F)), min(len(F), may + rng.choice([0, 1, 1, 2]))):
            hi[j] = (up + rng.uniform(0.5, 3)) * fact * side[j]
    bad = rng.random() < 0.2
    if bad:
        lo = up + rng.randint(1, 5)
    if lo or rng.random() < 0.5 or bad:
        given['remesh_nsteps_min'] = lo
    if bad or up < lo or rng.random() < 0.9:
        given['remesh_nsteps_max'] = up if bad else max(up, lo)
    lo, up = given.get('remesh_nsteps_min', 0), given.get('remesh_nsteps_max', 10)
    m = B.make(rng, V, F, hi)
    g = loaded(ctx, m)
    r = remesher(ctx, given)
    if lo > up:
        ctx.count('limits rejected')
        with ctx.raises('limits of steps {0} and {1}'.format(lo, up)):
            r(g)
        ctx.sig('limits', lo, up)
        return
    with quiet() as out:
        r(g)
    n = steps_of(ctx, out.getvalue())
    ctx.count('step counts')
    what = '{0} faces, options {1}: {2} steps'.format(len(F), given, n)
    ctx.check(lo <= n <= up, lambda: what + ', outside of the limits', 'limits')
    part = given.get('remesh_nsteps_ignore_part', 0.05)
    if n != up:
        over = sum(1 for h, x in zip(hi, side) if h > 0.0 and (n == 0 or h / n > fact * x * (1 + 1e-9)))
        ctx.check(over <= min(len(F) * part * (1 + 1e-9), len(F) - 1),
                  lambda: what + ', but {0} faces get more than {1} of the side per step'.format(over, fact), 'enough', 'enough steps')
    ctx.sig('steps', len(F).bit_length(), lo, up, fact, part, n == up, n == lo)


def extruded(rng):
    """(V, F, curve points, layers): curve index * L + layer, before shuffling."""
    k = rng.randint(3, 9)
    closed = rng.random() < 0.3 and k > 3
    if rng.random() < 0.3:
        c = [(2.0 * i, 0.0) for i in range(k)]
        closed = False
    else:
        full = 2 * math.pi * (1 if closed else rng.choice([0.3, 0.5, 0.8]))
        c = [((2 + 0.2 * rng.random()) * math.cos(full * i / (k if closed else k - 1)),
              1.3 * math.sin(full * i / (k if closed else k - 1))) for i in range(k)]
    a = rng.uniform(0, 7)
    s = rng.choice([1.0, 1.0, 0.1, 1e-4, 50.0])
    t = (rng.uniform(-3, 3), rng.uniform(-3, 3))
    c = [(s * (x * math.cos(a) - y * math.sin(a)) + t[0], s * (x * math.sin(a) + y * math.cos(a)) + t[1]) for x, y in c]
    L = rng.choice([2, 2, 3, 4, 5])
    z = [s * (0.7 * i + rng.uniform(0, 0.3)) + rng.choice([0.0, -1.0]) for i in range(L)]
    z.sort()
    V = [(x, y, zz) for x, y in c for zz in z]
    F = []
    for i in range(k if closed else k - 1):
        j = (i + 1) % k
        for l in range(L - 1):
            p, q, r, w = i * L + l, j * L + l, j * L + l + 1, i * L + l + 1
            F += rng.choice([[(p, q, r), (p, r, w)], [(p, q, w), (q, r, w)]])
    pv = list(range(len(V)))
    rng.shuffle(pv)
    inv = {o: n for n, o in enumerate(pv)}
    W = [V[o] for o in pv]
    F = [tuple(inv[x] for x in f) for f in F]
    rng.shuffle(F)
    cols = [[inv[i * L + l] for l in range(L)] for i in range(k)]
    return W, F, cols, closed


def pseudo(ctx, rng):
    V, F, cols, closed = extruded(rng)
    L = len(cols[0])
    side = min(B.min_side(V, f) for f in F)
    ik, hi = B.ice_field(rng, V, F, rng.choice([0.02, 0.1]) * side, rng.choice(['constant', 'wave', 'random', 'cap']))
    n = rng.randint(1, 4)
    given = {'remesh_pseudo_2d_oz': True, 'remesh_nsteps_min': n, 'remesh_nsteps_max': n}
    for k, x in (('remesh_nss_steps', rng.randint(1, 3)), ('remesh_nsmooth_steps', 2), ('remesh_hsmooth_steps', 2),
                 ('remesh_nss_fix_nodes', rng.random() < 0.5)):
        if rng.random() < 0.4:
            given[k] = x
    if rng.random() < 0.25:
        # Not extruded: a node leaves its column, or a column has one node more.
        V = [list(v) for v in V]
        how = rng.choice(['shift', 'extra', 'solid'])
        if how == 'shift':
            v = V[rng.choice(rng.choice(cols))]
            v[rng.randint(0, 1)] += side * rng.choice([1e-6, 0.01, 0.1])
        elif how == 'extra':
            f = F[0]
            V.append([sum(V[i][k] for i in f) / 3 for k in range(3)])
            e = len(V) - 1
            F = [(f[0], f[1], e), (f[1], f[2], e), (f[2], f[0], e)] + F[1:]
        else:
            kind, closed, V, F = B.body(rng, ['sphere', 'wavy', 'torus'], 1)
            R = M.rotate(rng)
            V = [tuple(M.apply(R, [0, 0, 0], 1.0, v)) for v in V]
        m = B.make(rng, V, F, [0.1 * side] * len(F))
        g = loaded(ctx, m)
        r = remesher(ctx, given)
        ctx.count('pseudo-2D refused')
        with ctx.raises('pseudo-2D mode on a grid which is not extruded ({0})'.format(how)):
            r(g)
        ctx.sig('refused', how, L, len(cols))
        return
    m = B.make(rng, V, F, hi)
    g = loaded(ctx, m)
    r = remesher(ctx, given)
    for k in range(rng.choice([1, 1, 2])):
        if k:
            for f in g.Faces:
                f['Hi'] = 0.05 * side
        with quiet():
            r(g)
        P = B.positions(m, g)
        ctx.check(P is not None, 'nodes are split')
        ctx.count('pseudo-2D runs')
        ctx.count('pseudo-2D moved nodes', sum(math.dist(p, v) > 1e-4 * side for p, v in zip(P, V)))
        for c in cols:
            ctx.count('columns')
            for v in c:
                ctx.check(P[v][2] == V[v][2], lambda: 'pseudo-2D, options {0}: node with span coordinate {1!r} has {2!r} now'.format(
                    given, V[v][2], P[v][2]), 'span')
                ctx.check(P[v][:2] == P[c[0]][:2], lambda: 'pseudo-2D, options {0}: column is not aligned: {1} and {2}'.format(
                    given, P[v], P[c[0]]), 'column')
    ctx.sig('pseudo', L, len(cols), closed, n, sorted(given), ik)
    ctx.sample({'pseudo-2D': True, 'layers': L, 'columns': len(cols), 'options': given})


def neutral(ctx, rng):
    """Options that must have no effect when what they tune is off."""
    kind, closed, V, F = B.body(rng, None, 1)
    side = min(B.min_side(V, f) for f in F)
    ik, hi = B.ice_field(rng, V, F, 0.1 * side, rng.choice(['wave', 'random']))
    base = {'remesh_nsteps_min': 2, 'remesh_nsteps_max': 2}
    m = B.make(rng, V, F, hi)
    what = rng.choice(['normals', 'heights', 'heights beta', 'nss', 'nss st', 'border', 'limits'])
    o = dict(base)
    if what == 'normals':
        o.update(remesh_nsmooth_s=3.3, remesh_nsmooth_k=0.7)
    elif what == 'heights':
        o.update(remesh_hsmooth_alfa=0.9, remesh_hsmooth_beta=0.4)
    elif what == 'heights beta':
        o.update(remesh_hsmooth_steps=3, remesh_hsmooth_beta=0.0)
    elif what == 'nss':
        o.update(remesh_nss_st=0.9, remesh_nss_epsilon=0.3, remesh_nss_fix_nodes=False)
    elif what == 'nss st':
        o.update(remesh_nss_steps=2, remesh_nss_st=0.0)
    elif what == 'limits':
        o.update(remesh_nsteps_hi_side_fact=0.37, remesh_nsteps_ignore_part=0.4)
    else:
        kind, closed, V, F = B.body(rng, ['plate', 'wavy'])
        side = min(B.min_side(V, f) for f in F)
        hi = B.ice_field(rng, V, F, 0.1 * side, 'wave')[1]
        m = B.make(rng, V, F, hi)
        base = {'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1}
        o = dict(base, remesh_nss_steps=2, remesh_nss_epsilon=0.1)
        if rng.random() < 0.5:
            o['remesh_nss_fix_nodes'] = True
    ctx.count('neutral options')
    res = []
    for q in (base, o):
        g = loaded(ctx, m)
        with quiet():
            remesher(ctx, q)(g)
        res.append(B.positions(m, g))
    size = max(max(abs(c) for c in v) for v in V)
    on_border = set()
    for e, fs in M.edge_faces(F).items():
        if len(fs) == 1:
            on_border.update(e)
    for v, (p, q) in enumerate(zip(*res)):
        if what == 'border':
            if v not in on_border:
                continue
            ctx.count('border nodes kept')
        ctx.check(max(abs(a - b) for a, b in zip(p, q)) <= 1e-9 * size,
                  lambda: 'options {0} ({1}): node {2} at {3}, without them at {4}'.format(o, what, v, q, p), 'neutral')
    ctx.sig('neutral', what, kind, len(F).bit_length())


def case(ctx, rng, i):
    ctx.rng_old = random.Random(i)
    (options, steps, pseudo, neutral)[0 if i % 8 in (0, 4) else 1 if i % 8 in (1, 5, 7) else 2 if i % 8 in (2, 6) else 3](ctx, rng)
