"""P25: null-space smoothing on polyhedra with known features and, step by step, on arbitrary surfaces."""
import json
import math

import numpy as np

import remeshing
import smoothing
from vh import bodies as B
from vh import loadcmp
from vh import mesh as M
from vh.core import quiet

RULE = ('distinct (body, faces bucket, iterations, step factor, fixed borders, scale, way of running)')
QUICK, THOROUGH = 480, 6000
MIN = {'plane nodes': 300, 'crease nodes': 100, 'corner nodes': 80, 'border nodes': 300, 'null space steps': 800,
       'judged free nodes': 60, 'regular nodes': 30, 'zero iterations': 6, 'nodes that moved': 500, 'faces compared': 3000, 'intermediate nodes': 300, 'defaults used': 200}
TIMEOUT = 120
ASSUMPTIONS = ['Dihedral angles at creases are at least 30 degrees and eigenvalues of the matrix of normals which separate features '
               'are a factor of 2 away from the configured threshold (nodes where they are not are not judged).',
               'Positions are compared within 1e-7 of the size of the body.']


def box(rng):
    """Triangulated box: V, F, features {vertex: ('plane', normal axis) | ('line', axis) | 'corner'}; nodes are jittered in place."""
    n = [rng.randint(1, 4) for _ in range(3)]
    dim = [rng.uniform(0.7, 1.5) * k for k in n]
    ids, V, feat = {}, [], []
    for i in range(n[0] + 1):
        for j in range(n[1] + 1):
            for k in range(n[2] + 1):
                p = (i, j, k)
                out = [a for a in range(3) if p[a] in (0, n[a])]
                if not out:
                    continue
                q = [dim[a] * (p[a] + (0 if a in out else rng.uniform(-0.25, 0.25))) / n[a] for a in range(3)]
                ids[p] = len(V)
                V.append(q)
                feat.append(('plane', out[0]) if len(out) == 1 else ('line', [a for a in range(3) if a not in out][0])
                            if len(out) == 2 else ('corner', None))
    F = []
    for a in range(3):
        b, c = (a + 1) % 3, (a + 2) % 3
        for side in (0, n[a]):
            for x in range(n[b]):
                for y in range(n[c]):
                    def at(u, v):
                        p = [0, 0, 0]
                        p[a], p[b], p[c] = side, u, v
                        return ids[tuple(p)]
                    q = [at(x, y), at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)]
                    if side == 0:
                        q.reverse()
                    if rng.random() < 0.5:
                        q = q[1:] + q[:1]
                    F += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    return V, F, feat, False


def roof(rng):
    """Two flat slopes meeting in a ridge (or a valley); open."""
    n, m = rng.randint(2, 6), rng.randint(1, 3)
    t = math.radians(rng.uniform(15, 65)) * rng.choice([1, -1])
    V, feat = [], []
    for i in range(-m, m + 1):
        for j in range(n + 1):
            onb = abs(i) == m or j in (0, n)
            x = i + (0 if i == 0 or onb else rng.uniform(-0.25, 0.25))
            y = j + (0 if j in (0, n) else rng.uniform(-0.25, 0.25))
            V.append([x * math.cos(t), y, -abs(x) * math.sin(t)])
            feat.append(('line', 1) if i == 0 else ('plane', ('n', (math.sin(t) * (1 if i > 0 else -1), 0.0, math.cos(t)))))
    F = []
    w = n + 1
    for i in range(2 * m):
        for j in range(n):
            q = [i * w + j, (i + 1) * w + j, (i + 1) * w + j + 1, i * w + j + 1]
            if rng.random() < 0.5:
                q = q[1:] + q[:1]
            F += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    return V, F, feat, True


def regular(rng):
    """Regular triangular lattice."""
    n, m = rng.randint(2, 6), rng.randint(2, 6)
    V = [[i + 0.5 * j, j * math.sqrt(3) / 2, 0.0] for i in range(n + 1) for j in range(m + 1)]
    F = []
    for i in range(n):
        for j in range(m):
            a, b, c, d = i * (m + 1) + j, (i + 1) * (m + 1) + j, (i + 1) * (m + 1) + j + 1, i * (m + 1) + j + 1
            F += [(a, b, d), (b, c, d)]
    return V, F, [('fixed', None) if 0 < i < n and 0 < j < m else ('plane', 2) for i in range(n + 1) for j in range(m + 1)], True


def border_nodes(F):
    s = set()
    for e, fs in M.edge_faces(F).items():
        if len(fs) == 1:
            s.update(e)
    return s


def unit(a):
    return [1.0 if a == k else 0.0 for k in range(3)]


def ratios(P, F, star, v):
    """Normals of the faces at a vertex: relative eigenvalues of the weighted matrix and its eigenvectors."""
    A = np.zeros((3, 3))
    for fi in star[v]:
        n = np.array(B.normal(P, F[fi]))
        A += B.area(P, F[fi]) * np.outer(n, n)
    w, U = np.linalg.eigh(A)
    w, U = w[::-1], U[:, ::-1]
    return w / w[0], U


def run(ctx, g, iters, st, eps, fix, marked=False):
    with quiet():
        if fix or marked:
            # Marks alone hold nothing.
            g.mark_all_fixed_nodes()
        # Arguments with values of documented defaults are left out.
        kw = {'num_iterations': iters, 'st': st, 'epsilon': eps, 'fix_boundary_nodes': fix}
        for k, v in DEFAULTS.items():
            if kw[k] == v:
                kw.pop(k)
                ctx.count('defaults used')
        smoothing.NullSpaceSmoothing(g, **kw).smoothing()


DEFAULTS = {'num_iterations': 0, 'st': 0.2, 'epsilon': 1e-2, 'fix_boundary_nodes': False}


def unchanged(ctx, m, g, before):
    """Everything but positions."""
    order = [i for z in m.by_zone() for i in z]
    ctx.eq(len(g.Faces), len(order), 'number of faces')
    ctx.eq([[id(n) for n in f.Nodes] for f in g.Faces], before[0], 'nodes of faces')
    ctx.eq([[id(n) for n in e.Nodes] + [id(f) for f in e.Faces] for e in g.Edges], before[1], 'edges')
    for i, f in zip(order, g.Faces):
        ctx.count('faces compared')
        ctx.eq(f.Zone.Name, m.znames[m.zone[i]], 'zone of face')
        ctx.eq(dict(f.Data), m.data[i], 'data of face')


def snapshot(g):
    return [[id(n) for n in f.Nodes] for f in g.Faces], [[id(n) for n in e.Nodes] + [id(f) for f in e.Faces] for e in g.Edges]


def loaded(ctx, m):
    import gsu
    M.write_dat(m, ctx.path('g.dat'))
    return loadcmp.load(gsu, ctx.path('g.dat'))


def features(ctx, rng):
    kind, make = rng.choice([('box', box), ('roof', roof), ('regular', regular), ('box', box), ('roof', roof)])
    V0, F, feat, open_ = make(rng)
    s = rng.choice([1e-4, 0.01, 1.0, 1.0, 30.0, 1000.0])
    R, t = M.rotate(rng), [rng.uniform(-3, 3) * s for _ in range(3)]
    if rng.random() < 0.3:
        R = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    V = [tuple(M.apply(R, t, s, v)) for v in V0]
    pv = list(range(len(V)))
    rng.shuffle(pv)
    inv = {o: k for k, o in enumerate(pv)}
    V, feat = [V[o] for o in pv], [feat[o] for o in pv]
    F = [tuple(inv[x] for x in f) for f in F]
    m = B.make(rng, V, F, [0.0] * len(F))
    g = loaded(ctx, m)
    before = snapshot(g)
    iters, st, eps = rng.choice([0, 1, 2, 5, 9]), rng.choice([0.05, 0.2, 0.5]), rng.choice([0.01, 0.01, 0.003])
    fix = open_ and rng.random() < 0.6
    if kind == 'regular':
        fix = True
    tool = rng.random() < 0.25
    if tool:
        # Through the remesher, on a grid without ice.
        with open(ctx.path('o.json'), 'w') as f:
            json.dump({'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1, 'remesh_nss_steps': iters, 'remesh_nss_st': st,
                       'remesh_nss_epsilon': eps, 'remesh_nss_fix_nodes': fix}, f)
        with quiet():
            remeshing.TongRemesher('/g.dat', ctx.path('o.json'), ctx.path('o')[:-2])(g)
    else:
        run(ctx, g, iters, st, eps, fix, marked=rng.random() < 0.4)
    unchanged(ctx, m, g, before)
    P = B.positions(m, g)
    size = max(math.dist(V[0], v) for v in V)
    tol = 1e-7 * size + 1e-12 * max(abs(c) for v in V for c in v)
    bn = border_nodes(F)
    what = '{0}, {1} iterations, st {2}, epsilon {3}, scale {4}'.format(kind, iters, st, eps, s)
    star = [[] for _ in V]
    for fi, f in enumerate(F):
        for v in f:
            star[v].append(fi)
    for v, (p, q) in enumerate(zip(P, V)):
        d = [p[k] - q[k] for k in range(3)]
        ln = math.sqrt(sum(x * x for x in d))
        if ln > 1e-6 * size:
            ctx.count('nodes that moved')
        if iters == 0:
            ctx.check(ln == 0.0, lambda: what + ': node {0} moved by {1}'.format(v, d), 'zero')
            continue
        if fix and v in bn:
            ctx.check(ln == 0.0, lambda: what + ': border node {0} moved by {1}'.format(v, d), 'border', 'border nodes')
            continue
        t, a = feat[v]
        if t == 'fixed':
            ctx.check(ln <= tol, lambda: what + ': node of a regular grid moved by {0}'.format(d), 'regular', 'regular nodes')
            continue
        if t == 'plane':
            n = np.array(R) @ np.array(a[1] if isinstance(a, tuple) else unit(a))
            ctx.check(abs(float(np.dot(n, d))) <= tol,
                      lambda: what + ': node {0} inside a flat region left its plane: {1}'.format(v, d), 'plane', 'plane nodes')
            continue
        w = ratios(V, F, star, v)[0]
        if t == 'line' and w[1] > 4 * eps:
            x = np.array(R) @ np.array(unit(a))
            rest = np.array(d) - x * float(np.dot(x, d))
            ctx.check(float(np.linalg.norm(rest)) <= tol,
                      lambda: what + ': node {0} on a crease left its line: {1}'.format(v, d), 'crease', 'crease nodes')
        elif t == 'corner' and w[2] > 4 * eps:
            ctx.check(ln <= tol, lambda: what + ': corner node {0} moved by {1}'.format(v, d), 'corner', 'corner nodes')
    if iters == 0:
        ctx.count('zero iterations')
    ctx.sig(kind, len(F).bit_length(), iters, st, eps, fix, s, tool)
    ctx.sample({'body': kind, 'faces': len(F), 'iterations': iters, 'st': st, 'epsilon': eps, 'fixed borders': fix, 'scale': s})


def stepwise(ctx, rng):
    """Any surface: every single step stays in the null space and brings the node closer to the middle of its faces."""
    kind, closed, V, F = B.any_body(rng, 's')
    s = rng.choice([1e-4, 0.1, 1.0, 20.0])
    R = M.rotate(rng)
    V = [tuple(M.apply(R, [0, 0, 0], s, v)) for v in V]
    m = B.make(rng, V, F, [0.0] * len(F))
    g = loaded(ctx, m)
    before = snapshot(g)
    st, eps = rng.choice([0.1, 0.2, 0.3, 1.0]), rng.choice([0.01, 0.003, 0.1, 0.3])
    fix = rng.random() < 0.5
    bn = border_nodes(F)
    size = max(max(abs(c) for c in v) for v in V)
    star = [[] for _ in V]
    for fi, f in enumerate(F):
        for v in f:
            star[v].append(fi)
    P = V
    steps = []
    marked = rng.random() < 0.4
    for it in range(rng.choice([1, 2, 3])):
        run(ctx, g, 1, st, eps, fix, marked)
        Q = B.positions(m, g)
        steps.append(Q)
        ctx.check(Q is not None, 'nodes are split')
        for v in range(len(V)):
            if not star[v]:
                continue
            d = np.array(Q[v]) - np.array(P[v])
            what = '{0}, step {1}, st {2}, epsilon {3}, node {4}'.format(kind, it, st, eps, v)
            if fix and v in bn:
                ctx.check(not d.any(), lambda: what + ': border node moved by {0}'.format(d), 'border', 'border nodes')
                continue
            w, U = ratios(P, F, star, v)
            if any(0.5 * eps < x < 2 * eps for x in w):
                continue
            k = sum(1 for x in w if x > eps)
            ctx.count('null space steps')
            tol = 1e-8 * size
            for a in range(k):
                ctx.check(abs(float(np.dot(U[:, a], d))) <= tol, lambda: what + ': moved by {0}, out of the null space'.format(d), 'null')
            if k < 3:
                ctx.count('judged free nodes')
                c = sum(np.array([sum(P[x][q] for x in F[fi]) / 3 for q in range(3)]) for fi in star[v]) / len(star[v])
                was, now = np.linalg.norm(c - np.array(P[v])), np.linalg.norm(c - np.array(Q[v]))
                ctx.check(now <= was + tol, lambda: what + ': went away from the middle of adjacent faces', 'towards')
                full = st * U[:, k:] @ (U[:, k:].T @ (c - np.array(P[v])))
                ctx.check(float(np.linalg.norm(d - full)) <= 1e-7 * size, lambda: what + ': moved by {0}, the share st of the way to the '
                          'middle of adjacent faces inside the null space is {1}'.format(d, full), 'share')
                free = np.linalg.norm(U[:, k:].T @ (c - np.array(P[v])))
                if free > 1e-3 * size:
                    ctx.check(float(np.linalg.norm(d)) > 1e-6 * size * st, lambda: what + ': does not move, though it may', 'moves')
        P = Q
        if not B.sound(P, F):
            break
    unchanged(ctx, m, g, before)
    # Several iterations at once are the same iterations one by one.
    if it > 0:
        g2 = loaded(ctx, m)
        run(ctx, g2, it + 1, st, eps, fix)
        for v, (p, q) in enumerate(zip(B.positions(m, g2), P)):
            ctx.check(max(abs(a - b) for a, b in zip(p, q)) <= 1e-9 * size, '{0} iterations at once differ from one by one'.format(it + 1),
                      'compose')
    if rng.random() < 0.3:
        stored(ctx, m, steps, st, eps, fix, size)
    ctx.sig('steps', kind, len(F).bit_length(), st, eps, fix, s)


def stored(ctx, m, steps, st, eps, fix, size):
    """Intermediate grids, when asked for, are the grids after every iteration, and storing them changes nothing."""
    import os
    g = loaded(ctx, m)
    if fix:
        g.mark_all_fixed_nodes()
    d = os.path.dirname(ctx.path('steps', 'x'))
    old = os.getcwd()
    os.chdir(d)
    try:
        with quiet():
            smoothing.NullSpaceSmoothing(g, len(steps), st=st, epsilon=eps, print_intermediate_steps=True,
                                         fix_boundary_nodes=fix).smoothing()
    finally:
        os.chdir(old)
    ctx.eq(sorted(os.listdir(d)), ['NullSpace_smoothing_{0:03d}.dat'.format(k) for k in range(len(steps))], 'intermediate grids')
    order = [i for z in m.by_zone() for i in z]
    for k, P in enumerate(steps):
        got = M.Dat(os.path.join(d, 'NullSpace_smoothing_{0:03d}.dat'.format(k))).faces()
        ctx.eq(len(got), len(order), 'faces of an intermediate grid')
        for i, (zn, ps, _) in zip(order, got):
            for v, p in zip(m.F[i], ps):
                ctx.check(max(abs(a - b) for a, b in zip(p, P[v])) <= 1e-9 * size, 'intermediate grid {0} of {1}: node at {2}, expected '
                          '{3}'.format(k, len(steps), p, P[v]), monitor='intermediate nodes')
    for p, q in zip(B.positions(m, g), steps[-1]):
        ctx.check(max(abs(a - b) for a, b in zip(p, q)) <= 1e-9 * size, 'storing intermediate grids changed the result',
                  monitor='intermediate nodes')


def case(ctx, rng, i):
    (features if i % 3 else stepwise)(ctx, rng)
