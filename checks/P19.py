"""P19: flights of droplets watched by an independent model of motion and of verdicts."""
import math

import drops
import geom
from vh import exact as X
from vh import flight as FL
from vh import mesh as M
from vh.core import quiet

RULE = ('distinct (verdict, number of points bucket, regime of drag, surface kind, air layout, limit, reason of the last step)')
QUICK, THOROUGH = 5400, 25000
MIN = {'flights': 400, 'verdict C': 60, 'flights far from the origin': 300, 'verdict O': 40, 'verdict N': 60, 'verdict S': 10, 'steps checked': 2500,
       'segments against surface': 2500}
ASSUMPTIONS = ['A segment passing within 1e-6 (relative) of the rim of a face may be judged either way.',
               'When the step limit is reached and the last point is also outside, either verdict is accepted.',
               'The limit counts steps: a flight of at most max_fly_steps steps has at most max_fly_steps + 1 points.']


def rv(rng, s):
    return [s * rng.gauss(0, 1) for _ in range(3)]


def air_field(rng, half):
    """(kind, list of (point, velocity))"""
    kind = rng.choice(['lattice', 'cloud', 'corners', 'uniform', 'still', 'vortex'])
    u = rv(rng, 10 ** rng.uniform(-1, 2))
    res = []
    if kind in ('lattice', 'uniform', 'still', 'vortex'):
        n = rng.randint(2, 4)
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    p = [half * (2.0 * c / (n - 1) - 1.0) for c in (i, j, k)]
                    if kind == 'uniform':
                        v = list(u)
                    elif kind == 'still':
                        v = [0.0, 0.0, 0.0]
                    elif kind == 'vortex':
                        w = 10.0 / half
                        v = [-w * p[1], w * p[0], 0.1 * u[2]]
                    else:
                        v = [u[c] + rng.gauss(0, 5) for c in range(3)]
                    res.append((p, v))
    elif kind == 'cloud':
        for _ in range(rng.randint(1, 40)):
            res.append(([rng.uniform(-half, half) for _ in range(3)], [u[c] + rng.gauss(0, 10) for c in range(3)]))
    else:
        for p in ([-half, -half, -half], [half, half, half]):
            res.append((list(p), rv(rng, 20)))
    rng.shuffle(res)
    return kind, res


def surface(rng, half):
    kind = rng.choice(['mesh', 'mesh', 'wall', 'double', 'none', 'soup'])
    s = half * 10 ** rng.uniform(-0.7, 0.0)
    if kind == 'mesh':
        m = M.random_shape(rng, 's')
        r = max(abs(c) for p in m.V for c in p) or 1.0
        pts = [[[s * c / r for c in m.V[k]] for k in f] for f in m.F]
    elif kind in ('wall', 'double'):
        pts = []
        for h in ([0.3] if kind == 'wall' else [0.3, 0.300001]):
            a = [[-s, -s, h * s], [s, -s, h * s], [s, s, h * s], [-s, s, h * s]]
            pts += [[a[0], a[1], a[2]], [a[0], a[2], a[3]]]
    elif kind == 'none':
        pts = [[[9 * half, 9 * half, 9 * half], [10 * half, 9 * half, 9 * half], [9 * half, 10 * half, 9 * half]]]
    else:
        pts = []
        for _ in range(rng.randint(1, 25)):
            o = [rng.uniform(-half, half) for _ in range(3)]
            pts.append([[o[k] + rng.gauss(0, 0.3 * s) for k in range(3)] for _ in range(3)])
    good = []
    for t in pts:
        c = X.cross(X.sub(t[1], t[0]), X.sub(t[2], t[0]))
        if math.sqrt(sum(x * x for x in c)) > 1e-9 * s * s:
            good.append(t)
    return kind, good or surface(rng, half)[1]


def case(ctx, rng, i):
    half = 10 ** rng.uniform(-2, 1)
    akind, air = air_field(rng, half)
    skind, pts = surface(rng, half)
    if rng.random() < 0.3:
        # Far from the origin.
        off = rv(rng, half * 10 ** rng.uniform(1, 6))
        air = [([a + b for a, b in zip(p, off)], v) for p, v in air]
        pts = [[[a + b for a, b in zip(p, off)] for p in t] for t in pts]
        ctx.count('flights far from the origin')
    V = lambda p: geom.Vect(*[float(x) for x in p])
    tris = []
    for k, t in enumerate(pts):
        tri = geom.Triangle(*[V(p) for p in t])
        tri.BackRef = ('face', k)
        tris.append(tri)
    exact = [[X.fv(p) for p in t.Points] for t in tris]
    cloud = geom.TrianglesCloud(list(tris))
    ds = [(V(p), V(v)) for p, v in air]
    space = drops.Space(ds, [p.coords_tuple() for p, _ in ds])
    bx = FL.box(air)
    for _ in range(2):
        start = [rng.uniform(bx[0][k], bx[1][k]) for k in range(3)]
        if rng.random() < 0.05:
            start = [x * 1.5 + half * 0.1 for x in start]
        d = 10 ** rng.uniform(-5, -2.5)
        speed = 10 ** rng.uniform(-1, 2)
        dt = half / speed * 10 ** rng.uniform(-2.2, 0.2)
        r = rng.random()
        vel = rv(rng, speed)
        if r < 0.3:
            # Aim at a face.
            t = rng.choice(pts)
            c = [sum(p[k] for p in t) / 3 for k in range(3)]
            l = math.dist(c, start) or 1.0
            vel = [speed * (c[k] - start[k]) / l for k in range(3)]
            if rng.random() < 0.6:
                d = 10 ** rng.uniform(-3, -1.5)
        elif r < 0.4:
            vel = list(FL.nearest(air, start)[0])       # moves together with the air
        elif r < 0.5:
            vel = [0.0, 0.0, 0.0]
        elif r < 0.55:
            vel = [1e-16 / dt * x for x in rv(rng, 0.01)]
        # Keep the explicit scheme within its domain: the drag must not throw the droplet away.
        rate = max(FL.drag(vel, FL.nearest(air, start)[0], d))
        if rate * dt > 1.5 and rng.random() < 0.9:
            dt = rng.uniform(0.05, 1.2) / rate
        limit = rng.choice([0, 1, 2, 3, 5, 20, 40, 60])
        fly(ctx, rng, space, air, bx, tris, exact, cloud, start, vel, d, dt, limit, akind, skind)
    if i < 4:
        ctx.sample({'air': akind, 'points': len(air), 'surface': skind, 'faces': len(tris)})


def fly(ctx, rng, space, air, bx, tris, exact, cloud, start, vel, d, dt, limit, akind, skind):
    P, W = geom.Vect(*start), geom.Vect(*vel)
    with quiet():
        res = space.fly(P, W, d, dt, cloud, limit)
    ctx.check(len(res) == 3, 'a flight returns three things', monitor='flights')
    kind, face, tr = res
    pts = [tuple(float(x) for x in p.coords_tuple()) for p in tr.Points]
    what = 'flight from {0} with velocity {1}, diameter {2}, step {3}, limit {4}: {5} after {6} points'.format(
        start, vel, d, dt, limit, kind, len(pts))
    ctx.check(kind in ('N', 'O', 'S', 'C'), '{0}: unknown verdict'.format(what))
    ctx.count('verdict ' + kind)
    ctx.check(P.coords_tuple() == tuple(start) and W.coords_tuple() == tuple(vel), '{0}: operands changed'.format(what))
    ctx.eq(pts[0], tuple(start), '{0}: first point'.format(what), monitor='flights')
    ctx.check(len(pts) <= limit + 1, '{0}: too many points'.format(what), monitor='limit')
    ctx.eq(tr.points_count(), len(pts), 'points count', monitor='flights')
    ctx.eq((tr.segments_count(), tuple(tr.last_point().coords_tuple())), (len(pts) - 1, pts[-1]), 'trajectory views')
    states = FL.follow(ctx, air, pts, vel, d, dt, what)
    # Every point that was flown from must be inside the box.
    for k, p in enumerate(pts[:-1]):
        ctx.check(FL.inside(bx, p), '{0}: flew on from point {1} {2} outside of the box'.format(what, k, p), monitor='inside')
    for k in range(len(pts) - 1):
        ctx.check(pts[k] != pts[k + 1], '{0}: goes on standing at point {1}'.format(what, k), monitor='standstill')
    last_hit = None
    for k in range(len(pts) - 1):
        sure, maybe = FL.hits(exact, pts[k], pts[k + 1])
        ctx.count('segments against surface')
        if k < len(pts) - 2 or kind != 'C':
            ctx.check(not sure, lambda: '{0}: segment {1} passes through face {2} unnoticed'.format(what, k, pts and sure[0]),
                      monitor='surface')
        else:
            last_hit = (sure, maybe)
    if kind == 'C':
        ctx.check(last_hit is not None and bool(last_hit[1]), '{0}: the last segment meets no face'.format(what), monitor='surface')
        ctx.check(isinstance(face, tuple) and face[0] == 'face', '{0}: no face returned'.format(what), monitor='surface')
        ctx.check(face[1] in last_hit[1], lambda: '{0}: returned face {1}, the segment meets {2}'.format(what, face[1], last_hit),
                  monitor='surface')
    else:
        ctx.check(face is None, '{0}: a face without a hit'.format(what), monitor='surface')
    full = len(pts) == limit + 1
    out = not FL.inside(bx, pts[-1])
    if kind == 'N':
        ctx.check(full, '{0}: stopped before the limit'.format(what), monitor='limit')
    elif kind == 'O':
        ctx.check(out, '{0}: the last point {1} is inside the box'.format(what, pts[-1]), monitor='inside')
    elif kind == 'S':
        ctx.check(not out, '{0}: stands still outside'.format(what), monitor='inside')
        ctx.check(any(math.sqrt(sum((c * dt) ** 2 for c in v)) <= 1.1e-15 + e * dt + 1e-15 * max(map(abs, pts[-1])) for v, e in states),
                  '{0}: still moves with {1}'.format(what, states), monitor='standstill')
    ctx.sig(kind, len(pts).bit_length(), skind, akind, limit, full, out, FL.drag(vel, FL.nearest(air, pts[0])[0], d)[0] * dt > 0.3)
    ctx.count('flights')
