"""P15: intersection of a segment and a triangle against exact rational arithmetic, at every scale."""
import itertools
import math

import geom
from vh import exact as X

RULE = ('distinct (decade of triangle size, decade of segment to triangle ratio, decade of offset, kind of configuration, '
        'verdict, which coordinate decides)')
QUICK, THOROUGH = 1800, 20000
MIN = {'verdicts': 5000, 'hits': 1000, 'misses': 1000, 'points': 1000, 'one plane': 200, 'parallel': 60, 'small': 500, 'touches': 5000, 'touches in the plane': 4000,
       'large': 500}
ASSUMPTIONS = ['Touches in the plane of the triangle (along a side, past a vertex, an end on a side) are judged where they hold by '
               'construction, in unit-sized triangles.',
               'Configurations where the exact verdict would change under a relative displacement of 1e-6 (plus what the '
               'rounding of coordinate differences permits) count as the rim and are not judged, except where every step of the calculation is exact '
               '(sides along axes, sizes powers of two).',
               'Nearly parallel but not parallel segments (sine below 1e-6) are not judged.']


def vec(t):
    return geom.Vect(float(t[0]), float(t[1]), float(t[2]))


def rnd_dir(rng):
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        l = math.sqrt(sum(x * x for x in v))
        if l > 0.1:
            return [x / l for x in v]


def comb(o, *terms):
    return [o[k] + sum(w * t[k] for w, t in terms) for k in range(3)]


def random_triangle(rng, size, off):
    o = [off * x for x in rnd_dir(rng)]
    while True:
        pts = [comb(o, (size * rng.uniform(0.05, 1.0), rnd_dir(rng))) for _ in range(3)]
        e = [[pts[(k + 1) % 3][m] - pts[k][m] for m in range(3)] for k in range(3)]
        l = [math.sqrt(sum(x * x for x in v)) for v in e]
        c = [e[0][1] * e[1][2] - e[0][2] * e[1][1], e[0][2] * e[1][0] - e[0][0] * e[1][2],
             e[0][0] * e[1][1] - e[0][1] * e[1][0]]
        if min(l) > 0 and math.sqrt(sum(x * x for x in c)) > 1e-3 * l[0] * l[1]:
            n = math.sqrt(sum(x * x for x in c))
            return pts, [x / n for x in c]


def aimed(rng, pts, n, size):
    """A segment aimed at a chosen point of the plane, with a chosen crossing parameter."""
    kind = rng.random()
    if kind < 0.45:
        w = sorted([rng.random(), rng.random()])
        al, be = w[0], w[1] - w[0]
    elif kind < 0.8:
        # close to the rim, on either side
        d = rng.choice([-1, 1]) * 10 ** rng.uniform(-4.5, -0.5)
        t = rng.random()
        al, be = rng.choice([(d, t * (1 - d)), (t * (1 - d), d), ((1 - d) * t, (1 - d) * (1 - t))])
    else:
        al, be = rng.uniform(-2, 3), rng.uniform(-2, 3)
    target = comb([(1 - al - be) * pts[0][k] for k in range(3)], (al, pts[1]), (be, pts[2]))
    # Direction: anything from steep to grazing.
    lat = rnd_dir(rng)
    s = 10 ** rng.uniform(-3, 0) * rng.choice([-1, 1])
    d = comb([0, 0, 0], (1.0, [lat[k] - n[k] * sum(a * b for a, b in zip(lat, n)) for k in range(3)]), (s, n))
    length = size * 10 ** rng.uniform(-3, 3)
    kind = rng.random()
    if kind < 0.5:
        phi = rng.uniform(0.05, 0.95)
    elif kind < 0.8:
        phi = rng.choice([0, 1]) + rng.choice([-1, 1]) * 10 ** rng.uniform(-4.5, -1)
    else:
        phi = rng.uniform(-2, 3)
    l = math.sqrt(sum(x * x for x in d))
    d = [x / l * length for x in d]
    p = comb(target, (-phi, d))
    q = comb(target, (1 - phi, d))
    return p, q


def lattice(rng):
    """Triangle and segment with exactly representable coordinates in one plane, or parallel to it."""
    while True:
        if rng.random() < 0.4:
            ax = rng.randrange(3)
            u, v = [0, 0, 0], [0, 0, 0]
            u[ax], v[(ax + 1) % 3] = 1, 1
        else:
            u = [rng.randint(-6, 6) for _ in range(3)]
            v = [rng.randint(-6, 6) for _ in range(3)]
        w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        if any(w):
            break
    s = 2.0 ** rng.randint(-15, 13)
    o = [rng.randint(-40, 40) for _ in range(3)]
    r = rng.choice([4, 12, 40])

    def pt(i, j, h=0):
        return [s * (o[k] + i * u[k] + j * v[k] + h * w[k]) for k in range(3)]

    pts = [pt(rng.randint(-r, r), rng.randint(-r, r)) for _ in range(3)]
    h = rng.choice([0, 0, 0, 1, -2])
    return pts, pt(rng.randint(-r, r), rng.randint(-r, r), h), pt(rng.randint(-r, r), rng.randint(-r, r), h), s


def touching(rng):
    """
    A right triangle with legs along two axes and a segment along the third one: all sizes are powers of two and all coordinates small
    multiples of one, so that every step of the calculation is exact and touches have a definite verdict.
    """
    s = 2.0 ** rng.randint(-13, 10)
    ax = rng.sample(range(3), 3)
    o = [rng.randint(-16, 16) for _ in range(3)]
    legs = [2 ** rng.randint(1, 4), 2 ** rng.randint(1, 4)]
    sg = [rng.choice([-1, 1]) for _ in range(3)]

    def pt(i, j, h):
        c = list(o)
        for a, t, q in zip(ax, (i, j, h), sg):
            c[a] += q * t
        return [s * x for x in c]

    pts = [pt(0, 0, 0), pt(legs[0], 0, 0), pt(0, legs[1], 0)]
    # Where the line crosses the plane, in eighths of legs.
    kind = rng.choice(['inside', 'leg', 'leg', 'hypotenuse', 'vertex', 'outside'])
    t = rng.randint(1, 7)
    u, v = {'inside': (rng.randint(1, 4), rng.randint(1, 3)), 'leg': rng.choice([(t, 0), (0, t)]), 'hypotenuse': (t, 8 - t),
            'vertex': rng.choice([(0, 0), (8, 0), (0, 8)]), 'outside': rng.choice([(-1, t), (t, -1), (t, 9 - t), (9, 0), (-1, -1)])}[kind]
    n = 2 ** rng.randint(0, 5)
    h = rng.choice([0, 0, -n, -n, -rng.randint(0, n), 1, -n - 1])
    ends = {True: 'end', False: 'through'}[h in (0, -n)] if -n <= h <= 0 else 'short'
    i, j = u * legs[0] / 8.0, v * legs[1] / 8.0
    return pts, pt(i, j, h), pt(i, j, h + n), kind, ends


def judge_touch(ctx, rng):
    pts, p, q, kind, ends = touching(rng)
    tri = [tuple(X.F(x) for x in t) for t in pts]
    al, be, ga, phi = X.line_plane(tri, tuple(X.F(x) for x in p), tuple(X.F(x) for x in q))
    meets = min(al, be, ga, phi, 1 - phi) >= 0
    for order in itertools.permutations(range(3)):
        for rev in (False, True):
            t = geom.Triangle(*[vec(pts[k]) for k in order])
            a, b = (vec(q), vec(p)) if rev else (vec(p), vec(q))
            got = t.intersection_with_segment(geom.Segment(a, b))
            ctx.check(bool(got) == meets, lambda: 'triangle {0} segment {1} crossing the plane at {2} ({3}): reported {4}, exactly {5}'.format(
                [pts[k] for k in order], [a.coords_list(), b.coords_list()], kind, ends, [str(g) for g in got], meets), 'touch', monitor='touches')
            if meets:
                x = [float(p[k] + phi * (q[k] - p[k])) for k in range(3)]
                ctx.check(len(got) == 1 and max(abs(c - d) for c, d in zip(got[0].coords_list(), x)) <= 1e-12 * max(1e-3, max(map(abs, x))),
                          lambda: 'triangle {0} segment {1}: points {2}, exactly {3}'.format(pts, [p, q], [str(g) for g in got], x),
                          'touch', monitor='points')
    ctx.count('{0} {1}'.format(kind, ends))
    ctx.sig('touch', kind, ends, meets, round(math.log2(max(abs(x) for t in pts for x in t) or 1)))


def in_plane_touch(rng):
    """
    A well shaped triangle of any size and a segment in its plane that touches it at its rim only, or fails to by a good margin: on the
    line of a side, by a vertex, with an end on a side.
    """
    while True:
        if rng.random() < 0.5:
            pts = [[float(rng.randint(-9, 9)) for _ in range(3)] for _ in range(3)]
            s = 2.0 ** rng.randint(-13, 10)
        else:
            o = [rng.uniform(-10, 10) * rng.choice([0, 1]) for _ in range(3)]
            pts = [[c + rng.uniform(-1, 1) for c in o] for _ in range(3)]
            s = 10.0 ** rng.uniform(-4, 3)
        u, v, w = [[pts[j][k] - pts[i][k] for k in range(3)] for i, j in ((0, 1), (0, 2), (1, 2))]
        sides = [math.hypot(*z) for z in (u, v, w)]
        ar = math.hypot(u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        if ar > 0.1 * max(sides) ** 2:
            break
    pts = [[s * c for c in t] for t in pts]
    rng.shuffle(pts)
    a, b, c = pts

    def at(be, ga):
        return [a[k] + be * (b[k] - a[k]) + ga * (c[k] - a[k]) for k in range(3)]

    kind = rng.choice(['side', 'vertex', 'end'])
    if kind == 'side':
        # On the line of the side a-b.
        lo, hi = rng.choice([(-0.5, 1.5), (0.0, 1.0), (0.25, 0.75), (-2.0, 0.5), (0.5, 30.0), (-1.0, 0.0), (rng.uniform(-3, 0.4), rng.uniform(0.5, 5)),
                             (1.2, 3.0), (-4.0, -0.1), (-rng.uniform(1, 9), -rng.uniform(0.05, 0.9))])
        return pts, at(lo, 0.0), at(hi, 0.0), hi >= 0.0 and lo <= 1.0, kind
    if kind == 'vertex':
        # Past the vertex a.
        x, y = rng.uniform(0.1, 3), -rng.uniform(0.1, 3)
        lo, hi = rng.choice([(-1, 1), (0, 1), (-1, 0), (-0.3, 2), (0.1, 2), (-5, -0.1)])
        return pts, at(lo * x, lo * y), at(hi * x, hi * y), lo <= 0 <= hi, kind
    # An end on the side a-b, the rest outside.
    t, x, y = rng.uniform(0.1, 0.9), rng.uniform(-2, 2), -rng.uniform(0.1, 3)
    lo = rng.choice([0.0, 0.0, 0.05])
    return pts, at(t + lo * x, lo * y), at(t + x, y), lo == 0.0, kind


def judge_in_plane(ctx, rng):
    pts, p, q, meets, kind = in_plane_touch(rng)
    et = [tuple(X.F(x) for x in t) for t in pts]
    ep, eq = [tuple(X.F(x) for x in t) for t in (p, q)]
    tol = 1e-7 * max(X.norm(X.sub(et[1], et[0])), X.norm(X.sub(et[2], et[0])), X.norm(X.sub(eq, ep)))
    for order in itertools.permutations(range(3)):
        for rev in (False, True):
            t = geom.Triangle(*[vec(pts[k]) for k in order])
            a, b = (vec(q), vec(p)) if rev else (vec(p), vec(q))
            got = t.intersection_with_segment(geom.Segment(a, b))
            desc = lambda: 'triangle {0} segment {1} in its plane ({2})'.format([pts[k] for k in order], [a.coords_list(), b.coords_list()], kind)
            ctx.check(bool(got) == meets, lambda: '{0}: reported {1}, expected {2}'.format(desc(), [str(g) for g in got], meets), 'in plane',
                      monitor='touches in the plane')
            for g in got:
                ctx.check(X.dist_point_triangle(X.fv(g), et) <= tol and X.dist_point_segment(X.fv(g), ep, eq) <= tol,
                          lambda: '{0}: point {1} is not on both'.format(desc(), g), 'in plane', monitor='points')
    ctx.count('{0} in the plane'.format(kind), 1)
    ctx.sig('in plane', kind, meets, round(math.log10(float(max(abs(x) for t in pts for x in t)))))


def judge(ctx, pts, p, q, size, off):
    tri = geom.Triangle(*[vec(t) for t in pts])
    P, Q = vec(p), vec(q)
    et = [X.fv(v) for v in tri.Points]
    ep, eq = X.fv(P), X.fv(Q)
    v = X.segment_triangle(et, ep, eq)
    if not v.sure:
        ctx.count('rim (not judged)')
        return
    orders = list(itertools.permutations(range(3)))
    k = ctx.counters.get('verdicts', 0)
    variants = [((0, 1, 2), False), ((0, 1, 2), True), (orders[k % 6], bool(k & 1)), (orders[(k // 6) % 6], bool(k & 2))]
    for order, rev in variants:
        t = geom.Triangle(*[vec(pts[i]) for i in order])
        a, b = (vec(q), vec(p)) if rev else (vec(p), vec(q))
        before = [x.coords_tuple() for x in t.Points + [a, b]]
        got = t.intersection_with_segment(geom.Segment(a, b))
        desc = lambda: 'triangle {0} segment {1} ({2}, reversed {3}, order {4})'.format(pts, [p, q], v.kind, rev, order)
        ctx.check(bool(got) == v.meets,
                  lambda: '{0}: reported {1}, exactly {2}'.format(desc(), [str(g) for g in got], v.meets),
                  monitor='verdicts')
        ctx.check(before == [x.coords_tuple() for x in t.Points + [a, b]], 'operands were changed', monitor='operands')
        ctx.count('hits' if v.meets else 'misses')
        ctx.count(v.kind)
        ctx.count('small' if size < 1e-2 else 'large' if size > 1e2 else 'medium')
        if v.meets:
            if v.kind == 'crossing':
                ctx.check(len(got) == 1, lambda: '{0}: {1} points'.format(desc(), len(got)), monitor='points')
            sc = max(X.norm(X.sub(et[1], et[0])), X.norm(X.sub(et[2], et[0])), X.norm(X.sub(eq, ep)))
            big = max(abs(float(x)) for z in et + [ep, eq] for x in z)
            sl = X.slope(et, ep, eq) if v.kind == 'crossing' else 1.0
            tol = 1e-7 * sc + 1e-13 * big / max(sl, 1e-300)
            for g in got:
                eg = X.fv(g)
                ctx.check(all(math.isfinite(c) for c in g.coords_list()) and
                          X.dist_point_triangle(eg, et) <= tol and X.dist_point_segment(eg, ep, eq) <= tol,
                          lambda: '{0}: point {1} is not on both ({2}, {3})'.format(
                              desc(), g, X.dist_point_triangle(eg, et), X.dist_point_segment(eg, ep, eq)),
                          monitor='points')
    dec = lambda x: round(math.log10(x)) if x > 0 else None
    worst = None
    if v.kind == 'crossing':
        c = X.line_plane(et, ep, eq)
        vals = [float(z) for z in c] + [float(1 - c[3])]
        worst = vals.index(min(vals))
    ctx.sig(dec(size), dec(X.norm(X.sub(eq, ep)) / size), dec(off + 1), v.kind, v.meets, worst)


def case(ctx, rng, i):
    for _ in range(2):
        judge_touch(ctx, rng)
    judge_in_plane(ctx, rng)
    for _ in range(3):
        if rng.random() < 0.25:
            pts, p, q, s = lattice(rng)
            judge(ctx, pts, p, q, s, 40 * s)
            continue
        size = 10 ** rng.uniform(-4, 4)
        off = rng.choice([0.0, size, 10 * size, 10 ** rng.uniform(-2, 3)])
        pts, n = random_triangle(rng, size, off)
        for _ in range(3):
            p, q = aimed(rng, pts, n, size)
            judge(ctx, pts, p, q, size, off)
        if i < 3:
            ctx.sample({'triangle': pts, 'segment': [p, q]})
