"""P17: pairs of triangles and location of points in triangles against exact arithmetic."""
import itertools
import math

import geom
from vh import exact as X
from checks import P15

RULE = ('distinct (scale decade, kind of pair, number of edges meeting the other triangle from each side) and distinct '
        '(scale decade, plane kind, class of point, corner order)')
QUICK, THOROUGH = 1500, 16000
MIN = {'pair verdicts': 1500, 'meeting pairs': 200, 'apart pairs': 200, 'point classes': 3000, 'outside': 300, 'vertex': 200,
       'edge': 300, 'inside': 300, 'reported points': 400, 'planes': 1500, 'points of a segment': 1500,
       'crossings of neighbours': 250, 'points of neighbours': 3000}
ASSUMPTIONS = ['Pairs of triangles that need less than 1e-6 (relative) of displacement to change the verdict are not judged.',
               'Points out of the plane of a triangle are judged from 0.1% of its size on.']
ORD = list(itertools.permutations(range(3)))


def vec(t):
    return geom.Vect(float(t[0]), float(t[1]), float(t[2]))


def pair(rng):
    """(kind, triangle, triangle, size)"""
    size = 10 ** rng.uniform(-3.5, 3.5)
    off = rng.choice([0.0, size, 10 * size])
    r = rng.random()
    if r < 0.2:
        a, p, q, s = P15.lattice(rng)
        # A second triangle in the plane of the first one or parallel to it.
        r = [p[k] + (q[k] - a[rng.randrange(3)][k]) for k in range(3)]
        u = [a[1][k] - a[0][k] for k in range(3)]
        v = [a[2][k] - a[0][k] for k in range(3)]
        i, j = rng.randint(-2, 2), rng.randint(-2, 2)
        r = [p[k] + i * u[k] + j * v[k] for k in range(3)]
        return 'one plane', a, [p, q, r], s
    a, n = P15.random_triangle(rng, size, off)
    if r < 0.75:
        # Aim an edge of the second triangle at the first one.
        p, q = P15.aimed(rng, a, n, size)
        r = P15.comb(p, (size * 10 ** rng.uniform(-1, 1), P15.rnd_dir(rng)))
        return 'aimed', a, [p, q, r], size
    if r < 0.9:
        o = [sum(a[j][k] for j in range(3)) / 3 for k in range(3)]
        b = [P15.comb(o, (size * rng.uniform(0.1, 1.5), P15.rnd_dir(rng))) for _ in range(3)]
        return 'close', a, b, size
    b, _ = P15.random_triangle(rng, size, off)
    return 'random', a, b, size


def edges(t):
    return [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]


def judge_pair(ctx, rng, kind, a, b, size):
    A, B = [X.fv(vec(p)) for p in a], [X.fv(vec(p)) for p in b]
    if any(X.dot(c, c) == 0 for c in [X.cross(X.sub(t[1], t[0]), X.sub(t[2], t[0])) for t in (A, B)]):
        return
    va = [X.segment_triangle(A, p, q) for p, q in edges(B)]
    vb = [X.segment_triangle(B, p, q) for p, q in edges(A)]
    vs = va + vb
    if not all(v.sure for v in vs):
        ctx.count('rim (not judged)')
        return
    meets = any(v.meets for v in vs)
    generic = all(v.kind in ('crossing', 'parallel') for v in vs)
    sc = max(X.norm(X.sub(p, q)) for t in (A, B) for p, q in edges(t))
    big = max(abs(float(x)) for t in (A, B) for p in t for x in p)
    sl = min([X.slope(t, p, q) for t, o in ((A, B), (B, A)) for (p, q), v in zip(edges(o), va if t is A else vb)
              if v.kind == 'crossing' and v.meets] or [1.0])
    tol = 1e-7 * sc + 1e-12 * big / max(sl, 1e-300)
    want = [v.point for v in vs if v.meets and v.kind == 'crossing']
    for swap, oa, ob in [(False, (0, 1, 2), (0, 1, 2)), (True, (0, 1, 2), (0, 1, 2)),
                         (rng.random() < 0.5, rng.choice(ORD), rng.choice(ORD))]:
        s = geom.Triangle(*[vec(a[k]) for k in oa])
        t = geom.Triangle(*[vec(b[k]) for k in ob])
        before = [p.coords_tuple() for p in s.Points + t.Points]
        got = t.intersection_with_triangle(s) if swap else s.intersection_with_triangle(t)
        desc = lambda: '{0} {1} and {2} (swapped {3}, corners {4} {5})'.format(kind, a, b, swap, oa, ob)
        ctx.check(bool(got) == meets, lambda: '{0}: reported {1}, exactly {2}'.format(
            desc(), [str(g) for g in got], meets), monitor='pair verdicts')
        ctx.check(before == [p.coords_tuple() for p in s.Points + t.Points], 'operands were changed', monitor='operands')
        eg = [X.fv(g) for g in got]
        for g in eg:
            ctx.check(X.dist_point_triangle(g, A) <= tol and X.dist_point_triangle(g, B) <= tol,
                      lambda: '{0}: point {1} is not on both triangles'.format(desc(), [float(x) for x in g]),
                      monitor='reported points')
        if generic:
            for i in range(len(eg)):
                for j in range(i):
                    ctx.check(X.norm(X.sub(eg[i], eg[j])) > 5e-11, lambda: '{0}: a point is reported twice'.format(desc()),
                              monitor='distinct points')
            for w in want:
                ctx.check(any(X.norm(X.sub(w, g)) <= tol + 1e-9 for g in eg),
                          lambda: '{0}: common point {1} is not reported'.format(desc(), [float(x) for x in w]),
                          monitor='expected points')
        ctx.count('meeting pairs' if meets else 'apart pairs')
    ctx.sig(round(math.log10(size)), kind, generic, sum(v.meets for v in va), sum(v.meets for v in vb))


def neighbours(ctx, rng):
    """Pairs with one or two common corners: they always meet, and may cross as well."""
    r = rng.random()
    if r < 0.3:
        a, p, q, size = P15.lattice(rng)
        # Another corner in the plane of the first triangle.
        c = [q[k] + (p[k] - a[rng.randrange(3)][k]) for k in range(3)] if rng.random() < 0.5 else p
        b = [rng.choice(a), q, c]
        kind = 'lattice neighbours'
    else:
        size = 10 ** rng.uniform(-3.5, 3.5)
        a, n = P15.random_triangle(rng, size, rng.choice([0.0, size, 10 * size]))
        if r < 0.8:
            p, q = P15.aimed(rng, a, n, size)
            b = [rng.choice(a), p, q]
            kind = 'crossing neighbours'
        else:
            b = rng.sample(a, 2) + [P15.comb(a[0], (size * 10 ** rng.uniform(-1, 1), P15.rnd_dir(rng)))]
            kind = 'neighbours along a side'
    A, B = [X.fv(vec(p)) for p in a], [X.fv(vec(p)) for p in b]
    for t in (A, B):
        c = X.cross(X.sub(t[1], t[0]), X.sub(t[2], t[0]))
        if X.norm(c) <= 5e-2 * X.norm(X.sub(t[1], t[0])) * X.norm(X.sub(t[2], t[0])):
            return
    va = [X.segment_triangle(A, p, q) for p, q in edges(B)]
    vb = [X.segment_triangle(B, p, q) for p, q in edges(A)]
    want = [v.point for v in va + vb if v.sure and v.meets and v.kind == 'crossing']
    sl = min([X.slope(t, p, q) for t, o, vs in ((A, B, va), (B, A, vb)) for (p, q), v in zip(edges(o), vs)
              if v.kind == 'crossing' and v.meets] or [1.0])
    sc = max(X.norm(X.sub(p, q)) for t in (A, B) for p, q in edges(t))
    big = max(abs(float(x)) for t in (A, B) for p in t for x in p)
    if sl < 1e-4:
        return
    tol = 1e-7 * sc + 1e-12 * big / sl
    for oa, ob in [((0, 1, 2), (0, 1, 2)), (rng.choice(ORD), rng.choice(ORD))]:
        s = geom.Triangle(*[vec(a[k]) for k in oa])
        t = geom.Triangle(*[vec(b[k]) for k in ob])
        for x, y in ((s, t), (t, s)):
            got = x.intersection_with_triangle(y)
            eg = [X.fv(g) for g in got]
            desc = '{0}: {1} and {2} (corners {3} {4}): reported {5}'.format(kind, a, b, oa, ob, [str(g) for g in got])
            if kind != 'crossing neighbours':
                ctx.count('neighbours reported' if eg else 'touch lost by rounding (not judged)')
            for g in eg:
                ctx.check(X.dist_point_triangle(g, A) <= tol and X.dist_point_triangle(g, B) <= tol,
                          lambda: desc + ': a point is not on both triangles', monitor='points of neighbours')
            for w in want:
                ctx.check(any(X.norm(X.sub(w, g)) <= tol + 1e-9 for g in eg),
                          lambda: '{0}: common point {1} is not reported'.format(desc, [float(x) for x in w]),
                          monitor='crossings of neighbours')
    ctx.sig(kind, round(math.log10(size)), len(want))


def points(ctx, rng):
    """Classification of points which are exactly outside, at a vertex, on an edge, or inside."""
    if rng.random() < 0.6:
        pts, _, _, s = P15.lattice(rng)
        plane = 'lattice'
        den = rng.choice([2, 4, 8, 16])
    else:
        size = 10 ** rng.uniform(-4, 4)
        pts, _ = P15.random_triangle(rng, size, rng.choice([0.0, size, 10 * size]))
        plane = 'general'
        den = rng.choice([3, 7, 16])
    e = [[pts[(k + 1) % 3][m] - pts[k][m] for m in range(3)] for k in range(3)]
    u, v = e[0], [-x for x in e[2]]
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    ln, lu, lv = (math.sqrt(sum(x * x for x in w)) for w in (n, u, v))
    if ln <= 1e-2 * lu * lv or ln == 0:
        return
    for _ in range(10):
        i = rng.randint(-2, den + 2)
        j = rng.randint(-2, den + 2)
        r = rng.random()
        if r < 0.2:
            i, j = rng.choice([(0, 0), (den, 0), (0, den)])
        elif r < 0.45:
            k = rng.randint(1, den - 1)
            i, j = rng.choice([(0, k), (k, 0), (k, den - k)])
        elif r < 0.65 and den > 2:
            i = rng.randint(1, den - 2)
            j = rng.randint(1, den - 1 - i)
        k = den - i - j
        h = rng.choice([0, 0, 0, 0, 0, 0, 1, -1]) * max(lu, lv) * 10 ** rng.uniform(-3, 0.5)
        p = [pts[0][m] + (i / den) * u[m] + (j / den) * v[m] + h * n[m] / ln for m in range(3)]
        if h or min(i, j, k) < 0:
            want = 0
        else:
            want = 3 - [i, j, k].count(0)
        if h:
            # Far enough for the sum of areas to tell.
            ar = ln
            if abs(h) < 2e-3 * max(lu, lv):
                continue
        for order in (ORD[0], rng.choice(ORD)):
            t = geom.Triangle(*[vec(pts[m]) for m in order])
            before = [x.coords_tuple() for x in t.Points]
            P = vec(p)
            got = t.point_in_triangle(P)
            ctx.check(got == want and type(got) in (int, bool), lambda: 'point {0} in {1} (corners {2}, coordinates {3}/{4} {5}/{4}, '
                      'height {6}): class {7}, exactly {8}'.format(p, pts, order, i, den, j, h, got, want), monitor='point classes')
            ctx.check(before == [x.coords_tuple() for x in t.Points] and P.coords_tuple() == vec(p).coords_tuple(),
                      'operands were changed', monitor='operands')
            ctx.count(['outside', 'vertex', 'edge', 'inside'][want])
            ctx.sig(round(math.log10(lu)), plane, want, order, bool(h))


def planes_and_segments(ctx, rng):
    """Triangles of one plane and points of a segment: exact by construction, or off by at least 0.1%."""
    if rng.random() < 0.5:
        pts, _, _, s = P15.lattice(rng)
        den = rng.choice([2, 4, 8])
    else:
        s = 10 ** rng.uniform(-4, 4)
        pts, _ = P15.random_triangle(rng, s, rng.choice([0.0, s, 10 * s]))
        den = rng.choice([3, 7, 16])
    u = [pts[1][m] - pts[0][m] for m in range(3)]
    v = [pts[2][m] - pts[0][m] for m in range(3)]
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    ln, lu, lv = (math.sqrt(sum(x * x for x in w)) for w in (n, u, v))
    if ln <= 5e-2 * lu * lv or ln == 0:
        return
    sc = max(lu, lv)
    off = rng.choice([(), (), (0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)])
    h = sc * 10 ** rng.uniform(-3, 0.5) * rng.choice([-1, 1])
    q = []
    for k in range(3):
        i, j = rng.randint(-den, 2 * den), rng.randint(-den, 2 * den)
        q.append([pts[0][m] + (i / den) * u[m] + (j / den) * v[m] + (h * n[m] / ln if k in off else 0) for m in range(3)])
    for order in (ORD[0], rng.choice(ORD)):
        t = geom.Triangle(*[vec(pts[m]) for m in order])
        w = geom.Triangle(*[vec(x) for x in q])
        got = t.in_one_plane(w)
        ctx.eq(bool(got), not off, 'triangle {0} in the plane of {1} (corners off the plane: {2}, by {3})'.format(
            q, pts, off, h), monitor='planes')
        for k in range(3):
            ctx.eq(bool(t.point_in_one_plane(vec(q[k]))), k not in off, 'point {0} in the plane of {1}'.format(q[k], pts),
                   monitor='planes')
        ctx.sig('plane', round(math.log10(sc)), off, order)
    # Points of the segment from the first corner to the second one.
    a, b = vec(pts[0]), vec(pts[1])
    for k in (rng.randint(0, den), rng.randint(0, den), -rng.randint(1, den), den + rng.randint(1, den)):
        side = rng.choice([0, 0, 1]) * lu * 10 ** rng.uniform(-2, 1)
        p = vec([pts[0][m] + k / den * u[m] + side * n[m] / ln for m in range(3)])
        want = 0 <= k <= den and not side
        for x, y in ((a, b), (b, a)):
            ctx.eq(bool(geom.Vect.point_on_vector(x, y, p)), want, 'point {0} on the segment {1} {2} ({3}/{4}, aside {5})'.format(
                p, x, y, k, den, side), monitor='points of a segment')
        ctx.sig('seg', round(math.log10(lu)), (k > 0) - (k < 0), (k > den) - (k < den), bool(side))


def case(ctx, rng, i):
    planes_and_segments(ctx, rng)
    for _ in range(3):
        k, a, b, s = pair(rng)
        judge_pair(ctx, rng, k, a, b, s)
        if i < 2:
            ctx.sample({'kind': k, 'first': a, 'second': b})
    neighbours(ctx, rng)
    points(ctx, rng)
