"""P16: clouds of triangles and boxes against exhaustive checking."""
import math

import geom
from vh import exact as X
from vh import mesh as M
from checks import P15

RULE = ('distinct (kind of triangle set, number of triangles, kind of queries, number of meeting triangles) and distinct '
        'box configurations (relation per axis)')
QUICK, THOROUGH = 1260, 15000
MIN = {'segment queries': 2000, 'segment hits': 400, 'segment misses': 400, 'cloud pairs': 30, 'meeting pairs': 60,
       'box tests': 4000, 'clouds walked': 120, 'drop-like queries': 200}
ASSUMPTIONS = ['A segment passing within 1e-6 (relative) of the rim of a triangle may be answered either way.']


def vec(t):
    return geom.Vect(float(t[0]), float(t[1]), float(t[2]))


def soup(rng, n, size):
    """Triangle set: (kind, list of point triples)."""
    kind = rng.choice(['soup', 'soup', 'mesh', 'mesh', 'sheet', 'line', 'stack', 'dup', 'corner'])
    if kind == 'mesh':
        m = M.random_shape(rng, 's')
        pts = [[float(c) for c in p] for p in m.V]
        return kind, [[pts[k] for k in f] for f in m.F][:400]
    res = []
    ax = rng.randrange(3)
    for i in range(n):
        o = [rng.uniform(-1, 1) * size for _ in range(3)]
        if kind == 'line':
            o = [0.0, 0.0, 0.0]
            o[ax] = i * size * 0.1
        if kind == 'stack':
            o = [size * 0.5, size * 0.25, size * 0.125]
        ext = size * (0.05 + 0.4 * rng.random())
        t = [[o[k] + rng.uniform(-1, 1) * ext for k in range(3)] for _ in range(3)]
        if kind == 'sheet':
            for p in t:
                p[ax] = size * 0.5
        if kind == 'corner':
            for p in t:
                for k in range(3):
                    p[k] = round(p[k] / size * 4) * size / 4
        res.append(t)
    if kind == 'dup' and res:
        res += [list(res[rng.randrange(len(res))]) for _ in range(n // 2)]
    res = [t for t in res if area2(t) > 1e-6 * size * size]
    return kind, res


def area2(t):
    u = [t[1][k] - t[0][k] for k in range(3)]
    v = [t[2][k] - t[0][k] for k in range(3)]
    c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return math.sqrt(sum(x * x for x in c))


def walk(ctx, cloud, tris):
    """Structural monitor of a built cloud."""
    ids = {}
    for t in tris:
        ids[id(t)] = ids.get(id(t), 0) + 1

    def go(c):
        own = list(c.Triangles)
        for s in c.Subclouds:
            own += go(s)
        ctx.check(not (c.Triangles and c.Subclouds), 'a cloud holds triangles and subclouds', monitor='cloud nodes')
        for t in own:
            for p in t.Points:
                ctx.check(c.Box.is_point_inside(p), 'box of a cloud does not contain a point of its triangle',
                          monitor='points in cloud boxes')
        ctx.eq(bool(c.is_list()), bool(c.Triangles), 'is_list', monitor='cloud nodes')
        return own

    got = {}
    for t in go(cloud):
        got[id(t)] = got.get(id(t), 0) + 1
    ctx.check(got == ids, 'building a cloud lost or duplicated triangles: {0} against {1}'.format(
        sum(got.values()), sum(ids.values())), monitor='clouds walked')


def segments(rng, pts, size, n):
    """Segments with diverse relation to the set."""
    res = []
    for _ in range(n):
        r = rng.random()
        t = rng.choice(pts)
        c = [(t[0][k] + t[1][k] + t[2][k]) / 3 for k in range(3)]
        if r < 0.35:
            w = [rng.random() for _ in range(3)]
            s = sum(w)
            x = [sum(w[j] / s * t[j][k] for j in range(3)) for k in range(3)]
            d = P15.rnd_dir(rng)
            l = size * 10 ** rng.uniform(-2.5, 0.8)
            a = rng.uniform(-0.3, 1.3)
            res.append(('aimed', [x[k] - a * l * d[k] for k in range(3)], [x[k] + (1 - a) * l * d[k] for k in range(3)]))
        elif r < 0.6:
            d = [0.0, 0.0, 0.0]
            d[rng.randrange(3)] = rng.choice([-1, 1]) * size * 10 ** rng.uniform(-2, 0.5)
            a = rng.uniform(-0.3, 1.3)
            x = [c[k] + rng.uniform(-0.1, 0.1) * size for k in range(3)]
            res.append(('axis', [x[k] - a * d[k] for k in range(3)], [x[k] + (1 - a) * d[k] for k in range(3)]))
        elif r < 0.8:
            res.append(('random', [rng.uniform(-2, 2) * size for _ in range(3)],
                        [rng.uniform(-2, 2) * size for _ in range(3)]))
        else:
            # short steps of a flying droplet
            x = [c[k] + rng.gauss(0, 0.05) * size for k in range(3)]
            res.append(('drop', x, [x[k] + rng.gauss(0, 0.05) * size for k in range(3)]))
    return res


def case(ctx, rng, i):
    if i % 4 == 3:
        return boxes(ctx, rng)
    size = 10 ** rng.uniform(-2.5, 2.5)
    n = rng.choice([1, 1, 2, 3, 5, 8, 13, 30])
    kind, pts = soup(rng, n, size)
    if not pts:
        return
    if kind == 'mesh':
        size = max(abs(x) for t in pts for p in t for x in p)
    tris = [geom.Triangle(*[vec(p) for p in t]) for t in pts]
    by_id = {id(t): k for k, t in enumerate(tris)}
    if i % 4 == 0:
        return two_clouds(ctx, rng, size, kind, tris)
    cloud = geom.TrianglesCloud(list(tris))
    walk(ctx, cloud, tris)
    before = [[p.coords_tuple() for p in t.Points] for t in tris]
    exact = [[X.fv(p) for p in t.Points] for t in tris]
    for how, p, q in segments(rng, pts, size, 14):
        P, Q = vec(p), vec(q)
        ep, eq = X.fv(P), X.fv(Q)
        got = cloud.first_intersection_with_segment(geom.Segment(P, Q))
        ctx.count('segment queries')
        if how == 'drop':
            ctx.count('drop-like queries')
        lo = [min(a, b) for a, b in zip(ep, eq)]
        hi = [max(a, b) for a, b in zip(ep, eq)]
        vs = []
        for t in exact:
            if any(max(x[k] for x in t) < lo[k] or min(x[k] for x in t) > hi[k] for k in range(3)):
                vs.append(None)     # clearly apart
            else:
                vs.append(X.segment_triangle(t, ep, eq))
        sure_hit = [k for k, v in enumerate(vs) if v is not None and v.sure and v.meets]
        maybe = [k for k, v in enumerate(vs) if v is not None and (v.meets or not v.sure)]
        if got is None:
            ctx.check(not sure_hit, lambda: 'search found nothing though triangle {0} meets segment {1}'.format(
                pts[sure_hit[0]], [p, q]), monitor='search verdicts')
            ctx.count('segment misses')
        else:
            ctx.check(id(got) in by_id, 'search returned a triangle not of the set', monitor='search verdicts')
            ctx.check(by_id[id(got)] in maybe, lambda: 'search returned triangle {0} which does not meet segment {1}'.format(
                pts[by_id[id(got)]], [p, q]), monitor='search verdicts')
            first = X.foremost(exact, ep, eq, sure_hit, maybe)
            ctx.check(by_id[id(got)] in first, lambda: 'search returned triangle {0} which segment {1} meets behind {2}'.format(
                pts[by_id[id(got)]], [p, q], [pts[k] for k in first]), monitor='search verdicts')
            if len(first) < len(maybe):
                ctx.count('hits with triangles behind')
            ctx.count('segment hits')
        ctx.sig(kind, len(tris), how, len(sure_hit), got is None)
    ctx.check(before == [[p.coords_tuple() for p in t.Points] for t in tris], 'search changed triangles', monitor='operands')
    if i < 8:
        ctx.sample({'kind': kind, 'triangles': len(tris), 'size': size})


def two_clouds(ctx, rng, size, kind, tris):
    mode = rng.choice(['other', 'other', 'moved', 'self', 'far'])
    if mode == 'self':
        other = tris
    elif mode == 'moved':
        d = [rng.gauss(0, 0.1) * size for _ in range(3)]
        other = [geom.Triangle(*[p + vec(d) for p in t.Points]) for t in tris]
    else:
        k2, pts2 = soup(rng, rng.choice([1, 2, 5, 13, 25]), size)
        sh = 100 * size if mode == 'far' else 0.0
        other = [geom.Triangle(*[vec(p) + geom.Vect(sh, 0.0, 0.0) for p in t]) for t in pts2]
        if not other:
            return
    if len(tris) * len(other) > 1500:
        k = max(1, 1500 // len(tris))
        other = other[:k]
        tris = tris[:1500 // len(other)] if mode != 'self' else tris[:38]
        if mode == 'self':
            other = tris
    a = geom.TrianglesCloud(list(tris))
    b = a if mode == 'self' and rng.random() < 0.5 else geom.TrianglesCloud(list(other))
    walk(ctx, a, tris)
    walk(ctx, b, other)
    want = {}
    for t in tris:
        for u in other:
            r = t.intersection_with_triangle(u)
            if r:
                key = [tuple(sorted(p.coords_tuple() for p in r))]
                for x in (t, u):
                    kk = (id(x), key[0])
                    want[kk] = want.get(kk, 0) + 1
                ctx.count('meeting pairs')
    got = {}
    res = a.intersection_with_triangles_cloud(b)
    for t, ps in res:
        kk = (id(t), tuple(sorted(p.coords_tuple() for p in ps)))
        got[kk] = got.get(kk, 0) + 1
    ctx.check(got == want, lambda: 'two clouds: {0} records, pair by pair {1}'.format(
        sum(got.values()), sum(want.values())), monitor='cloud pairs')
    ctx.sig('two', kind, mode, len(tris), len(other), sum(want.values()) // 2)


def boxes(ctx, rng):
    """Boxes against plain comparison of exact coordinates; many touching configurations."""
    s = 2.0 ** rng.randint(-8, 8)

    def pt():
        return geom.Vect(*[s * rng.randint(-3, 3) * (1 if rng.random() < 0.9 else 0.1) for _ in range(3)])

    for _ in range(12):
        ps = [pt() for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        qs = [pt() for _ in range(rng.choice([1, 2, 2, 4]))]
        n = 3 * rng.choice([1, 2, 4])
        if rng.random() < 0.3:
            ps = [pt() for _ in range(n)]
            A = geom.Box.from_triangles([geom.Triangle(*ps[k:k + 3]) for k in range(0, n, 3)])
        else:
            A = geom.Box.from_points(ps)
        B = geom.Box.from_points(qs)
        la = [min(p[k] for p in ps) for k in range(3)]
        ha = [max(p[k] for p in ps) for k in range(3)]
        lb = [min(p[k] for p in qs) for k in range(3)]
        hb = [max(p[k] for p in qs) for k in range(3)]
        ctx.eq([A.MinX, A.MinY, A.MinZ, A.MaxX, A.MaxY, A.MaxZ], la + ha, 'box of points', monitor='box tests')
        for p in ps:
            ctx.check(A.is_point_inside(p), 'a box does not contain its point {0}'.format(p), monitor='box tests')
        over = all(la[k] <= hb[k] and lb[k] <= ha[k] for k in range(3))
        ctx.eq(bool(A.is_potential_intersect_with_box(B)), over, 'overlap of boxes {0} {1}'.format(A, B), monitor='box tests')
        ctx.eq(bool(B.is_potential_intersect_with_box(A)), over, 'overlap of boxes (swapped)', monitor='box tests')
        for q in qs + [pt() for _ in range(3)]:
            ctx.eq(bool(A.is_point_inside(q)), all(la[k] <= q[k] <= ha[k] for k in range(3)),
                   'point {0} in box {1}'.format(q, A), monitor='box tests')
        sg = [pt(), pt()]
        ls = [min(p[k] for p in sg) for k in range(3)]
        hs = [max(p[k] for p in sg) for k in range(3)]
        meets = all(la[k] <= hs[k] and ls[k] <= ha[k] for k in range(3))
        got = bool(A.is_intersect_with_segment(geom.Segment(*sg)))
        if got != meets:
            # The test is allowed to be sharper than boxes, but must never lose a meeting segment.
            ctx.check(not got and not slab(la, ha, sg), 'segment {0} and box {1}: {2}'.format(
                [str(x) for x in sg], A, got), monitor='box tests')
        ctx.count('box tests')
        ctx.sig('box', tuple((la[k] <= hb[k], lb[k] <= ha[k], la[k] == hb[k], ha[k] == lb[k], la[k] == ha[k]) for k in range(3)))


def slab(lo, hi, sg):
    p, q = X.fv(sg[0]), X.fv(sg[1])
    t0, t1 = X.F(0), X.F(1)
    for k in range(3):
        d = q[k] - p[k]
        l, h = X.F(lo[k]), X.F(hi[k])
        if d == 0:
            if p[k] < l or p[k] > h:
                return False
            continue
        a, b = (l - p[k]) / d, (h - p[k]) / d
        if a > b:
            a, b = b, a
        t0, t1 = max(t0, a), min(t1, b)
    return t0 <= t1
