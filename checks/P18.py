"""P18: geometric measures against their definitions evaluated in rational arithmetic."""
import itertools
import math

import geom
import geom.utils
import gsu
from vh import exact as X
from vh import mesh as M
from vh import loadcmp
from checks import P15

RULE = 'distinct (scale decade, offset decade, measure family, shape class, corner order, motion, outcome of a comparison by coordinate)'
QUICK, THOROUGH = 1890, 14000
MIN = {'vectors': 5000, 'triangles': 2000, 'angles': 1000, 'volumes': 800, 'prizmatoid': 500, 'operands': 3000, 'motions': 500,
       'faces of grids': 500, 'ordering': 4000}
ASSUMPTIONS = ['Rounding is allowed up to 1e-11 of the magnitudes of the terms a definition adds up, more for angles near 0 and '
               '180 degrees where the definition itself amplifies rounding.']
ORD = list(itertools.permutations(range(3)))
V = geom.Vect


def vec(t):
    return V(float(t[0]), float(t[1]), float(t[2]))


def num(rng, s):
    r = rng.random()
    if r < 0.1:
        return 0.0
    if r < 0.2:
        return s * rng.randint(-3, 3)
    return s * rng.uniform(-1, 1)


def same(ctx, got, want, mag, what, rel=1e-11, monitor='vectors'):
    """got float, want rational, mag magnitude of summed terms."""
    ctx.check(not isinstance(got, geom.Vect) and math.isfinite(got) and abs(X.F(float(got)) - want) <= X.F(rel) * X.F(float(mag)),
              lambda: '{0}: got {1!r}, by definition {2!r}'.format(what, got, float(want)), monitor=monitor)


def same_v(ctx, got, want, mag, what, rel=1e-11, monitor='vectors'):
    ctx.check(isinstance(got, geom.Vect), '{0}: not a vector'.format(what), monitor=monitor)
    for k in range(3):
        same(ctx, got[k], want[k], mag[k] if isinstance(mag, (list, tuple)) else mag, '{0}[{1}]'.format(what, k), rel, monitor)


class Frozen:
    """Operands must stay what they were."""

    def __init__(self, ctx, *vs):
        self.ctx, self.vs = ctx, [(v, v.Coords, list(v.Coords)) for v in vs]

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None:
            for v, c, old in self.vs:
                self.ctx.check(v.Coords is c and c == old, 'an operand was changed from {0} to {1}'.format(old, v.Coords),
                               monitor='operands')


def vectors(ctx, rng):
    s = 10 ** rng.uniform(-4, 4)
    s2 = s if rng.random() < 0.6 else 10 ** rng.uniform(-4, 4)
    A = vec([num(rng, s) for _ in range(3)])
    B = vec([num(rng, s2) for _ in range(3)])
    if rng.random() < 0.15:
        k = rng.choice([-2.0, -1.0, 0.5, 1.0, 3.0])
        B = vec([k * x for x in A.Coords])
    a, b = X.fv(A), X.fv(B)
    ab = [abs(float(x)) for x in a]
    bb = [abs(float(x)) for x in b]
    k = num(rng, 10 ** rng.uniform(-3, 3)) or 2.0
    f = X.F(k)
    with Frozen(ctx, A, B):
        p = [x + y for x, y in zip(ab, bb)]
        same_v(ctx, A + B, X.add(a, b), p, 'sum')
        same_v(ctx, A - B, X.sub(a, b), p, 'difference')
        same_v(ctx, A * k, X.mul(a, f), [x * abs(k) for x in ab], 'product with a number')
        same_v(ctx, k * A, X.mul(a, f), [x * abs(k) for x in ab], 'number by vector')
        same_v(ctx, A / k, X.mul(a, 1 / f), [x / abs(k) for x in ab], 'quotient')
        dm = sum(x * y for x, y in zip(ab, bb))
        same(ctx, V.dot_product(A, B), X.dot(a, b), dm, 'dot product')
        cm = [ab[1] * bb[2] + ab[2] * bb[1], ab[2] * bb[0] + ab[0] * bb[2], ab[0] * bb[1] + ab[1] * bb[0]]
        same_v(ctx, V.cross_product(A, B), X.cross(a, b), cm, 'cross product')
        na, nb = X.norm(a), X.norm(b)
        same(ctx, A.mod2(), X.dot(a, a), sum(x * x for x in ab), 'square of length')
        ctx.close(A.mod(), na, 'length', rel=1e-13, monitor='vectors')
        d = X.norm(X.sub(a, b))
        ctx.close(A.dist_to(B), d, 'distance', rel=1e-12, abs_=1e-14 * (na + nb), monitor='vectors')
        ctx.close(A.dist_to(B), B.dist_to(A), 'distance is symmetric', rel=1e-14, monitor='vectors')
        same_v(ctx, V.middle_point(A, B), X.mul(X.add(a, b), X.F(1, 2)), p, 'middle point')
        for e in (d * 0.9, d * 1.1, 1e-10):
            if abs(d - e) > 1e-13 * (na + nb):
                ctx.eq(bool(A.is_near(B, e)), d < e, 'is_near', monitor='vectors')
        if abs(d - 1e-10) > 1e-12 * (na + nb):
            ctx.eq(A == B, d < 1e-10, 'equality', monitor='vectors')
        ctx.check(A == vec(A.Coords), 'a vector equals its copy', monitor='vectors')
        ctx.eq((list(A.coords_tuple()), list(A.coords_list()), [float(x) for x in A.coords_as_np()], [A.X, A.Y, A.Z],
                [A[0], A[1], A[2]]), ([float(x) for x in a],) * 5, 'views of coordinates', monitor='vectors')
        dg = rng.choice([2, 5, 10])
        ctx.eq(tuple(A.rounded_coords_tuple(dg)), tuple(round(float(x), dg) for x in a), 'rounded coordinates', monitor='vectors')
        if na > 0:
            o = A.orth()
            same_v(ctx, o, [X.F(float(x)) / X.F(na) for x in A.Coords], 1.0, 'orth', rel=1e-12)
            ctx.close(o.mod(), 1.0, 'length of orth', rel=1e-12, monitor='vectors')
        if na > 0 and nb > 0:
            cs = float(X.dot(a, b) / (X.F(na) * X.F(nb)))
            ctx.close(V.angle_cos(A, B), cs, 'cosine', rel=0, abs_=1e-12, monitor='angles')
            # An angle from exact sine and cosine.
            sn = X.norm(X.cross(a, b))
            ang = math.atan2(sn, float(X.dot(a, b)))
            got = V.get_angle_in_rad(A, B)
            tol = 1e-11 + min(3e-8, 1e-15 / max(math.sin(ang), 1e-300))
            ctx.close(float(got), ang, 'angle of {0} and {1}'.format(A, B), rel=0, abs_=tol, monitor='angles')
            ctx.close(float(V.get_angle_in_deg(A, B)), math.degrees(ang), 'angle in degrees', rel=0, abs_=tol * 60, monitor='angles')
    # Results are vectors of their own.
    C = A + vec([0, 0, 0])
    C.X, C[1] = 7.0, 8.0
    ctx.eq((C.X, C.Y, A.coords_tuple()), (7.0, 8.0, tuple(float(x) for x in a)), 'assignment of coordinates', monitor='vectors')
    Z = vec(A.Coords)
    Z.round_vect(3)
    ctx.eq(Z.coords_tuple(), tuple(round(float(x), 3) for x in a), 'round_vect', monitor='vectors')
    ctx.sig('v', round(math.log10(s)), round(math.log10(s2)), sum(x == 0 for x in a), sum(x == 0 for x in b))


def ordering(ctx, rng):
    """Vectors order by X, then Y, then Z, where coordinates closer than 1e-10 count as equal."""
    s = 10 ** rng.uniform(-2, 4)
    vals = [[rng.choice([-1, 1]) * s * rng.uniform(0.01, 1) for _ in range(2)] for _ in range(3)]

    def jit(x):
        return x + rng.choice([0, 0, 1, -1]) * min(2e-11, abs(x) * 1e-12)

    vs = [vec([jit(rng.choice(vals[k])) for k in range(3)]) for _ in range(5)]
    for a, b in itertools.permutations(vs, 2):
        want = None
        for k in range(3):
            d = a[k] - b[k]
            if abs(d) > 1e-10:
                want = d < 0
                break
        with Frozen(ctx, a, b):
            lt, gt = a < b, b < a
        ctx.eq((type(lt), type(gt)), (bool, bool), 'kind of the answer of a comparison', monitor='ordering')
        if want is None:
            ctx.check(not (lt and gt), lambda: '{0} and {1} are each less than the other'.format(a, b), monitor='ordering')
        else:
            ctx.eq((lt, gt), (want, not want), 'order of {0} and {1}'.format(a, b), monitor='ordering')
        ctx.sig('lt', lt, gt, tuple(abs(a[k] - b[k]) > 1e-10 for k in range(3)), tuple(a[k] == b[k] for k in range(3)))
    if rng.random() < 0.3:
        ctx.check(not (vs[0] < vs[0]), 'a vector is less than itself', monitor='ordering')


def tri_measures(ctx, pts, order, tag):
    P = [vec(pts[k]) for k in order]
    e = [X.fv(p) for p in P]
    T = geom.Triangle(*P)
    big = max(abs(float(x)) for p in e for x in p)
    u, v = X.sub(e[1], e[0]), X.sub(e[2], e[0])
    n = X.cross(u, v)
    sides = [X.norm(X.sub(e[1], e[0])), X.norm(X.sub(e[2], e[1])), X.norm(X.sub(e[0], e[2]))]
    ln = X.norm(n)
    mx = max(sides)
    # What rounding of coordinate differences can do.
    err = (1e-15 * big + 1e-14 * mx) * mx * 8
    with Frozen(ctx, *P):
        ctx.close(T.area(), ln / 2, '{0}: area'.format(tag), rel=1e-12, abs_=err, monitor='triangles')
        same_v(ctx, T.centroid(), X.mul(X.add(X.add(e[0], e[1]), e[2]), X.F(1, 3)), 3 * big, '{0}: centroid'.format(tag),
               rel=1e-14, monitor='triangles')
        ctx.close(T.min_side(), min(sides), '{0}: shortest side'.format(tag), rel=1e-12, abs_=4e-16 * big, monitor='triangles')
        if ln > 1e4 * err:
            o = T.normal_orth()
            for k in range(3):
                ctx.close(o[k], float(n[k] / X.F(ln)), '{0}: normal'.format(tag), rel=0, abs_=1e-12 + 4 * err / ln, monitor='triangles')
            q = T.is_good()
            ctx.close(q, sum(x * x for x in sides) / math.sqrt(ln / 2), '{0}: quality'.format(tag), rel=1e-10 + 4 * err / ln,
                      monitor='triangles')
            corners = []
            for k in range(3):
                a, b = X.sub(e[(k + 1) % 3], e[k]), X.sub(e[(k + 2) % 3], e[k])
                corners.append(math.degrees(math.atan2(X.norm(X.cross(a, b)), float(X.dot(a, b)))))
            tol = 1e-5 + 400 * err / ln
            for c in (60.0, 90.0, 120.0, max(corners) - 2 * tol, max(corners) + 2 * tol, 179.0):
                if abs(c - max(corners)) > tol:
                    ctx.eq(bool(T.all_corners_smaller(c)), max(corners) < c, '{0}: all angles {1} are smaller than {2}'.format(
                        tag, corners, c), monitor='angles')
        ctx.eq([T.a().coords_tuple(), T.b().coords_tuple(), T.c().coords_tuple()], [p.coords_tuple() for p in P], 'corners',
               monitor='triangles')
    return T


def tet(a, b, c, d):
    return abs(X.dot(X.sub(a, d), X.cross(X.sub(b, d), X.sub(c, d)))) / 6


def volumes(ctx, rng):
    s = 10 ** rng.uniform(-3.5, 3.5)
    off = rng.choice([0.0, s, 10 * s])
    pts, n = P15.random_triangle(rng, s, off)
    P = [vec(p) for p in pts]
    e = [X.fv(p) for p in P]
    D = vec(P15.comb(pts[0], (s * rng.uniform(-1, 1), n), (s, P15.rnd_dir(rng))))
    mag = (s + off) ** 3
    tol = 1e-12 * s * s * (s + off) + 1e-14 * s * s * off
    with Frozen(ctx, D, *P):
        for o in itertools.permutations(range(4)):
            q = [(P + [D])[k] for k in o]
            ctx.close(geom.utils.tetrahedron_volume(*q), float(tet(*(e + [X.fv(D)]))), 'tetrahedron volume', rel=1e-10, abs_=tol,
                      monitor='volumes')
    kind = rng.choice(['shift', 'shear', 'frustum', 'general', 'zero', 'point'])
    h = s * 10 ** rng.uniform(-3, 0.3)
    if kind == 'shift':
        N = [vec(P15.comb(p, (h, n))) for p in pts]
    elif kind == 'shear':
        d = P15.comb([0, 0, 0], (h, n), (s * rng.uniform(-1, 1), P15.rnd_dir(rng)))
        N = [vec(P15.comb(p, (1.0, d))) for p in pts]
    elif kind == 'frustum':
        # All displacements aim at one apex: the three side faces are plane.
        c = [sum(p[k] for p in pts) / 3 for k in range(3)]
        ap = P15.comb(c, (s * rng.choice([-3, 2, 5]), n), (s * 0.3, P15.rnd_dir(rng)))
        t = rng.uniform(0.05, 0.6)
        N = [vec([p[k] + t * (ap[k] - p[k]) for k in range(3)]) for p in pts]
    elif kind == 'point':
        N = [vec(p) for p in pts]
        j = rng.randrange(3)
        N[j] = vec(P15.comb(pts[j], (h, n)))
    elif kind == 'zero':
        N = [vec(p) for p in pts]
    else:
        N = [vec(P15.comb(p, (h * rng.uniform(0.5, 1.5), n), (h * 0.3, P15.rnd_dir(rng)))) for p in pts]
    w = [X.fv(p) for p in N]
    # All the ways to cut the swept body into three tetrahedra: first corner moves first, and so on.
    ways = []
    for o in ORD:
        cur = list(e)
        tot = X.F(0)
        for k in o:
            tot += tet(cur[0], cur[1], cur[2], w[k])
            cur[k] = w[k]
        ways.append(float(tot))
    with Frozen(ctx, *(P + N)):
        got = geom.utils.displaced_triangle_volume(*(P + N))
    lo, hi = min(ways), max(ways)
    tol = 1e-10 * hi + 1e-13 * s * s * (s + off)
    ctx.check(lo - tol <= got <= hi + tol, lambda: 'swept volume ({0}) of {1} to {2}: got {3!r}, cuts give {4!r}..{5!r}'.format(
        kind, pts, [x.coords_tuple() for x in N], got, lo, hi), monitor='volumes')
    if kind != 'general':
        ctx.check(hi - lo <= 1e-9 * hi + 1e-11 * s * s * (s + off), 'oracle: cuts of a {0} differ: {1}'.format(kind, ways),
                  monitor='volumes')
    ctx.sig('vol', round(math.log10(s)), kind, bool(off))


def prizmatoid(ctx, rng):
    s = 10 ** rng.uniform(-3, 3)
    pts, n = P15.random_triangle(rng, s, rng.choice([0.0, s, 5 * s]))
    P = [vec(p) for p in pts]
    T = geom.Triangle(*P)
    nn = T.normal_orth()
    spread = rng.choice([0.0, 0.1, 0.4])
    N = [vec(P15.comb(nn.Coords, (spread, P15.rnd_dir(rng)))).orth() for _ in range(3)]
    if rng.random() < 0.15:
        N = [vec(nn.Coords) for _ in range(3)]
    if min(V.dot_product(nn, q) for q in N) < 0.2:
        return
    with Frozen(ctx, nn, *(P + N)):
        co = geom.utils.prizmatoid_volume_coefs(P[0], P[1], P[2], N[0], N[1], N[2], nn)
    ctx.check(len(co) == 3 and all(not isinstance(c, geom.Vect) for c in co), 'coefficients are not three numbers: {0}'.format(
        [str(c) for c in co]), monitor='prizmatoid')
    a, b, c = [float(x) for x in co]
    e = [X.fv(p) for p in P]
    en = X.fv(nn)
    u = [X.mul(X.fv(q), 1 / X.dot(en, X.fv(q))) for q in N]

    def area(t):
        q = [X.add(p, X.mul(d, t)) for p, d in zip(e, u)]
        return X.dot(X.cross(X.sub(q[1], q[0]), X.sub(q[2], q[0])), en) / 2

    for h in (s * 1e-3, s * 0.1, s * rng.uniform(-1, 1), s * 2):
        f = X.F(h)
        want = float(f / 6 * (area(X.F(0)) + 4 * area(f / 2) + area(f)))
        mag = abs(a * h) + abs(b * h * h) + abs(c * h ** 3)
        ctx.close(a * h + b * h * h + c * h ** 3, want, 'swept volume of triangle {0} along {1} by height {2}'.format(
            pts, [q.coords_tuple() for q in N], h), rel=1e-10, abs_=1e-10 * mag, monitor='prizmatoid')
    ctx.sig('priz', round(math.log10(s)), spread)


def motions(ctx, rng):
    """Rigid motions, scaling and renumbering act on measures as on definitions."""
    s = 10 ** rng.uniform(-3, 3)
    pts, n = P15.random_triangle(rng, s, rng.choice([0.0, s]))
    R = M.rotate(rng)
    t = [s * rng.uniform(-2, 2) for _ in range(3)]
    k = 10 ** rng.uniform(-2, 2)
    T = geom.Triangle(*[vec(p) for p in pts])
    o = rng.choice(ORD)
    U = geom.Triangle(*[vec(M.apply(R, t, k, pts[j])) for j in o])
    even = o in [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
    ctx.close(U.area(), k * k * T.area(), 'area after motion', rel=1e-8, monitor='motions')
    ctx.close(U.min_side(), k * T.min_side(), 'shortest side after motion', rel=1e-9, monitor='motions')
    ctx.close(U.is_good(), k * T.is_good(), 'quality after motion', rel=1e-8, monitor='motions')
    c = M.apply(R, t, k, T.centroid().Coords)
    m = M.apply(R, [0, 0, 0], 1.0 if even else -1.0, T.normal_orth().Coords)
    for j in range(3):
        ctx.close(U.centroid()[j], c[j], 'centroid after motion', rel=0, abs_=1e-11 * k * s * 10, monitor='motions')
        ctx.close(U.normal_orth()[j], m[j], 'normal after motion', rel=0, abs_=1e-8, monitor='motions')
    ctx.sig('move', round(math.log10(s)), round(math.log10(k)), o)


def on_grid(ctx, rng):
    m = M.random_mesh(rng, 's')
    p = ctx.path('g.dat')
    M.write_dat(m, p)
    g = loadcmp.load(gsu, p)
    for f in g.Faces:
        t = f.get_triangle()
        ctx.check(t.BackRef is f, 'triangle of a face does not refer to the face', monitor='faces of grids')
        ctx.eq([x.coords_tuple() for x in t.Points], [x.P.coords_tuple() for x in f.Nodes], 'triangle of a face', monitor='faces of grids')
        e = [X.fv(x.P) for x in f.Nodes]
        big = max(abs(float(x)) for q in e for x in q) + 1e-300
        for k in range(3):
            same(ctx, f.get_center()[k], (e[0][k] + e[1][k] + e[2][k]) / 3, 3 * big, 'center of a face', monitor='faces of grids')
        ls = []
        for ed in f.Edges:
            l = X.norm(X.sub(X.fv(ed.Nodes[0].P), X.fv(ed.Nodes[1].P)))
            ctx.close(ed.len_edge(), l, 'length of an edge', rel=1e-12, abs_=1e-15 * big, monitor='faces of grids')
            ls.append(l)
        b = f.max_edge_from_face()
        ctx.check(any(b is ed for ed in f.Edges) and b.len_edge() >= max(ls) * (1 - 1e-12), 'longest edge of a face',
                  monitor='faces of grids')
    ctx.sig('grid', m.kind, len(m.F))


def case(ctx, rng, i):
    for _ in range(2):
        vectors(ctx, rng)
    s = 10 ** rng.uniform(-4, 4)
    off = rng.choice([0.0, s, 100 * s])
    if rng.random() < 0.15:
        # Slivers and right angles on an exact lattice.
        pts, _, _, _ = P15.lattice(rng)
        shape = 'lattice'
    else:
        pts, _ = P15.random_triangle(rng, s, off)
        shape = 'general'
    for o in ORD:
        tri_measures(ctx, pts, o, shape)
        ctx.sig('t', round(math.log10(s)), bool(off), shape, o)
    volumes(ctx, rng)
    prizmatoid(ctx, rng)
    prizmatoid(ctx, rng)
    ordering(ctx, rng)
    motions(ctx, rng)
    if i % 8 == 0:
        on_grid(ctx, rng)
    if i < 2:
        ctx.sample({'triangle': pts})
