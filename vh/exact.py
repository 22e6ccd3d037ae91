"""
Exact rational geometry: the oracle for floating point predicates. Every input float is taken as
the rational number it is, so verdicts carry no rounding at all.
"""
import math
from fractions import Fraction as F


def fv(p):
    """Vector of the code under test -> exact triple."""
    return tuple(F(float(x)) for x in (p.X, p.Y, p.Z))


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def mul(a, k):
    return (a[0] * k, a[1] * k, a[2] * k)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    """Length as a float (rounded once)."""
    return fsqrt(dot(a, a))


def fsqrt(x):
    """Square root of a rational, correct to about 1e-25, as Fraction."""
    if x == 0:
        return 0.0
    k = 0
    # Bring into the range where float sqrt is safe.
    n, d = x.numerator, x.denominator
    sh = (n.bit_length() - d.bit_length()) // 2
    y = x / (F(4) ** sh)
    r = math.sqrt(float(y))
    return math.ldexp(r, sh)


def orient(a, b, c, d):
    return dot(sub(d, a), cross(sub(b, a), sub(c, a)))


def line_plane(tri, p, q):
    """
    Barycentric coordinates and parameter of the crossing of line pq with the plane of the triangle:
    (alfa, beta, gamma, phi) exact, or None when parallel.
    """
    a, b, c = tri
    ba, ca, qp, pa = sub(b, a), sub(c, a), sub(q, p), sub(p, a)
    n = cross(ba, ca)
    den = dot(n, qp)
    if den == 0:
        return None
    phi = -dot(n, pa) / den
    x = add(pa, mul(qp, phi))
    nn = dot(n, n)
    alfa = dot(cross(x, ca), n) / nn
    beta = dot(cross(ba, x), n) / nn
    return alfa, beta, 1 - alfa - beta, phi


def slope(tri, p, q):
    """Normalized determinant: sin(angle between segment and plane) * sin(corner angle)."""
    a, b, c = tri
    ba, ca, qp = sub(b, a), sub(c, a), sub(q, p)
    l = norm(ba) * norm(ca) * norm(qp)
    if l == 0:
        return 0.0
    return abs(float(dot(cross(ba, ca), qp))) / l


def dist_point_segment(x, p, q):
    d = sub(q, p)
    dd = dot(d, d)
    t = F(0) if dd == 0 else min(F(1), max(F(0), dot(sub(x, p), d) / dd))
    return norm(sub(x, add(p, mul(d, t))))


def dist_point_triangle(x, tri):
    """Distance from a point to a (non degenerate) triangle."""
    a, b, c = tri
    n = cross(sub(b, a), sub(c, a))
    nn = dot(n, n)
    if nn != 0:
        h = dot(sub(x, a), n)
        y = sub(x, mul(n, h / nn))
        if (dot(cross(sub(b, a), sub(y, a)), n) >= 0 and dot(cross(sub(c, b), sub(y, b)), n) >= 0
                and dot(cross(sub(a, c), sub(y, c)), n) >= 0):
            return norm(sub(x, y))
    return min(dist_point_segment(x, a, b), dist_point_segment(x, b, c), dist_point_segment(x, c, a))


class Verdict:
    """Verdict of the exact oracle on a segment and a triangle."""

    def __init__(self, meets, sure, kind, point=None):
        self.meets, self.sure, self.kind, self.point = meets, sure, kind, point


def phi(tri, p, q):
    """Parameter of the crossing of the line pq with the plane of the triangle, None if they are nearly parallel."""
    a, b, c = tri
    n, d = cross(sub(b, a), sub(c, a)), sub(q, p)
    k = dot(n, d)
    if abs(float(k)) <= 1e-5 * norm(n) * norm(d):
        return None
    return float(dot(n, sub(a, p)) / k)


def foremost(tris, p, q, sure, maybe, margin=1e-6):
    """Those of the triangles maybe met by pq which are not behind a triangle surely met."""
    bound = min([x for x in (phi(tris[k], p, q) for k in sure) if x is not None], default=None)
    if bound is None:
        return list(maybe)
    res = []
    for k in maybe:
        x = phi(tris[k], p, q)
        if x is None or x <= bound + margin:
            res.append(k)
    return res


def segment_triangle(tri, p, q, margin=1e-6):
    """
    Does the closed segment meet the closed triangle? sure is False where the answer depends on
    less than margin (relative) of displacement, or the two are nearly but not exactly parallel.
    """
    a, b, c = tri
    ba, ca, qp, pa = sub(b, a), sub(c, a), sub(q, p), sub(p, a)
    n = cross(ba, ca)
    la, lb, lq = norm(ba), norm(ca), norm(qp)
    if la == 0 or lb == 0 or lq == 0 or dot(n, n) == 0:
        return Verdict(False, False, 'degenerate')
    big = max(abs(float(x)) for t in (a, b, c, p, q) for x in t)
    size = min(la, lb, norm(sub(c, b)))
    s = slope(tri, p, q)
    if dot(n, qp) == 0:
        h = abs(float(dot(n, pa))) / norm(n)
        if h != 0:
            return Verdict(False, h > margin * max(la, lb, lq, norm(pa)), 'parallel')
        # In one plane: clip the segment by three half planes, exactly.
        lo, hi = F(0), F(1)
        ok = True
        for u, v in ((a, b), (b, c), (c, a)):
            e = sub(v, u)
            f0 = dot(cross(e, sub(p, u)), n)
            f1 = dot(cross(e, sub(q, u)), n)
            d = f1 - f0
            if d == 0:
                if f0 < 0:
                    ok = False
                elif f0 == 0:
                    return Verdict(False, False, 'along an edge')
            elif d > 0:
                lo = max(lo, -f0 / d)
            else:
                hi = min(hi, -f0 / d)
        gap = hi - lo
        return Verdict(ok and gap >= 0, (not ok) or abs(float(gap)) > margin, 'one plane')
    al, be, ga, phi = line_plane(tri, p, q)
    # Accuracy that floating point input differences permit.
    tol = margin + 1e-13 * (big / size + 1.0) / max(s, 1e-300)
    vals = (al, be, ga, phi, 1 - phi)
    worst = min(vals)
    near = min(abs(float(v)) for v in vals)
    # The verdict is sure when every coordinate is clearly inside, or some one clearly outside.
    if worst >= 0:
        sure = near > tol
    else:
        sure = float(worst) < -tol
    return Verdict(worst >= 0, sure and s > 1e-6 and tol < 1e-2, 'crossing', add(p, mul(qp, phi)))
