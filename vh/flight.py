"""Independent monitor of droplet flights: dynamics and verdicts."""
import math

from . import exact as X


def drag(v, va, d):
    """Rate of approach of the velocity to the air velocity (list of admissible rates)."""
    w = math.sqrt(sum((a - b) ** 2 for a, b in zip(v, va)))
    re = w * d / 1.736e-5
    if re == 0.0:
        return [0.0]
    low = (24.0 / re) * (1.0 + 0.166 * re ** 0.33)
    high = 0.178 * re ** 0.217
    if abs(re - 350.0) < 1e-6:
        cds = [low, high]
    else:
        cds = [low if re <= 350.0 else high]
    return [0.75 * 1.292 * cd * w / (d * 1000.0) for cd in cds]


def nearest(air, p):
    """Velocities of the air points that may be called the nearest to p."""
    ds = [math.sqrt(sum((a - b) ** 2 for a, b in zip(q, p))) for q, _ in air]
    m = min(ds)
    sc = max(abs(x) for x in p) + m
    return [air[k][1] for k, d in enumerate(ds) if d <= m + 1e-12 * sc]


def follow(ctx, air, pts, vel, d, dt, what):
    """
    The trajectory must be one that the equations of motion give. Returns the possible velocities
    at the last point as (velocity, error) pairs.
    """
    states = [(list(vel), 0.0)]
    for k in range(len(pts) - 1):
        p, q = pts[k], pts[k + 1]
        scale = max(abs(x) for x in list(p) + list(q))
        nxt = []
        for v, err in states:
            tol = (1e-11 * max(abs(x) for x in v) + err) * dt + 1e-14 * scale + 1e-300
            ok = all(abs(q[j] - (p[j] + v[j] * dt)) <= tol for j in range(3))
            ctx.count('steps checked')
            if not ok:
                continue
            for va in nearest(air, p):
                for r in drag(v, va, d):
                    nv = [v[j] + r * (va[j] - v[j]) * dt for j in range(3)]
                    g = abs(1 - r * dt) + 2 * r * dt
                    ne = err * g + 1e-12 * (max(abs(x) for x in v) + max(abs(x) for x in va)) * (1 + r * dt)
                    nxt.append((nv, ne))
        # Keep a few different alternatives (ties between air points).
        uniq = []
        for s in nxt:
            if not any(max(abs(a - b) for a, b in zip(s[0], u[0])) <= 1e-13 * (1 + max(map(abs, s[0]))) for u in uniq):
                uniq.append(s)
        ctx.check(bool(nxt), lambda: '{0}: point {1} does not follow from point {2} by the velocity (expected {3})'.format(
            what, q, p, [[p[j] + v[j] * dt for j in range(3)] for v, _ in states]), monitor='trajectory steps')
        states = uniq[:16]
    return states


def box(air):
    lo = [min(p[k] for p, _ in air) for k in range(3)]
    hi = [max(p[k] for p, _ in air) for k in range(3)]
    return lo, hi


def inside(bx, p):
    return all(bx[0][k] <= p[k] <= bx[1][k] for k in range(3))


def hits(tris, p, q):
    """(surely met, possibly met first) indices of exact triangles by the segment pq."""
    ep, eq = tuple(X.F(float(x)) for x in p), tuple(X.F(float(x)) for x in q)
    lo = [min(a, b) for a, b in zip(ep, eq)]
    hi = [max(a, b) for a, b in zip(ep, eq)]
    sure, maybe = [], []
    for k, t in enumerate(tris):
        if any(max(x[j] for x in t) < lo[j] or min(x[j] for x in t) > hi[j] for j in range(3)):
            continue
        v = X.segment_triangle(t, ep, eq)
        if v.sure and v.meets:
            sure.append(k)
        if v.meets or not v.sure:
            maybe.append(k)
    return sure, X.foremost(tris, ep, eq, sure, maybe)
