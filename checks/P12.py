"""P12: atomic transformations place geometry, data, zones and orientation."""
import math
import gsu
import geom
from vh import mesh as M, topo, atomic as A
from vh.core import quiet, Violation
from checks.P11 import prepared, zones_around

RULE = ('random surfaces with distinct data in every face get random sequences of admissible operations; the oriented faces with '
        'data and zone before and after each step are compared as sets with what the operation promises; non-trivial = new '
        '(family, zones, sequence of operations)')
QUICK, THOROUGH = 1530, 3060
MIN = {'steps': 700, 'untouched_faces': 5000, 'pieces': 1000, 'swaps': 80, 'own_values': 400, 'collapses': 80, 'cross_zone_steps': 150}


def faces_of(g):
    """[(zone name, object of zone, oriented node objects, data)] of all faces."""
    return [(id(f.Zone), tuple(f.Nodes), tuple(sorted((k, repr(v)) for k, v in f.Data.items()))) for f in g.Faces]


def key(z, nodes, data, mp=None):
    mp = mp or {}
    ids = tuple(mp.get(id(n), id(n)) for n in nodes)
    return (z, M.cyc(ids), data)


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def normal(t):
    return cross(sub(t[1], t[0]), sub(t[2], t[0]))


def inside(p, t, eps=1e-9):
    n = normal(t)
    nn = dot(n, n)
    size = math.sqrt(nn) ** 0.5
    if abs(dot(sub(p, t[0]), n)) > eps * nn ** 0.5 * max(size, 1e-6) + 1e-12:
        return False
    for i in range(3):
        a, b = t[i], t[(i + 1) % 3]
        if dot(cross(sub(b, a), sub(p, a)), n) < -eps * nn - 1e-12:
            return False
    return True


def flat(t):
    """Corners on (nearly) one line: the direction of normal means nothing."""
    n = normal(t)
    return math.sqrt(dot(n, n)) < 1e-5 * max(math.dist(t[0], t[1]), math.dist(t[1], t[2]), math.dist(t[2], t[0])) ** 2


def bag(items):
    d = {}
    for x in items:
        d[x] = d.get(x, 0) + 1
    return d


def case(ctx, rng, i):
    m, g = prepared(ctx, rng)
    # Every face has its own value.
    for k, f in enumerate(g.Faces):
        f['T'] = 1000.0 + k
        for v in m.vars:
            if v != 'T':
                f[v] = 0.001 * k + len(v)
    steps = rng.randint(1, 18 if len(g.Faces) > 4 else 6)
    hist = []
    for k in range(steps):
        op = rng.choice(A.OPS)
        c = A.choose(rng, g, op)
        if c is None:
            continue
        t, pts = c
        around = [t] if op == 'divide' else list(A.swappable(t).Faces) if op == 'swap' else list(t.Faces)
        if op != 'collapse' and any(flat([A.P(n) for n in f.Nodes]) for f in around):
            ctx.count('degenerate_places_avoided')
            continue
        if zones_around(op, t) > 1:
            ctx.count('cross_zone_steps')
        if op == 'divide':
            hit = [t]
        elif op == 'swap':
            hit = list(A.swappable(t).Faces)
        elif op == 'collapse':
            hit = list(t.Faces)
        else:
            hit = list(t.Faces)
        hit_ids = {id(f) for f in hit}
        parents = [(id(f.Zone), tuple(f.Nodes), tuple(A.P(n) for n in f.Nodes),
                    tuple(sorted((a, repr(b)) for a, b in f.Data.items()))) for f in hit]
        ends = tuple(t.Nodes) if op not in ('divide', 'swap') else ()
        old_points = {id(n): A.P(n) for n in g.Nodes}
        old_nodes = list(g.Nodes)
        rest = [x for f, x in zip(g.Faces, faces_of(g)) if id(f) not in hit_ids]
        where = 'step {0}: {1} after {2} on {3}'.format(k, op, hist, m.kind)
        with quiet():
            A.perform(g, geom, op, t, pts)
        hist.append(op)
        ctx.count('steps')
        now = faces_of(g)
        here = {id(n) for n in g.Nodes}

        if op == 'collapse':
            gone = [n for n in ends if id(n) not in here]
            ctx.eq(len(gone), 1, where + ': merged nodes gone')
            stay = [n for n in ends if id(n) in here][0]
            for a in range(3):
                ctx.close(A.P(stay)[a], pts[0][a], where + ': merged node is not in the middle', rel=1e-12, abs_=1e-14)
            mp = {id(gone[0]): id(stay)}
            want = bag(key(z, ns, d, mp) for z, ns, d in rest)
            got = bag(key(z, ns, d) for z, ns, d in now)
            if want != got:
                loose = bag((z, frozenset(mp.get(id(n), id(n)) for n in ns), d) for z, ns, d in rest)
                got2 = bag((z, frozenset(id(n) for n in ns), d) for z, ns, d in now)
                raise Violation('{0}: surviving faces changed their {1}'.format(
                    where, 'orientation' if loose == got2 else 'nodes, zone or data'))
            ctx.count('untouched_faces', len(rest))
            ctx.count('collapses')
            for n in g.Nodes:
                if n is not stay:
                    ctx.check(A.P(n) == old_points[id(n)], where + ': another node moved')
            continue

        # All other faces are the same.
        left = bag(key(*x) for x in now)
        for x in rest:
            kx = key(*x)
            if not left.get(kx):
                raise Violation('{0}: a face that is not involved changed or disappeared'.format(where))
            left[kx] -= 1
        ctx.count('untouched_faces', len(rest))
        pieces = []
        for x in now:
            if left.get(key(*x)):
                left[key(*x)] -= 1
                pieces.append(x)
        for n in old_nodes:
            ctx.check(id(n) in here and A.P(n) == old_points[id(n)], where + ': an old node moved or disappeared')
        new_nodes = [n for n in g.Nodes if id(n) not in old_points]

        if op == 'swap':
            ctx.count('swaps')
            ctx.eq(new_nodes, [], where + ': new nodes')
            (z1, n1, p1, d1), (z2, n2, p2, d2) = parents
            quad = {id(n) for n in n1 + n2}
            ctx.eq(len(pieces), 2, where + ': new faces')
            old_pairs = {frozenset(id(n) for n in n1), frozenset(id(n) for n in n2)}
            new_pairs = {frozenset(id(n) for n in ns) for _, ns, _ in pieces}
            ctx.check(all(x < quad for x in new_pairs) and len(new_pairs) == 2 and not (old_pairs & new_pairs),
                      where + ': faces are not the other two triangles of the same four nodes')
            for z, ns, d in pieces:
                ctx.check((z, d) in ((z1, d1), (z2, d2)) or (z in (z1, z2) and d in (d1, d2)),
                          where + ': data or zone of a new face are of neither old face')

            def directed(ts):
                es = [(id(t[a]), id(t[(a + 1) % 3])) for t in ts for a in range(3)]
                return {e for e in es if (e[1], e[0]) not in es}, len(es) - len(set(es))
            before, rep = directed([n1, n2])
            if rep == 0 and len(before) == 4:
                after, _ = directed([ns for _, ns, _ in pieces])
                ctx.check(before == after, where + ': orientation changed', monitor='swap_orientations')
            continue

        ctx.eq(sorted(repr(A.P(n)) for n in new_nodes), sorted(repr(p) for p in pts), where + ': new nodes')
        ctx.eq(len(pieces), {'divide': 3, 'cut': 4, 'cut single': 2, 'cut two': 6, 'cut two border': 3}[op], where + ': pieces')
        used = [0.0] * len(parents)
        count = [0] * len(parents)
        for z, ns, d in pieces:
            tri = tuple(A.P(n) for n in ns)
            nm = normal(tri)
            # The parent is the one with the same data (data are distinct).
            c = [j for j, (_, _, pp, dd) in enumerate(parents) if dd == d and all(inside(p, pp) for p in tri)]
            if not c:
                fit = [j for j, (_, _, pp, dd) in enumerate(parents) if all(inside(p, pp) for p in tri)]
                raise Violation('{0}: a piece {1}'.format(where, 'has data of another face' if fit else 'lies outside the faces'))
            ok = False
            for j in c:
                if parents[j][0] == z and dot(nm, normal(parents[j][2])) > 0:
                    ok = True
                    used[j] += math.sqrt(dot(nm, nm))
                    count[j] += 1
                    break
            ctx.check(ok, '{0}: a piece is in another zone or turned over'.format(where), monitor='pieces')
        for j, u in enumerate(used):
            ar = math.sqrt(dot(normal(parents[j][2]), normal(parents[j][2])))
            ctx.close(u, ar, where + ': area of pieces', rel=1e-9, abs_=1e-13)
        # Pieces keep data distinct for the next steps.
        for q, f in enumerate(g.Faces):
            f['T'] = 1000.0 + q + 5000.0 * (k + 1)
        ctx.check(all(f['T'] == 1000.0 + q + 5000.0 * (k + 1) for q, f in enumerate(g.Faces)),
                  where + ': a value given to one face appears in another one', monitor='own_values')
    if hist:
        ctx.sig(m.kind, len(m.znames), tuple(hist))
    ctx.sample({'kind': m.kind, 'faces': len(m.F), 'zones': len(m.znames), 'history': hist})
