"""Admissible places and expected effects of the atomic mesh transformations, from the incidence structure alone."""
import math


def P(n):
    return tuple(float(n.P[k]) for k in range(3))


def third(f, e):
    """Corner of a face opposite to its edge."""
    r = [n for n in f.Nodes if n is not e.Nodes[0] and n is not e.Nodes[1]]
    return r[0] if len(r) == 1 else None


def neighbours(n):
    res = {}
    for e in n.Edges:
        for x in e.Nodes:
            if x is not n:
                res[id(x)] = x
    return res


def on_border(n):
    return any(len(e.Faces) == 1 for e in n.Edges)


def joined(a, b):
    return any(x is b for e in a.Edges for x in e.Nodes)


def collapsible(e):
    """Link condition: merging the ends of an inner edge keeps a surface of the same topology."""
    if len(e.Faces) != 2:
        return False
    a, b = e.Nodes
    c, d = third(e.Faces[0], e), third(e.Faces[1], e)
    if c is None or d is None or c is d:
        return False
    if on_border(a) and on_border(b):
        return False
    na, nb = neighbours(a), neighbours(b)
    if set(na) & set(nb) != {id(c), id(d)}:
        return False

    def opposite(n):
        return {frozenset(id(x) for x in f.Nodes if x is not n) for f in n.Faces}
    return not (opposite(a) & opposite(b))


def fan_connected(n):
    """Faces around a node form one fan."""
    if not n.Faces:
        return False
    fs = {id(f): f for f in n.Faces}
    seen, stack = set(), [n.Faces[0]]
    while stack:
        f = stack.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        for e in f.Edges:
            if any(x is n for x in e.Nodes):
                stack += [o for o in e.Faces if id(o) in fs and id(o) not in seen]
    return len(seen) == len(fs)


def longest(f):
    """The longest edge, or None when it is not unique."""
    ls = sorted(((math.dist(P(e.Nodes[0]), P(e.Nodes[1])), i) for i, e in enumerate(f.Edges)), reverse=True)
    if ls[0][0] - ls[1][0] <= 1e-9 * ls[0][0]:
        return None
    return f.Edges[ls[0][1]]


def swappable(f):
    e = longest(f)
    if e is None or len(e.Faces) != 2:
        return None
    o = [x for x in e.Faces if x is not f][0]
    c, d = third(f, e), third(o, e)
    if c is None or d is None or c is d or joined(c, d):
        return None
    return e


def inner_point(rng, pts):
    w = [rng.uniform(0.15, 1.0) for _ in pts]
    s = sum(w)
    return tuple(sum(w[i] / s * pts[i][k] for i in range(len(pts))) for k in range(3))


def rk(p):
    return tuple(round(x, 9) for x in p)


def free_place(g, p):
    """No node of the grid stands (nearly) there."""
    return all(math.dist(p, P(n)) > 1e-8 for n in g.Nodes)


OPS = ['divide', 'swap', 'cut', 'cut single', 'cut two', 'cut two border', 'collapse']
# Change of the numbers of nodes, edges and faces.
DELTA = {'divide': (1, 3, 2), 'swap': (0, 0, 0), 'cut': (1, 3, 2), 'cut single': (1, 2, 1), 'cut two': (2, 6, 4),
         'cut two border': (2, 4, 2), 'collapse': (-1, -3, -2)}


def candidates(g, op):
    if op == 'divide':
        return list(g.Faces)
    if op == 'swap':
        return [f for f in g.Faces if swappable(f) is not None]
    if op in ('cut', 'cut two'):
        return [e for e in g.Edges if len(e.Faces) == 2 and third(e.Faces[0], e) is not third(e.Faces[1], e)]
    if op in ('cut single', 'cut two border'):
        return [e for e in g.Edges if len(e.Faces) == 1]
    return [e for e in g.Edges if collapsible(e) and fan_connected(e.Nodes[0]) and fan_connected(e.Nodes[1])]


def choose(rng, g, op):
    """(target, points) of an admissible application or None."""
    c = candidates(g, op)
    if op == 'collapse' and len(g.Faces) < 4:
        return None
    if not c:
        return None
    if rng.random() < 0.5:
        # Prefer borders between zones.
        def zs(x):
            fs = x.Faces if hasattr(x, 'Faces') else [f for e in x.Edges for f in e.Faces]
            return len({id(f.Zone) for f in fs}) > 1
        cc = [x for x in c if zs(x)]
        c = cc or c
    t = rng.choice(c)
    pts = []
    if op == 'divide':
        pts = [inner_point(rng, [P(n) for n in t.Nodes])]
    elif op in ('cut', 'cut single'):
        pts = [inner_point(rng, [P(n) for n in t.Nodes])]
    elif op in ('cut two', 'cut two border'):
        a, b = P(t.Nodes[0]), P(t.Nodes[1])
        s = rng.uniform(0.15, 0.45)
        u = rng.uniform(0.55, 0.85)
        pts = [tuple(a[k] + w * (b[k] - a[k]) for k in range(3)) for w in (s, u)]
    elif op == 'collapse':
        pts = [tuple((P(t.Nodes[0])[k] + P(t.Nodes[1])[k]) / 2.0 for k in range(3))]
    if not all(free_place(g, p) for p in pts):
        return None
    return t, pts


def perform(g, geom, op, target, pts):
    vs = [geom.Vect(*p) for p in pts]
    if op == 'divide':
        return g.divide_face(target, vs[0])
    if op == 'swap':
        return g.collapse_face(target)
    if op == 'cut':
        return g.cut_edge(target, vs[0])
    if op == 'cut single':
        return g.cut_single_edge(target, vs[0])
    if op in ('cut two', 'cut two border'):
        return g.cut_edge_with_two_nodes(target, vs[0], vs[1])
    return g.collapse_edge(target)


def refusals(g):
    """[(name, callable)] of operations that must say that they do not apply."""
    res = []
    inner = [e for e in g.Edges if len(e.Faces) == 2]
    border = [e for e in g.Edges if len(e.Faces) == 1]
    return inner, border, [f for f in g.Faces if longest(f) is not None and len(longest(f).Faces) == 1]
