"""P05: every decomposition is a partition of the faces."""
import gsu
from vh import mesh as M, topo, decomp as D
from vh.core import quiet
from vh.loadcmp import load

RULE = ('random surfaces (including planar ones parallel to axes, exact ties of centroids and lone faces) get random sequences of '
        'the five decompositions with zone counts from 1 to beyond the number of faces; after every step a monitor compares the '
        'surface with its frozen image and the zones with the promised partition; non-trivial = new (family, faces, method, count)')
QUICK, THOROUGH = 2880, 5760
MIN = {'decompositions': 400, 'hierarchical_exact_sizes': 40, 'refinements': 40, 'zones to be split': 300, 'faces moved by hand': 300}


def planar(rng):
    """Grids with exact ties of centroids."""
    V, F = M.sheet(rng, rng.randint(1, 4), rng.randint(1, 4), rng.choice([0.0, 0.2]), 0.0)
    k = rng.randrange(3)
    V = [tuple(v[(t + k) % 3] for t in range(3)) for v in V]
    if rng.random() < 0.4:
        F = [f for f in F if rng.random() < 0.6] or F[:1]
    m = M.Mesh(V, F)
    m.drop_unused_vertices()
    m.kind = 'planar'
    M.add_zones(rng, m)
    M.add_data(rng, m)
    return m


def by_hand(ctx, rng, g, n, image):
    """Faces moved between zones one by one: each is in the zone it was put to last, and only there."""
    want = {id(z): [id(f) for f in z.Faces] for z in g.Zones}
    for _ in range(rng.randint(1, 6)):
        f, z = rng.choice(g.Faces), rng.choice(g.Zones)
        if f.Zone is None:
            continue
        r = rng.random()
        if r < 0.3:
            want[id(f.Zone)].remove(id(f))
            f.unlink_from_zone()
            ctx.check(f.Zone is None, 'an unlinked face refers to a zone')
            f.unlink_from_zone()
        else:
            want[id(f.Zone)].remove(id(f))
        ctx.check(z.add_face(f) is f, 'adding a face to a zone returns something else')
        want[id(z)].append(id(f))
        ctx.eq({k: len(v) for k, v in want.items()}, {id(z): len(z.Faces) for z in g.Zones}, 'sizes of zones after a face was moved')
    g.link_nodes_and_edges_to_zones()
    ctx.eq({id(z): [id(f) for f in z.Faces] for z in g.Zones}, want, 'faces of zones after moves', monitor='faces moved by hand')
    ctx.check(D.frozen_surface(g) == image, 'moving faces between zones changed the surface or face data')
    topo.zone_lists(ctx, g, 'after moves of faces between zones')


def divisible(z):
    """Less than half of the faces of the zone, but some, lie clearly before its median along some axis."""
    for k in range(3):
        s = sorted(sum(float(n.P[k]) for n in f.Nodes) / 3.0 for f in z.Faces)
        if len(s) > 1 and s[len(s) // 2] - s[0] > 1e-9 * max(abs(s[0]), abs(s[-1])):
            return True
    return False


def case(ctx, rng, i):
    m = planar(rng) if rng.random() < 0.3 else M.random_mesh(rng, M.any_size(rng, 's', 's', 'm'), move=0.3, empty=0.1)
    g = load(gsu, M.write_dat(m, ctx.path('a.dat'), rng=rng))
    n = len(g.Faces)
    image = D.frozen_surface(g)
    name = g.Name
    hist = []
    for step in range(rng.randint(1, 4)):
        method = rng.choice(D.METHODS)
        count = rng.choice([1, 2, 3, rng.randint(1, max(1, n)), n, n + rng.randint(1, 4), 32])
        if method == 'hierarchical':
            count = rng.choice([1, 2, 3, 4, 5, 5, 6, 7, 9])
        new = 'renamed {0}'.format(step) if rng.random() < 0.3 else None
        where = '{0}({1}) of {2} faces after {3}'.format(method, count, n, hist)
        D.apply(g, rng, method, count, None, new)
        name = new if new is not None else name
        ctx.count('decompositions')
        ctx.eq(g.Name, name, where + ': grid name')
        ctx.check(D.frozen_surface(g) == image, where + ': surface or face data changed')
        topo.zone_lists(ctx, g, where)
        D.sizes_promised(ctx, g, method, count, g.Zones, where)
        if method == 'linear':
            D.linear_runs(ctx, g, g.Zones, where)
        if method == 'hierarchical' and count > 1:
            # One level less gives unions of these zones.
            own = {id(f): k for k, z in enumerate(g.Zones) for f in z.Faces}
            D.apply(g, rng, method, count - 1)
            for z in g.Zones:
                mine = {id(f) for f in z.Faces}
                if divisible(z):
                    ctx.eq(len({own[x] for x in mine}), 2, '{0}: pieces of a zone of {1} faces which can be split'.format(where, len(mine)),
                           monitor='zones to be split')
                for k in {own[x] for x in mine}:
                    ctx.check(all(x in mine for x, kk in own.items() if kk == k),
                              where + ': a zone mixes faces of different zones of the level above', monitor='refinements')
            D.apply(g, rng, method, count)
        hist.append('{0}({1})'.format(method, count))
        ctx.sig(m.kind, n, method, count)
    by_hand(ctx, rng, g, n, image)
    with ctx.raises('hierarchical decomposition with no levels'):
        g.decompose_hierarchical(levels=0)
    ctx.sample({'kind': m.kind, 'faces': n, 'history': hist, 'sizes': [len(z.Faces) for z in g.Zones]})
