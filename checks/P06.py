"""P06: fixed zones survive decomposition."""
import gsu
from vh import mesh as M, topo, decomp as D
from vh.loadcmp import load

RULE = ('random multi-zone grids get sequences of hierarchical and breadth-first decompositions (and of the methods without '
        'fixed zones in between) with random subsets of the present zones fixed, including none, all and absent names; '
        'non-trivial = new (family, faces, method, count, number of fixed zones, step)')
QUICK, THOROUGH = 3120, 6240
MIN = {'fixed_zones_compared': 300, 'released_zones': 50}


def case(ctx, rng, i):
    m = M.random_mesh(rng, M.any_size(rng, 's', 'm'), nz=rng.choice([2, 3, 4, 5, 6, 12]), move=0.3, empty=0.1)
    g = load(gsu, M.write_dat(m, ctx.path('a.dat'), rng=rng))
    n = len(g.Faces)
    image = D.frozen_surface(g)
    hist, prev = [], set()
    for step in range(rng.randint(1, 4)):
        names = sorted({z.Name for z in g.Zones})
        if rng.random() < 0.15 and step:
            D.apply(g, rng, rng.choice(['mono', 'linear', 'random']), rng.randint(1, 5))
            topo.zone_lists(ctx, g, 'unfixed decomposition')
            hist.append('unfixed')
            prev = set()
            continue
        k = rng.choice([0, 1, 1, 2, len(names) - 1, len(names)])
        fixed = rng.sample(names, min(k, len(names)))
        before = [(z.Name, frozenset(id(f) for f in z.Faces)) for z in g.Zones if z.Name in fixed]
        asked = fixed + (['no such zone'] if rng.random() < 0.1 else [])
        method = rng.choice(['hierarchical', 'farhat'])
        count = rng.choice([1, 2, 3, 4, 6]) if method == 'hierarchical' else rng.choice([1, 2, 3, rng.randint(1, n), n + 2])
        where = '{0}({1}) fixing {2} after {3}'.format(method, count, fixed, hist)
        D.apply(g, rng, method, count, asked)
        ctx.check(D.frozen_surface(g) == image, where + ': surface or face data changed')
        topo.zone_lists(ctx, g, where)
        left = list(g.Zones)
        for nm, faces in before:
            hit = [z for z in left if z.Name == nm and {id(f) for f in z.Faces} == faces]
            if not faces:
                hit = [z for z in left if z.Name == nm and not z.Faces]
            ctx.check(len(hit) >= 1, '{0}: fixed zone {1!r} with {2} faces is not there any more'.format(where, nm, len(faces)),
                      monitor='fixed_zones_compared')
            left.remove(hit[0])
        held = {f for _, fs in before for f in fs}
        ctx.check(all(id(f) not in held for z in left for f in z.Faces), where + ': a new zone holds faces of a fixed zone')
        ctx.eq(sum(len(z.Faces) for z in left), n - len(held), where + ': free faces in new zones')
        D.sizes_promised(ctx, g, method, count, left, where)
        ctx.count('released_zones', len(prev - set(fixed)))
        prev = set(fixed)
        hist.append('{0}({1})[{2}]'.format(method, count, len(fixed)))
        ctx.sig(m.kind, n, method, count, len(fixed), step)
    ctx.sample({'kind': m.kind, 'faces': n, 'history': hist, 'zones': [(z.Name, len(z.Faces)) for z in g.Zones]})
