"""P08: borders between domain files are symmetric."""
import os
import gsu
from vh import mesh as M, decomp as D, domains as Dm, topo
from vh.core import quiet
from checks.P07 import prepared, state

RULE = ('random grids and decompositions as in P07; the border lists of every pair of domain files are compared edge by edge as '
        'geometric edges and with a count over the faces of all files; non-trivial = new (family, numbers of domains, borders and '
        'border edges)')
QUICK, THOROUGH = 3120, 6240
MIN = {'border_pairs_compared': 500, 'border_edges_compared': 1500, 'neighbour_sets_compared': 500, 'stored again': 200}


def case(ctx, rng, i):
    m, g, hist = prepared(ctx, rng, M.any_size(rng, 's', 'm', 'm'))
    if len(g.Zones) < 2:
        D.apply(g, rng, 'random', rng.randint(2, 6))
        hist += ' random'
    for turn in range(rng.choice([1, 1, 2, 3])):
        if turn:
            # The same object is divided once more, often into zones of the same names.
            if rng.random() < 0.7:
                D.apply(g, rng, 'random', len(g.Zones))
                hist += ' random again'
            else:
                D.apply(g, rng, rng.choice(['linear', 'farhat', 'random']), rng.randint(2, 6))
                hist += ' again'
            ctx.count('stored again')
        d = os.path.dirname(ctx.path('out{0}'.format(turn), 'x'))
        with quiet():
            g.store_mpi(os.path.join(d, 'b'), '000000000001')
        cs = Dm.read_domains(ctx, d, 'b', '000000000001')
        n = Dm.borders(ctx, cs, hist)
        # The same seen from the object.
        direct = sum(1 for e in g.Edges if len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone)
        ctx.eq(n, direct, 'edges between zones')
        ctx.eq(sum(c.cross for c in cs), 2 * direct, 'sum of cross edges')
    if n:
        ctx.sig(m.kind, len(cs), sum(len(c.borders) for c in cs), n)
    ctx.sample({'kind': m.kind, 'domains': len(cs), 'borders': [sorted(c.borders) for c in cs][:8], 'border_edges': n})
