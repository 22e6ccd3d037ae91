"""P13: zone adjacency statistics equal a direct count."""
import gsu
from vh import mesh as M, decomp as D, topo
from vh.core import quiet
from checks.P07 import prepared

RULE = ('random surfaces and zonings (file zones, decompositions with more zones than faces, single zones); the matrix and all '
        'derived statistics and edge predicates are compared with a count over geometric edges made from the faces alone; '
        'non-trivial = new (family, zones, border/inner/cross counts)')
QUICK, THOROUGH = 4800, 9600
MIN = {'matrix_cells': 2000, 'edge_predicates': 5000, 'statistics': 2000}


def judge(ctx, rng, g, where):
    """All statistics of the grid; returns the numbers of edges: all, border, inner, cross."""
    zi = {id(z): k for k, z in enumerate(g.Zones)}
    nz = len(g.Zones)
    # Direct count from faces.
    sides = {}
    for f in g.Faces:
        ids = [id(n) for n in f.Nodes]
        for k in range(3):
            sides.setdefault(frozenset((ids[k], ids[(k + 1) % 3])), []).append(zi[id(f.Zone)])
    want = [[0] * (nz + 1) for _ in range(nz + 1)]
    for zs in sides.values():
        if len(zs) == 1:
            a, b = zs[0], nz
        else:
            a, b = zs
        want[a][b] += 1
        if a != b:
            want[b][a] += 1
    snap = topo.snapshot(g)
    zam = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
    ctx.check(topo.snapshot(g) == snap, 'counting changed the grid')
    for a in range(nz + 1):
        for b in range(nz + 1):
            ctx.eq(zam.M[a][b], want[a][b], '{0}: cell [{1}][{2}] of {3} zones'.format(where, a, b, nz), monitor='matrix_cells')
    bec = sum(1 for z in sides.values() if len(z) == 1)
    iec = sum(1 for z in sides.values() if len(z) == 2 and z[0] == z[1])
    cec = sum(1 for z in sides.values() if len(z) == 2 and z[0] != z[1])
    ec = len(sides)
    st = zam.edges_statistics()
    ctx.eq(tuple(st[:4]), (ec, bec, iec, cec), where + ': totals of edges', monitor='statistics')
    for x, y, nm in zip(st[4:], (bec, iec, cec), ('border', 'inner', 'cross')):
        ctx.close(x, 100.0 * y / ec, where + ': percent of {0} edges'.format(nm), rel=1e-12, monitor='statistics')
    s = zam.edges_statistics_string()
    ctx.eq(s, 'edges stats: {0} border ({1:.2f}%), {2} inner ({3:.2f}%), {4} cross ({5:.2f}%)'.format(
        bec, 100.0 * bec / ec, iec, 100.0 * iec / ec, cec, 100.0 * cec / ec), where + ': printed statistics', monitor='statistics')
    rows = [[want[a][b] if b != a else 0 for b in range(nz)] for a in range(nz)]
    longest = max(x for r in rows for x in r)
    # One matrix answers any questions in any order.
    asked = [(q, a) for q in ('array', 'count', 'borders', 'longest', 'matrix') for a in range(nz)] + [('all', 0), ('totals', 0), ('text', 0)]
    for turn in range(2):
        if turn:
            rng.shuffle(asked)
            asked = asked[:60]
        for q, a in asked:
            row, say = rows[a], '{0}: {1} of zone {2}, asked {3} time'.format(where, q, a, ('first', 'second')[turn])
            if q == 'array':
                ctx.eq(list(zam.zone_cross_edges_array(a))[:nz], row, say, monitor='statistics')
            elif q == 'count':
                ctx.eq(zam.zone_cross_edges_count(a), sum(row), say, monitor='statistics')
            elif q == 'borders':
                ctx.eq(zam.zone_cross_borders_count(a), sum(1 for x in row if x), say, monitor='statistics')
            elif q == 'longest':
                ctx.eq(zam.zone_max_cross_border_len(a), max(row), say, monitor='statistics')
            elif q == 'all':
                ctx.eq(zam.max_cross_border_len(), longest, say, monitor='statistics')
            elif q == 'totals':
                ctx.eq(tuple(zam.edges_statistics()), tuple(st), say, monitor='statistics')
            elif q == 'text':
                ctx.eq(zam.edges_statistics_string(), s, say, monitor='statistics')
            else:
                ctx.eq(list(zam.M[a]), want[a], say, monitor='statistics')
    for a in range(nz):
        # Outer edges of the zone: its border edges and edges shared with other zones.
        row = rows[a]
        ctx.eq(g.Zones[a].outer_edges_count(), sum(row) + want[a][nz], where + ': outer edges of a zone', monitor='statistics')
        ctx.eq((g.Zones[a].edges_count(), g.Zones[a].faces_count(), g.Zones[a].nodes_count()),
               (sum(row) + want[a][nz] + want[a][a], len(g.Zones[a].Faces), len(g.Zones[a].Nodes)), where + ': counts of a zone')
    for e in g.Edges:
        zs = sides[frozenset(id(n) for n in e.Nodes)]
        border, inner = len(zs) == 1, len(zs) == 2 and zs[0] == zs[1]
        cross = len(zs) == 2 and zs[0] != zs[1]
        ctx.check((bool(e.is_border()), bool(e.is_inner()), bool(e.is_cross()), bool(e.is_outer()))
                  == (border, inner, cross, not inner), where + ': predicates of an edge', monitor='edge_predicates')
        for _ in range(2):
            a, b = rng.randrange(nz), rng.randrange(nz)
            ctx.check(bool(e.is_connect_zones(g.Zones[a], g.Zones[b])) == (len(zs) == 2 and sorted(zs) == sorted((a, b))),
                      where + ': an edge connecting zones {0} and {1}'.format(a, b), monitor='edge_predicates')
        if cross:
            ctx.check(e.is_connect_zones(g.Zones[zs[0]], g.Zones[zs[1]]) and e.is_connect_zones(g.Zones[zs[1]], g.Zones[zs[0]]),
                      where + ': an edge between two zones does not connect them', monitor='edge_predicates')
        o = rng.choice(g.Edges)
        ctx.check(bool(e.is_adjacent_with(o)) == bool({id(n) for n in e.Nodes} & {id(n) for n in o.Nodes}),
                  where + ': adjacency of edges', monitor='edge_predicates')
    return ec, bec, iec, cec


def case(ctx, rng, i):
    m, g, hist = prepared(ctx, rng, rng.choice(['s', 's', 'm']))
    ec, bec, iec, cec = judge(ctx, rng, g, '{0} {1}'.format(m.kind, hist))
    nz = len(g.Zones)
    ctx.sig(m.kind, nz, bec, iec, cec)
    ctx.sample({'kind': m.kind, 'zones': nz, 'edges': [ec, bec, iec, cec], 'history': hist})
