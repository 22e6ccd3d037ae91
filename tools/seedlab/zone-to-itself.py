PROP='P13'
EDITS=[('gsu/edge.py','''        return ((z0 == fz0) and (z1 == fz1)) or ((z0 == fz1) and (z1 == fz0))
''','''        return (z0 in (fz0, fz1)) and (z1 in (fz0, fz1))
''')]
NEEDS='the question whether an edge between two zones connects one of them with itself'
BREAKS='such an edge is said to connect the zone with itself, so these edges are more than the diagonal of the matrix counts'
DEMO='''
from gsu.zones_adjacency_matrix import ZonesAdjacencyMatrix
with scratch() as d:
    dat(d + '/a.dat', [('a', *sheet(3, 3))])
    g = load(d + '/a.dat')
    with quiet():
        g.decompose_linear(3)
    m = ZonesAdjacencyMatrix(g.Edges, g.Zones).M
    for i, a in enumerate(g.Zones):
        for j, b in enumerate(g.Zones):
            assert sum(1 for e in g.Edges if e.is_connect_zones(a, b)) == m[i][j], (i, j)
'''
