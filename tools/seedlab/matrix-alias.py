PROP='P13'
ALSO=['P08','P35']
EDITS=[('gsu/zones_adjacency_matrix.py','''        line2 = line[:]
''','''        line2 = line
''')]
NEEDS='a second question to the same matrix after a question about the cross edges of a zone'
BREAKS='asking for cross edges of a zone erases its numbers of inner and border edges'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('z', *sheet(4, 4))])
    g = load(p)
    import gsu
    with quiet():
        g.decompose_linear(3)
    z = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
    a = z.edges_statistics()
    z.max_cross_border_len()
    assert z.edges_statistics() == a
'''
