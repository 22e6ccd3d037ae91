PROP='P35'
ALSO=['P13','P09']
EDITS=[('gsu/edge.py','''            return self.Faces[0].Zone == self.Faces[1].Zone
''','''            return self.Faces[0].Zone.Name == self.Faces[1].Zone.Name
''')]
NEEDS='two neighbouring zones with the same name'
BREAKS='edges between them are reported as inner ones: counts of outer edges and quality factors are wrong'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('z', *sheet(2, 2)), ('z', [(x + 2, y, z) for x, y, z in sheet(2, 2)[0]], sheet(2, 2)[1])])
    g = load(p)
    assert [z.outer_edges_count() for z in g.Zones] == [8, 8], [z.outer_edges_count() for z in g.Zones]
    assert sum(e.is_cross() for e in g.Edges) == sum(not e.is_inner() and not e.is_border() for e in g.Edges) == 2
'''
