PROP='P06'
EDITS=[('gsu/grid.py','''        # Mark fixed zones.
        for z in self.Zones:
            z.IsFixed = z.Name in fz_names
''','''        # Mark fixed zones.
        for z in self.Zones:
            if z.Name in fz_names:
                z.IsFixed = True
''')]
NEEDS='two decompositions of the same grid: the first one with a fixed zone, the second (breadth-first) without it'
BREAKS='the zone stays fixed in the second decomposition, its faces are not redistributed and there is one zone too many'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    pts, tris = sheet(4, 4)
    dat(p, [('keep', pts, tris[:8]), ('rest', pts, tris[8:])])
    g = load(p)
    with quiet():
        g.decompose_hierarchical(levels=2, fixed_zones=['keep'])
        g.decompose_farhat(count=4)
    assert len(g.Zones) == 4, [z.Name for z in g.Zones]
    assert [len(z.Faces) for z in g.Zones] == [8, 8, 8, 8]
'''
