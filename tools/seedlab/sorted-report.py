PROP='P35'
EDITS=[('gsu/grid.py',"""            print('  distribution faces between zones:')
            for zone in self.Zones:
""","""            print('  distribution faces between zones:')
            self.Zones.sort(key=lambda z: -z.faces_count())
            for zone in self.Zones:
""")]
NEEDS='a report on the distribution of faces for a grid whose zones do not come in the order of their sizes, after which the grid is used'
BREAKS='the report changes the order of zones, so the matrix printed below and the files stored later'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('a', [(0, 0, 0), (1, 0, 0), (0, 1, 0)], [(0, 1, 2)]), ('b', [(1, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 0)], [(0, 2, 1), (0, 3, 2)])])
    g = load(p)
    with quiet():
        g.print_info(is_print_faces_distribution=True)
    assert [z.Name for z in g.Zones] == ['a', 'b']
'''
