PROP='P07'
ALSO=['P02','P05']
EDITS=[('gsu/grid.py','''            zids = list(set([f.Zone.Id for f in n.Faces]))
            for zid in zids:
                self.Zones[zid].add_node(n)
''','''            # Only cross edges lead from one zone to another.
            zids = set([f.Zone.Id for e in n.Edges if e.is_cross() for f in e.Faces])
            for zid in zids or [n.Faces[0].Zone.Id]:
                self.Zones[zid].add_node(n)
''')]
NEEDS='a node where two fans of faces meet (surfaces touching in a point), each fan in a zone of its own'
BREAKS='such a node is missing in one of the zones: its domain file lacks it and refers to a wrong local node'
DEMO='''
with scratch() as d:
    pts = [(0, 0, 0), (2, 1, 0), (2, -1, 0), (-1, 1, 0), (-1, -1, 0), (-2, 0, 0)]
    dat(d + '/g.dat', [('a', pts[:3], [(0, 2, 1)]), ('b', [pts[0]] + pts[3:], [(0, 1, 2), (1, 3, 2)])])
    g = load(d + '/g.dat')
    for z in g.Zones:
        have = set(id(n) for n in z.Nodes)
        assert all(id(n) in have for f in z.Faces for n in f.Nodes), z.Name
'''
