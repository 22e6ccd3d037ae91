PROP='P02'
ALSO=['P11','P03','P34']
EDITS=[('gsu/grid.py','''        for n in self.Nodes:
            zids = list(set([f.Zone.Id for f in n.Faces]))
            for zid in zids:
                self.Zones[zid].add_node(n)
''','''        for n in self.Nodes:
            for f in n.Faces:
                z = self.Zones[f.Zone.Id]
                if z.Nodes[-1:] != [n]:
                    z.add_node(n)
''')]
NEEDS='a grid loaded without merging where two nodes of one zone at the same place follow each other'
BREAKS='the second of them is missing in its zone'
DEMO='''
with scratch() as d:
    pts = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 0), (0, 1, 0), (0, 0, 0)]
    dat(d + '/g.dat', [('a', pts, [(0, 1, 2), (3, 4, 5)])])
    import gsu
    g = gsu.Grid()
    g.load(d + '/g.dat', is_merge_same_nodes=False)
    assert [n.GloId for n in g.Zones[0].Nodes] == list(range(6)), [n.GloId for n in g.Zones[0].Nodes]
'''
