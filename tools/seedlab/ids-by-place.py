PROP='P03'
EDITS=[('gsu/grid.py','''            loc_ids = [-1] * len(self.Nodes)
''','''            loc_ids = {}
'''),('gsu/grid.py','''                for i, node in enumerate(zone.Nodes):
                    loc_ids[node.GloId] = i
                for face in zone.Faces:
                    f.write(' '.join([str(loc_ids[n.GloId] + 1) for n in face.Nodes]) + '\\n')
''','''                for i, node in enumerate(zone.Nodes):
                    loc_ids[node.RoundedCoords] = i
                for face in zone.Faces:
                    f.write(' '.join([str(loc_ids[n.RoundedCoords] + 1) for n in face.Nodes]) + '\\n')
''')]
NEEDS='a grid loaded without merging with several nodes at one place of a zone, or nodes moved since'
BREAKS='faces are stored with another node of the same place: the stored grid is connected differently'
DEMO='''
with scratch() as d:
    pts, tris = sheet(1, 1)
    dat(d + '/g.dat', [('z', pts + pts[:3], tris + [(4, 6, 5)])])
    pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 0), (-1, 0, 0), (0, -1, 0)]
    dat(d + '/g.dat', [('z', pts, [(0, 1, 2), (3, 4, 5)])])
    g = load(d + '/g.dat', merge=False)
    g.store(d + '/o.dat')
    s = open(d + '/o.dat').read().split('\\n')
    assert s[-3:-1] == ['1 2 3', '4 5 6'], s[-3:]
'''
