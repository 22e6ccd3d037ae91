PROP='P01'
ALSO=['P11','P02']
EDITS=[('gsu/node.py','''        return self.RoundedCoords == n.RoundedCoords
''','''        return hash(self.RoundedCoords) == hash(n.RoundedCoords)
''')]
NEEDS='two points which differ only in a coordinate that is -1 in one of them and -2 in the other (their tuples have one hash), the second of them used by two zones'
BREAKS='the second zone gets the node of the first point in place of its own'
DEMO='''
with scratch() as d:
    pts = [(-2.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (-1.5, 1.0, 0.0), (-1.5, -1.0, 0.0)]
    dat(d + '/g.dat', [('a', pts[:3], [(0, 1, 2)]), ('b', [pts[1], pts[0], pts[3]], [(0, 1, 2)])])
    g = load(d + '/g.dat')
    got = [[(n.P.X, n.P.Y, n.P.Z) for n in f.Nodes] for f in g.Faces]
    assert got == [pts[:3], [pts[1], pts[0], pts[3]]], got
'''
