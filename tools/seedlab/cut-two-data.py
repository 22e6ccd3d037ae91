PROP='P12'
EDITS=[('gsu/grid.py','''            f6 = gsu.Face(list(data2.keys()), list(data2.values()))''','''            f6 = gsu.Face(list(data1.keys()), list(data1.values()))''')]
NEEDS='an inner edge between two faces with different data, split with two nodes'
BREAKS='one of the six new faces gets the data of the other face'
DEMO='''
import geom
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('z', [(0, 0, 0), (3, 0, 0), (0, 3, 0), (3, -3, 0)], [(0, 1, 2), (0, 3, 1)])])
    g = load(p)
    e = [e for e in g.Edges if len(e.Faces) == 2][0]
    a, b = e.Nodes
    assert g.cut_edge_with_two_nodes(e, a.P + (b.P - a.P) * (1 / 3), a.P + (b.P - a.P) * (2 / 3))
    for f in g.Faces:
        up = f.get_center()[1] > 0
        assert f['T'] == (0 if up else 10), (f.get_center(), f.Data)
'''
