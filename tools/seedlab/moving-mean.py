PROP='P34'
EDITS=[('gsu/grid.py','''        # Grid mean point.
        g_mean = mean_p(self.Nodes)

''',''),('gsu/grid.py','''            z_mean = mean_p(z.Nodes)
''','''            g_mean, z_mean = mean_p(self.Nodes), mean_p(z.Nodes)
''')]
NEEDS='at least two zones moved away from the mean point of the grid by different amounts'
BREAKS='zones are moved away from a point which itself moves while they are moved'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    pts, tris = sheet(2, 2)
    dat(p, [('a', pts, tris), ('b', [(x + 5, y, z) for x, y, z in pts], tris), ('c', [(x, y + 9, z) for x, y, z in sheet(3, 1)[0]], sheet(3, 1)[1])])
    g = load(p, merge=False)
    import geom
    old = [geom.Vect(n.P.X, n.P.Y, n.P.Z) for n in g.Nodes]
    gm = sum(old, start=geom.Vect()) / len(old)
    pos = {id(n): q for n, q in zip(g.Nodes, old)}
    zm = [sum([pos[id(n)] for n in z.Nodes], start=geom.Vect()) / len(z.Nodes) for z in g.Zones]
    g.move_from_mean_point(0.5)
    for z, m in zip(g.Zones, zm):
        for n in z.Nodes:
            assert n.P.dist_to(pos[id(n)] + (m - gm) * 0.5) < 1e-9
'''
