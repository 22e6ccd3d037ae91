PROP='P24'
ALSO=['P21','P23']
EDITS=[('remeshing.py','''        big_value = 10 ** 20
''','''        big_value = 10 ** 3
''')]
NEEDS='the mode for two-dimensional shapes on a small shape, whose nodes are nearer than a thousandth'
BREAKS='different columns of nodes are taken for one, so the result is no longer a straight shape'
DEMO='''
import remeshing, math
with scratch() as d:
    p = d + '/g.dat'
    pts, tris = sheet(4, 1)
    pts = [(0.001 * math.cos(0.4 * x + 0.1), 0.001 * math.sin(0.4 * x + 0.1), float(y)) for x, y, _ in pts]
    dat(p, [('z', pts, tris)], val=lambda n, k: 0.0001 if n == 'Hi' else 0.0)
    json.dump({'remesh_pseudo_2d_oz': True, 'remesh_nsteps_max': 2}, open(d + '/c.json', 'w'))
    g = load(p)
    with quiet():
        remeshing.TongRemesher('g.dat', d + '/c.json', d)(g)
    cols = {}
    for q, n in zip([tuple(x) for x in pts], sorted(g.Nodes, key=lambda n: n.GloId)):
        pass
    xy = sorted((round(n.P.X, 9), round(n.P.Y, 9)) for n in g.Nodes)
    assert len(set(xy)) == 5, xy
'''
