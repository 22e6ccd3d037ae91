PROP='P23'
ALSO=['P21','P22']
EDITS=[('remeshing.py','''                        mid_area = f1.ice_chunk / f1.ice_shift
''','''                        mid_area = f1.loc_ice_chunk / f1.ice_shift
''')]
NEEDS='smoothing of heights switched on and heights which differ between faces'
BREAKS='the volume redistributed over an edge depends on the edges handled before it, so on the numbering'
DEMO='''
import remeshing, random


def run(tris, pts, hi, order, nodeorder, conf, d):
    inv = {o: i for i, o in enumerate(nodeorder)}
    p = d + '/g.dat'
    dat(p, [('z', [pts[o] for o in nodeorder], [tuple(inv[v] for v in tris[k]) for k in order])],
        val=lambda n, k: hi[order[k]] if n == 'Hi' else 0.0)
    g = load(p)
    json.dump(conf, open(d + '/c.json', 'w'))
    with quiet():
        remeshing.TongRemesher('g.dat', d + '/c.json', d)(g)
    r = [None] * len(pts)
    for n, o in zip(g.Nodes, nodeorder):
        r[o] = n.P
    return r


r = random.Random(5)
pts, tris = box(3)
hi = [r.uniform(0, 0.05) for _ in tris]
conf = {'remesh_hsmooth_steps': 4, 'remesh_hsmooth_alfa': 0.5, 'remesh_hsmooth_beta': 0.2, 'remesh_nsteps_max': 3}
with scratch() as d:
    a = run(tris, pts, hi, list(range(len(tris))), list(range(len(pts))), conf, d)
    for s in range(4):
        o, q = list(range(len(tris))), list(range(len(pts)))
        r.shuffle(o)
        r.shuffle(q)
        b = run(tris, pts, hi, o, q, conf, d)
        assert max(x.dist_to(y) for x, y in zip(a, b)) < 1e-9, max(x.dist_to(y) for x, y in zip(a, b))
'''
