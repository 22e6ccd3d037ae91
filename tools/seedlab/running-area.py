PROP='P23'
ALSO=['P40','P22']
EDITS=[('remeshing.py','''                        mid_area = f1.ice_chunk / f1.ice_shift
''','''                        mid_area = f1.loc_ice_chunk / f1.ice_shift
''')]
NEEDS='smoothing of heights and a face that gives ice to several neighbours'
BREAKS='the volume given depends on what has been given before: the grown shape depends on the numbering of edges'
DEMO='''
import remeshing, random
pts, tris = box(3)


def run(d, order):
    inv = {t: i for i, t in enumerate(order)}
    dat(d + '/g.dat', [('z', pts, [tris[t] for t in order])],
        val=lambda n, k: (0.02 + 0.01 * ((order[k] * 7) % 5) if n == 'Hi' else 0.0))
    g = load(d + '/g.dat')
    json.dump({'remesh_hsmooth_steps': 5, 'remesh_nsteps_min': 2, 'remesh_nsteps_max': 4}, open(d + '/c.json', 'w'))
    with quiet():
        remeshing.TongRemesher('/g.dat', d + '/c.json', d)(g)
    res = {}
    for i, f in enumerate(g.Faces):
        for n, v in zip(f.Nodes, tris[order[i]]):
            res[v] = n.P
    return res


with scratch() as d:
    a = run(d, list(range(len(tris))))
    b = run(d, list(reversed(range(len(tris)))))
    assert max(a[v].dist_to(b[v]) for v in a) < 1e-10
'''
