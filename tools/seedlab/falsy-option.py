PROP='P24'
ALSO=['P22','P21']
EDITS=[('remeshing.py','''            self.nss_fix_nodes = data['remesh_nss_fix_nodes']
''','''            self.nss_fix_nodes = data['remesh_nss_fix_nodes'] or self.nss_fix_nodes
''')]
NEEDS='remesh_nss_fix_nodes switched off in the configuration, null-space smoothing on, a surface with a border'
BREAKS='the option cannot be switched off: border nodes stay where they are'
DEMO='''
import remeshing
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('z', *sheet(4, 3, dx=1.0))], val=lambda n, k: 0.0)
    json.dump({'remesh_nss_fix_nodes': False, 'remesh_nss_steps': 3, 'remesh_nsteps_max': 2}, open(d + '/c.json', 'w'))
    r = remeshing.TongRemesher('g.dat', d + '/c.json', d)
    assert r.nss_fix_nodes is False
    g = load(p)
    old = [(n.P.X, n.P.Y) for n in g.Nodes]
    with quiet():
        r(g)
    assert any(abs(n.P.X - o[0]) + abs(n.P.Y - o[1]) > 1e-6 for n, o in zip(g.Nodes, old) if o[0] in (0, 4) or o[1] in (0, 3))
'''
