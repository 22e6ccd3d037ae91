PROP='P40'
ALSO=['P24','P23']
EDITS=[('remeshing.py',"""                ws = [1.0 / face.get_triangle().area() for face in node.Faces]
""","""                ws = node.__dict__.setdefault('inv_areas', [1.0 / face.get_triangle().area() for face in node.Faces])
""")]
NEEDS='more than one step with smoothing of normals on a surface whose faces grow unevenly'
BREAKS='directions are smoothed with the areas faces had at the first step'
DEMO='''
with scratch() as d:
    dat(d + '/g.dat', [('z', *box(2))], val=lambda n, i: (0.4 if i % 3 else 0.05) if n == 'Hi' else 1.0)
    json.dump({'remesh_nsteps_min': 3, 'remesh_nsteps_max': 3, 'remesh_nsmooth_steps': 4, 'remesh_rest_volume_redistr': True}, open(d + '/c.json', 'w'))
    import remeshing
    g, h = load(d + '/g.dat'), load(d + '/g.dat')
    with quiet():
        remeshing.TongRemesher('g', d + '/c.json', d)(g)

        class R(remeshing.TongRemesher):
            def init_ice_dirs(self):
                for n in self.grid.Nodes:
                    keep = ('P', 'Edges', 'Faces', 'GloId')
                    n.__dict__.pop('inv_areas', None)
                super().init_ice_dirs()
        R('g', d + '/c.json', d)(h)
    assert max((a.P - b.P).mod() for a, b in zip(g.Nodes, h.Nodes)) < 1e-12
'''
