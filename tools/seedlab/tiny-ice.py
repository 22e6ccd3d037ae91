PROP='P21'
ALSO=['P41']
EDITS=[('remeshing.py',"""        # Zero Hi.
        for face in self.grid.Faces:
            face['Hi'] = 0.0
""","""        # Zero Hi.
        for face in self.grid.Faces:
            if face.target_ice > 1.0e-10:
                face['Hi'] = 0.0
""")]
NEEDS='thin ice on small faces (volume of ice over a face below 1e-10)'
BREAKS='the heights of ice which has grown are not cleared there, it would grow once more'
DEMO='''
with scratch() as d:
    dat(d + '/g.dat', [('z', *box(4, 1e-2))], val=lambda n, i: (1e-3 if i % 5 else 1e-6) if n == 'Hi' else 1.0)
    open(d + '/c.json', 'w').write('{}')
    import remeshing
    g = load(d + '/g.dat')
    with quiet():
        remeshing.TongRemesher('g', d + '/c.json', d)(g)
    assert all(f['Hi'] == 0.0 for f in g.Faces)
'''
