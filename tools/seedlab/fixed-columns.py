PROP='P34'
EDITS=[('gsu/grid.py','''            face.Data = dict(zip(variables, values))
''','''            face.Data = dict(zip(['T', 'Hw', 'Hi'], values))
''')]
NEEDS='results whose columns stand in another order'
BREAKS='values of one variable are loaded as another'
DEMO='''
with scratch() as d:
    dat(d + '/a.dat', [('a', *sheet(2, 1))])
    g = load(d + '/a.dat')
    with open(d + '/r.txt', 'w') as f:
        f.write('VARIABLES="GloId", "Hi", "T", "Hw"\\n')
        for k in (2, 0, 3, 1):
            f.write('%d %f %f %f\\n' % (k, k + 0.25, k + 0.5, k + 0.75))
    g.load_faces_calc_data(d + '/r.txt')
    for f in g.Faces:
        assert (f['Hi'], f['T'], f['Hw']) == (f.GloId + 0.25, f.GloId + 0.5, f.GloId + 0.75), f.Data
'''
