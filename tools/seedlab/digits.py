PROP='P03'
EDITS=[('gsu/zone.py','''        i_list = ['{0:.18e}'.format(face[e]) for face in self.Faces]''','''        i_list = ['{0:.15e}'.format(face[e]) for face in self.Faces]''')]
NEEDS='a face value whose shortest exact decimal form has 17 digits'
BREAKS='the last bit of such values is lost by storing and loading'
ALSO=['P07']
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    v = 1.0 / 3.0 * 1.7
    w = 0.1 + 0.2
    dat(p, [('z', [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)], [(0, 1, 2), (1, 3, 2)])], val=lambda n, i: (v, w)[i])
    g = load(p)
    g.store(d + '/h.dat')
    h = load(d + '/h.dat')
    assert [f['T'] for f in h.Faces] == [v, w]
'''
