PROP='P05'
ALSO=['P11']
EDITS=[('gsu/zone.py','''        if f.Zone is not None:
            f.unlink_from_zone()
''','''        if f.Zone is not None and f.Zone is not self:
            f.unlink_from_zone()
''')]
NEEDS='a face put into the zone which it is in already'
BREAKS='the face is listed twice in its zone'
DEMO='''
with scratch() as d:
    dat(d + '/a.dat', [('a', *sheet(2, 2))])
    g = load(d + '/a.dat')
    z = g.Zones[0]
    z.add_face(z.Faces[3])
    assert sorted(f.GloId for f in z.Faces) == list(range(8)), [f.GloId for f in z.Faces]
'''
