PROP='P06'
ALSO=['P09','P05']
EDITS=[('gsu/grid.py','''            z.IsFixed = z.Name in fz_names
''','''            z.IsFixed = any(n in z.Name for n in fz_names)
''')]
NEEDS='a zone whose name contains the name of a fixed zone'
BREAKS='zones which were not named are kept fixed'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    pts, tris = sheet(3, 3)
    dat(p, [('heater 1', pts, tris), ('heater 12', [(x + 5, y, z) for x, y, z in pts], tris), ('body', [(x, y + 9, z) for x, y, z in pts], tris)])
    g = load(p)
    with quiet():
        g.decompose_farhat(count=3, fz_names=['heater 1'])
    assert len(g.Zones) == 4 and sorted(len(z.Faces) for z in g.Zones) == [12, 12, 12, 18], [(z.Name, len(z.Faces)) for z in g.Zones]
'''
