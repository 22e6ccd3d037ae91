PROP='P28'
EDITS=[('convert/ansys_to_crystal.py','''        str = 'T="%s"' % zone_to_extract
''','''        str = 'T="%s' % zone_to_extract
''')]
NEEDS='a solver file that has a zone whose name begins with the name of a chosen zone'
BREAKS='a zone that was not chosen gets into the grid'
DEMO='''
sys.path.insert(0, SRC + '/convert')
import ansys_to_crystal as a
a.is_silent = True
a.zones_to_extract = ['WALL1']
with scratch() as d:
    with open(d + '/i.dat', 'w') as f:
        f.write('TITLE = "t"\\nVARIABLES = "X", "Y", "Z"\\n')
        for n in ('WALL1', 'WALL10'):
            f.write('ZONE T="%s", ZONETYPE=FEQUADRILATERAL, N=3, E=1\\n0 0 0\\n1 0 0\\n0 1 0\\n1 2 3 3\\n' % n)
    a.filter_zones(d + '/i.dat', d + '/o.dat')
    z = [l for l in open(d + '/o.dat').read().split('\\n') if 'ZONE ' in l]
    assert len(z) == 1 and 'WALL1"' in z[0], z
'''
