PROP='P20'
EDITS=[('drops.py','''                res[1]['MImp2'] = (stall_value / tri2.area())
''','''                area = tri2.area()
                if area > 1e-8:
                    res[1]['MImp2'] = stall_value / area
''')]
NEEDS='a face smaller than a tenth of a millimetre on which a droplet lands'
BREAKS='water which lands on small faces is lost'
DEMO='''
import drops
with scratch() as d, quiet():
    s = 2e-5
    with open(d + '/g.dat', 'w') as f:
        vs = ['X', 'Y', 'Z', 'MImp2', 'Vd2', 'T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']
        f.write('TITLE="g"\\nVARIABLES=' + ', '.join('"%s"' % v for v in vs) + '\\n')
        f.write('ZONE T="z"\\nNODES=6\\nELEMENTS=2\\nDATAPACKING=BLOCK\\nZONETYPE=FETRIANGLE\\nVARLOCATION=([4-18]=CELLCENTERED)\\n')
        P = [(0, 0, 0), (s, 0, 0), (0, s, 0), (0, 0, 1e-3), (0, s, 1e-3), (s, 0, 1e-3)]
        for k in range(3):
            f.write(' '.join(repr(float(p[k])) for p in P) + '\\n')
        for v in vs[3:]:
            f.write({'Stall': '0.001 0', 'StallVZ': '10 0', 'StallD': '0.0001 0.0001'}.get(v, '0 0') + '\\n')
        f.write('1 2 3\\n4 5 6\\n')
    with open(d + '/a.dat', 'w') as f:
        f.write('TITLE="a"\\nZONE T="a" FEBRICK x x x 8 x x 1\\n')
    air = drops.Space([(drops.geom.Vect(-1, -1, -1), drops.geom.Vect(0, 0, 10)), (drops.geom.Vect(1, 1, 1), drops.geom.Vect(0, 0, 10))],
                      [(-1, -1, -1), (1, 1, 1)])
    drops.read_vel_field_from_file = lambda fn: air
    drops.drops(d + '/g.dat', d + '/a.dat', d + '/o.dat', 1e-5, 1e-5, 1e-6, 200)
    g = load(d + '/o.dat')
    v = g.Faces[1]['MImp2']
assert abs(v - 0.001 / (s * s / 2)) < 1e-3, v
'''
