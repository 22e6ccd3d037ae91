PROP='P20'
EDITS=[('drops.py','''                    ns, es = int(ss[5]), int(ss[8])
                    for i in range(ns):
''','''                    ns, es = int(ss[5]), int(ss[8])
                    ds, ds_tuple = [], []
                    for i in range(ns):
''')]
NEEDS='an air file with two or more brick zones'
BREAKS='only the last block of air data is kept, droplets in the other blocks fly in a wrong air field or leave the box at once'
ALSO=['P19']
DEMO='''
with scratch() as d:
    p = d + '/air.dat'
    with open(p, 'w') as f:
        f.write('TITLE="air"\\nVARIABLES="X", "Y"\\n')
        for k in range(2):
            f.write('ZONE F=FEBRICK a b c N= 8 E= = 1\\n')
            for i in range(8):
                x, y, z = 2 * k + (i & 1), i >> 1 & 1, i >> 2
                f.write('%d %d %d 0 0 %d 0 0\\n' % (x, y, z, 10 + k))
            f.write('1 2 3 4 5 6 7 8\\n')
    import drops
    with quiet():
        s = drops.read_vel_field_from_file(p)
    assert len(s.Ds) == 16, len(s.Ds)
    import geom
    assert s.inside(geom.Vect(0.5, 0.5, 0.5)) and s.find_nearest(geom.Vect(0, 0, 0))[1].X == 10
'''
