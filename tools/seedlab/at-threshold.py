PROP='P20'
EDITS=[('drops.py',"""        if stall_value > stall_thr:
""","""        if stall_value >= stall_thr:
""")]
NEEDS='a face whose stall is equal to the threshold, as zero with the threshold of zero'
BREAKS='a droplet flies from a face that loses nothing above the threshold'
DEMO='''
with scratch() as d:
    V = ['T', 'Hw', 'Hi', 'MImp2', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']
    with open(d + '/g.dat', 'w') as f:
        f.write('TITLE="g"\\nVARIABLES="X", "Y", "Z", ' + ', '.join('"%s"' % v for v in V) + '\\n')
        f.write('ZONE T="z"\\nNODES=6\\nELEMENTS=2\\nDATAPACKING=BLOCK\\nZONETYPE=FETRIANGLE\\nVARLOCATION=([4-12]=CELLCENTERED)\\n')
        f.write('0 1 0 0 1 0\\n0 0 1 0 0 1\\n0 0 0 0.01 0.01 0.01\\n')
        for v in V:
            f.write({'Stall': '1e-6 0', 'StallD': '1e-4 1e-4', 'StallVZ': '10 10'}.get(v, '0 0') + '\\n')
        f.write('1 2 3\\n4 5 6\\n')
    with open(d + '/a.dat', 'w') as f:
        f.write('TITLE="air"\\nVARIABLES="X", "Y"\\nZONE F=FEBRICK a b c N= 8 E= = 1\\n')
        for i in range(8):
            f.write('%d %d %d 0 0 0 0 10\\n' % (2 * (i & 1) - 1, 2 * (i >> 1 & 1) - 1, 2 * (i >> 2) - 1))
        f.write('1 2 3 4 5 6 7 8\\n')
    import drops
    with quiet():
        drops.drops(d + '/g.dat', d + '/a.dat', d + '/o.dat', 1e-4, 1e-4, 1e-6, 200)
    tr = open(d + '/o.dat.tr.dat').read()
    assert 'ZONE' not in tr, tr
'''
