PROP='P10'
EDITS=[('merge.py','''    g = gsu.Grid()
    for tm in gmf:
        fs = gmf.get(tm)
        g.load(grid_file)
''','''    g = gsu.Grid()
    g.load(grid_file)
    for tm in gmf:
        fs = gmf.get(tm)
''')]
NEEDS='several timestamps, a later processed one of which states values of fewer variables or fewer faces than an earlier one'
BREAKS='faces without values at a timestamp get the values of another timestamp instead of those of the grid'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('z', *sheet(2, 2))])
    os.mkdir(d + '/s')
    for tm, ids in (('000000000001', range(8)), ('000000000002', range(4))):
        with open(d + '/s/g_00000_%s.txt' % tm, 'w') as f:
            f.write('VARIABLES="GloId", "T", "Hw", "Hi"\\n')
            for i in ids:
                f.write('%d %d %d %d\\n' % (i, 1000 * int(tm) + i, i, i))
    os.rename(d + '/s', d + '/t')
    import merge
    order = sorted(os.listdir(d + '/t'))
    real = os.listdir
    os.listdir = lambda *a: sorted(real(*a))
    with quiet():
        merge.merge(p, d + '/t', d + '/o')
    g = load(d + '/o/g_r_000000000002.dat')
    assert [f['T'] for f in g.Faces] == [2000, 2001, 2002, 2003, 40, 50, 60, 70], [f['T'] for f in g.Faces]
'''
