PROP='P37'
ALSO=['P08', 'P07']
EDITS=[('gsu/grid.py','''                    if le > 0:
                        # Border between''','''                    if le > 1:
                        # Border between'''),('gsu/zones_adjacency_matrix.py','''if x > 0])''','''if x > 1])''')]
NEEDS='two domains that have exactly one edge in common'
BREAKS='a border of one edge is not listed in the domain files (counts agree), values are not exchanged over it'
DEMO='''
with scratch() as d:
    pts, tris = sheet(1, 1)
    dat(d + '/g.dat', [('a', pts, tris[:1]), ('b', pts, tris[1:])])
    g = load(d + '/g.dat')
    g.store_mpi(d + '/g', '000000000000')
    for i in range(2):
        s = open(d + '/g_0000%d_000000000000.cry' % i).read().split('\\n')
        k = [j for j, l in enumerate(s) if l.startswith('MPI-BORDERS')][0]
        assert s[k] == 'MPI-BORDERS=1' and s[k + 1].startswith('[%d]' % (1 - i)), s[k:]
'''
