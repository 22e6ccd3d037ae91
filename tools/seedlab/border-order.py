PROP='P08'
EDITS=[('gsu/grid.py','''                        for e in z.Edges:
                            if e.is_connect_zones(z, lz):
                                file.write('{0} '.format(loc_edges_ids[e.GloId]))
''','''                        for f in z.Faces:
                            for e in f.Edges:
                                if e.is_connect_zones(z, lz):
                                    file.write('{0} '.format(loc_edges_ids[e.GloId]))
''')]
NEEDS='two zones with a border of several edges whose faces are numbered differently along the border on both sides'
BREAKS='entries of the border lists of two domain files stand in different order, exchange would swap values between faces'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    pts, tris = sheet(1, 6)
    left = tris
    right = [(x[0], x[1], x[2]) for x in tris]
    rp = [(x + 1, y, z) for x, y, z in pts]
    dat(p, [('l', pts, left), ('r', rp, right[::-1])])
    g = load(p)
    g.store_mpi(d + '/x', '000000000000')
    def border(fn):
        ls = open(fn).read().split('\\n')
        i = ls.index('NODES COORDINATES:')
        xs, ys = [float(v) for v in ls[i + 1].split()], [float(v) for v in ls[i + 2].split()]
        k = ls.index('EDGE-NODE CONNECTIVITY LIST:')
        n = int([l for l in ls if l.startswith('EDGES=')][0][6:])
        en = [tuple(sorted((xs[int(q)], ys[int(q)]) for q in l.split())) for l in ls[k + 1:k + 1 + n]]
        b = [l for l in ls if l.startswith('[')][0].split()[1:]
        return [en[int(q)] for q in b]
    a, b = border(d + '/x_00000_000000000000.cry'), border(d + '/x_00001_000000000000.cry')
    assert len(a) == 6 and a == b, (a, b)
'''
