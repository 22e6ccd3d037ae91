PROP='P07'
ALSO=['P09','P37']
EDITS=[('gsu/zone.py','''        i_list = [str(face.GloId) for face in self.Faces]
        i_str = ' '.join(i_list)
''','''        if not self.Faces:
            return ''

        # Usually faces of a zone stand in a row.
        lo, hi = self.Faces[0].GloId, self.Faces[-1].GloId
        if hi - lo + 1 == len(self.Faces):
            i_list = [str(i) for i in range(lo, hi + 1)]
        else:
            i_list = [str(face.GloId) for face in self.Faces]
        i_str = ' '.join(i_list)
''')]
NEEDS='a zone whose first and last faces have the least and the greatest numbers while others are not in order (breadth-first decomposition)'
BREAKS='values of faces are written under global identifiers of other faces'
DEMO='''
with scratch() as d:
    # A strip whose faces are numbered out of order, both ends excepted.
    pts = [(i // 2, i % 2, 0.1 * i) for i in range(8)]
    tris = [(k, k + 1, k + 2) if k % 2 == 0 else (k + 1, k, k + 2) for k in range(6)]
    dat(d + '/g.dat', [('a', pts, [tris[k] for k in (0, 2, 1, 4, 3, 5)])])
    g = load(d + '/g.dat')
    with quiet():
        g.decompose_farhat(1)
    g.store_mpi(d + '/m', '000000000000')
    L = open(d + '/m_00000_000000000000.cry').read().split('\\n')
    k = L.index('FACES DATA:')
    ids, t = [int(s) for s in L[k + 1].split()], [float(s) for s in L[k + 2].split()]
    assert t == [10.0 * i for i in ids], (ids, t)
'''
