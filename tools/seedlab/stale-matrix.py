PROP='P08'
ALSO=['P07']
EDITS=[('gsu/grid.py','''        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)

        # Local identifiers.''','''        # Matrix of zones is kept while zones are the same.
        if getattr(self, 'stored_zones', None) != [z.Name for z in self.Zones]:
            self.stored_zones = [z.Name for z in self.Zones]
            self.stored_matrix = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
        zam = self.stored_matrix

        # Local identifiers.''')]
NEEDS='domain files stored twice from one grid object, faces moved between zones (names kept) in between'
BREAKS='numbers of cross edges and lists of borders describe the previous decomposition'
DEMO='''
import re
names = ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('z', *sheet(6, 6))], names=names)
    g = load(p)
    with quiet():
        g.decompose_linear(2)
        g.store_mpi(d + '/a', '000000000001')
        zs = [g.Zones[0], g.Zones[1]]
        for f in list(zs[1].Faces)[:7]:
            zs[0].add_face(f)
        g.post_decompose()
        g.store_mpi(d + '/a', '000000000002')
    for i in range(2):
        s = open(d + '/a_%05d_000000000002.cry' % i).read()
        n = int(re.search('CROSS-EDGES=(.*)', s).group(1))
        m = sum(len(l.split()) - 1 for l in s.split('MPI-BORDERS=')[1].split('\\n')[1:] if l.strip())
        assert n == m, (n, m)
'''
