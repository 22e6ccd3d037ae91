PROP='P25'
EDITS=[('smoothing.py','''                k = sum((eigenValues > self.epsilon * eigenValues[0]))
''','''                k = sum((eigenValues > max(self.epsilon * eigenValues[0], 1e-10)))
''')]
NEEDS='a grid of faces smaller than a tenth of a millimetre'
BREAKS='all directions count as free: edges and corners of the shape are smoothed away'
DEMO='''
import smoothing
with scratch() as d, quiet():
    s = 1e-5
    P = [(x * s, y * s, z * s) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
    Q = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    T = [t for q in Q for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3]))]
    dat(d + '/c.dat', [('z', P, T)])
    g = load(d + '/c.dat')
    a = [n.P.coords_tuple() for n in g.Nodes]
    smoothing.NullSpaceSmoothing(g, 3).smoothing()
    b = [n.P.coords_tuple() for n in g.Nodes]
assert a == b
'''
