PROP='P28'
ALSO=['P39']
EDITS=[('convert/gsu_converter.py','''                        elif n2 == n3:
                            faces.append(Face(n1, n2, n4))
''','''                        elif n2 == n3:
                            faces.append(Face(n1, n4, n3))
''')]
NEEDS='a quadrangle whose second and third nodes coincide'
BREAKS='the triangle made of it is turned inside out'
DEMO='''
import importlib.util
sys.path.insert(0, SRC + '/convert')
import gsu_converter as gc
with scratch() as d:
    p = d + '/n.dat'
    nodes = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]
    quads = [(1, 1, 2, 3), (1, 2, 1, 3), (1, 2, 3, 1), (1, 2, 2, 3), (1, 2, 3, 2), (1, 2, 3, 3)]
    with open(p, 'w') as f:
        f.write('TITLE = "x"\\nVARIABLES = "X", "Y"\\nZONE T="w", N=4, E=%d, F=FEPOINT ET=QUADRILATERAL\\n' % len(quads))
        for n in nodes:
            f.write('%f %f %f 1 2 3 4 5 6\\n' % n)
        for q in quads:
            f.write('%d %d %d %d\\n' % q)
    for rev in (False, True):
        g = gc.Grid()
        g.LoadNodesData(p, rev)
        for q, t in zip(quads, g.Zones[0].Faces):
            k = [n.Id + 1 for n in t.Nodes]
            u = [v for i, v in enumerate(q) if v not in q[:i]]
            rot = [u[i:] + u[:i] for i in range(3)]
            want = [r[::-1] for r in rot] if rev else rot
            if q not in ((1, 2, 1, 3), (1, 2, 3, 2)):
                assert k in want, (q, rev, k)
'''
