PROP='P43'
EDITS=[('gsu/grid.py',"""                    if (ff.Zone == zl and sf.Zone == zr) or (ff.Zone == zr and sf.Zone == zl):
                        r += 1
""","""                    # Every edge is met in both of its faces, count it once.
                    if ff.Zone == zl and sf.Zone == zr:
                        r += 1
""")]
NEEDS='a surface whose faces are numbered so that along the longer cut the right face of an edge often comes first in the file'
BREAKS='a zone is halved along the direction with the longer border'
DEMO='''
# A ribbon of columns with 2 faces each, numbered from right to left, with two rows.
import gsu
nx, ny = 8, 2
pts = [(float(i), 0.9 * j + 0.01 * i, 0.0) for j in range(ny + 1) for i in range(nx + 1)]
cells = [(i, j) for i in range(nx) for j in range(ny)]
with scratch() as d:
    for order in (lambda c: (c[1], c[0]), lambda c: (-c[1], c[0]), lambda c: (c[1], -c[0]), lambda c: (-c[1], -c[0])):
        tris = []
        for i, j in sorted(cells, key=order):
            a = j * (nx + 1) + i
            b = a + nx + 1
            tris += [(a, a + 1, b + 1), (a, b + 1, b)]
        dat(d + '/a.dat', [('z', pts, tris)], ('T', 'Hw', 'Hi'))
        g = load(d + '/a.dat')
        with quiet():
            g.decompose_hierarchical(levels=2)
        border = sum(1 for e in g.Edges if len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone)
        assert border <= 5, border
'''
