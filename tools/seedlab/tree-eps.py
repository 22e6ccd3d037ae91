PROP='P26'
EDITS=[('convert/interpolate.py',"""        i = kdtree.query(f.aux_node.coords_as_np())[1]
""","""        i = kdtree.query(f.aux_node.coords_as_np(), eps=0.1)[1]
""")]
NEEDS='a source grid of many faces, two of which are almost equally far from a face of the target'
BREAKS='values are taken from a face up to ten percent farther than the nearest one'
DEMO='''
sys.path.insert(0, SRC + '/convert')
import random, interpolate
with scratch() as d:
    r = random.Random(5)
    def soup(n, s):
        pts, tris = [], []
        for i in range(n):
            o = [r.uniform(0, 1) for _ in range(3)]
            pts += [tuple(c + r.uniform(-s, s) for c in o) for _ in range(3)]
            tris.append((3 * i, 3 * i + 1, 3 * i + 2))
        return pts, tris
    dat(d + '/a.dat', [('z', *soup(3000, 1e-3))])
    dat(d + '/b.dat', [('z', *soup(3000, 1e-3))])
    a, b = load(d + '/a.dat'), load(d + '/b.dat')
    with quiet():
        interpolate.face_centered_interpolation(a, b)
    import numpy as np
    C = np.array([f.get_center() for f in a.Faces])
    bad = 0
    for f in b.Faces:
        k = int(np.linalg.norm(C - np.array(f.get_center()), axis=1).argmin())
        bad += f['T'] != a.Faces[k]['T']
    assert bad == 0, bad
'''
