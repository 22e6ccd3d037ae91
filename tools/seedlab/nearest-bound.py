PROP='P26'
EDITS=[('convert/interpolate.py','''        i = kdtree.query(f.aux_node.coords_as_np())[1]''','''        i = kdtree.query(f.aux_node.coords_as_np(), eps=0.3)[1]''')]
NEEDS='a source of some hundred faces and a target face with several source centroids at close distances'
BREAKS='an approximate search returns a centroid up to 30 percent farther than the nearest one'
DEMO='''
import random
sys.path.insert(0, SRC + '/convert')
with scratch() as d:
    rnd = random.Random(5)
    pts, tris = [], []
    for i in range(400):
        c = [rnd.random() for _ in range(3)]
        k = len(pts)
        pts += [(c[0] + 0.001, c[1], c[2]), (c[0], c[1] + 0.001, c[2]), (c[0], c[1], c[2] + 0.001)]
        tris.append((k, k + 1, k + 2))
    dat(d + '/s.dat', [('z', pts, tris)])
    q = [tuple(rnd.random() for _ in range(3)) for _ in range(1200)]
    dat(d + '/t.dat', [('z', q, [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(400)])])
    s, t = load(d + '/s.dat'), load(d + '/t.dat')
    import interpolate
    interpolate.face_centered_interpolation(s, t)
    for f in t.Faces:
        c = f.get_center()
        ds = sorted((sum((a - b) ** 2 for a, b in zip(c, h.get_center())), h['T']) for h in s.Faces)
        assert f['T'] in [v for x, v in ds if x <= ds[0][0] * (1 + 1e-9)], (f['T'], ds[:2])
'''
