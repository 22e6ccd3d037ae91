import os, sys, io, json, tempfile, shutil, contextlib, subprocess
SRC = os.path.join(os.getcwd(), 'crysgsu')
sys.path.insert(0, SRC)


def dat(path, zones, names=('T', 'Hw', 'Hi'), title='g', val=None):
    """zones: list of (name, points, triangles (0-based)); values are distinct per face."""
    k = 0
    with open(path, 'w') as f:
        f.write('# crys-gsu\nTITLE="%s"\nVARIABLES="X", "Y", "Z"%s\n' % (title, ''.join(', "%s"' % n for n in names)))
        for name, pts, tris in zones:
            f.write('ZONE T="%s"\nNODES=%d\nELEMENTS=%d\nDATAPACKING=BLOCK\nZONETYPE=FETRIANGLE\n' % (name, len(pts), len(tris)))
            f.write('VARLOCATION=([4-%d]=CELLCENTERED)\n' % (3 + len(names)))
            for c in range(3):
                f.write(' '.join(repr(float(p[c])) for p in pts) + ' \n')
            for j, n in enumerate(names):
                f.write(' '.join(repr(float(val(n, k + i)) if val else float(10 * (k + i) + j)) for i in range(len(tris))) + ' \n')
            for t in tris:
                f.write(' '.join(str(q + 1) for q in t) + '\n')
            k += len(tris)


def sheet(nx, ny, z=lambda x, y: 0.0, dx=1.0):
    pts = [(i * dx, j * dx, z(i * dx, j * dx)) for j in range(ny + 1) for i in range(nx + 1)]
    tris = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            b, c, d = a + 1, a + nx + 2, a + nx + 1
            tris += [(a, b, c), (a, c, d)]
    return pts, tris


def box(n=2, s=1.0):
    """Closed box of n x n x n cells, outward normals."""
    pts, idx, tris = [], {}, []

    def node(p):
        if p not in idx:
            idx[p] = len(pts)
            pts.append(tuple(s * c / n for c in p))
        return idx[p]
    for ax in range(3):
        u, v = (ax + 1) % 3, (ax + 2) % 3
        for side in (0, n):
            for i in range(n):
                for j in range(n):
                    def q(a, b):
                        p = [0, 0, 0]
                        p[ax], p[u], p[v] = side, i + a, j + b
                        return node(tuple(p))
                    a, b, c, d = q(0, 0), q(1, 0), q(1, 1), q(0, 1)
                    t = [(a, b, c), (a, c, d)]
                    tris += t if side else [(x, z, y) for x, y, z in t]
    return pts, tris


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp()
    try:
        yield d
    finally:
        shutil.rmtree(d)


def load(path, merge=True):
    import gsu
    g = gsu.Grid()
    g.load(path, merge)
    return g
