"""
Independent model of surface grids: generators, text writers and parsers.
Nothing here uses the code under test.
"""

import math
import re


class Mesh:
    """
    V      : list of (x, y, z)
    F      : list of (i, j, k) indices into V
    zone   : zone index for each face
    znames : zone names
    vars   : names of face variables
    data   : list of dicts, one per face
    title  : title
    """

    def __init__(self, V, F, zone=None, znames=None, vars_=None, data=None, title='t'):
        self.V = [tuple(float(x) for x in v) for v in V]
        self.F = [tuple(f) for f in F]
        self.zone = list(zone) if zone is not None else [0] * len(F)
        self.znames = list(znames) if znames is not None else ['z0']
        self.vars = list(vars_) if vars_ is not None else []
        self.data = data if data is not None else [dict() for _ in F]
        self.title = title
        self.kind = '?'

    def copy(self):
        m = Mesh(self.V, self.F, self.zone, self.znames, self.vars,
                 [dict(d) for d in self.data], self.title)
        m.kind = self.kind
        return m

    def drop_unused_vertices(self):
        used = sorted({i for f in self.F for i in f})
        mp = {o: n for n, o in enumerate(used)}
        self.V = [self.V[i] for i in used]
        self.F = [tuple(mp[i] for i in f) for f in self.F]
        return self

    def by_zone(self):
        """Face indices in file order."""
        return [[i for i in range(len(self.F)) if self.zone[i] == z] for z in range(len(self.znames))]


# --- generators ------------------------------------------------------------------------------------


def sheet(rng, nx, ny, jitter=0.2, height=0.3, shuffle=True):
    V, F = [], []
    for j in range(ny + 1):
        for i in range(nx + 1):
            V.append((i + rng.uniform(-jitter, jitter), j + rng.uniform(-jitter, jitter),
                      rng.uniform(-height, height)))
    w = nx + 1
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = j * w + i, j * w + i + 1, (j + 1) * w + i + 1, (j + 1) * w + i
            if rng.random() < 0.5:
                F += [(a, b, c), (a, c, d)]
            else:
                F += [(a, b, d), (b, c, d)]
    return V, F


def tube(rng, n, m, r=1.0, jitter=0.05):
    """Open tube: n around, m along."""
    V, F = [], []
    for j in range(m + 1):
        for i in range(n):
            t = 2.0 * math.pi * i / n
            rr = r * (1.0 + rng.uniform(-jitter, jitter))
            V.append((rr * math.cos(t), rr * math.sin(t), j + rng.uniform(-jitter, jitter)))
    for j in range(m):
        for i in range(n):
            a, b = j * n + i, j * n + (i + 1) % n
            c, d = a + n, b + n
            if rng.random() < 0.5:
                F += [(a, b, d), (a, d, c)]
            else:
                F += [(a, b, c), (b, d, c)]
    return V, F


def torus(rng, n, m, R=3.0, r=1.0, jitter=0.02):
    V, F = [], []
    for j in range(m):
        for i in range(n):
            t, p = 2.0 * math.pi * i / n, 2.0 * math.pi * j / m
            rr = r * (1.0 + rng.uniform(-jitter, jitter))
            V.append(((R + rr * math.cos(t)) * math.cos(p), (R + rr * math.cos(t)) * math.sin(p),
                      rr * math.sin(t)))
    for j in range(m):
        for i in range(n):
            a, b = j * n + i, j * n + (i + 1) % n
            c, d = ((j + 1) % m) * n + i, ((j + 1) % m) * n + (i + 1) % n
            F += [(a, c, b), (b, c, d)]
    return V, F


def moebius(rng, n, w=0.6):
    V, F = [], []
    for i in range(n):
        t = 2.0 * math.pi * i / n
        for s in (-w, w):
            V.append(((2 + s * math.cos(t / 2)) * math.cos(t), (2 + s * math.cos(t / 2)) * math.sin(t),
                      s * math.sin(t / 2)))
    for i in range(n):
        a, b = 2 * i, 2 * i + 1
        if i + 1 < n:
            c, d = 2 * i + 2, 2 * i + 3
        else:
            c, d = 1, 0
        F += [(a, b, c), (b, d, c)]
    return V, F


ICO_F = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4),
         (11, 10, 2), (10, 7, 6), (7, 1, 8), (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8),
         (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10), (8, 6, 7), (9, 8, 1)]


def sphere(level, r=1.0, base='ico'):
    """Outward oriented subdivided icosahedron / octahedron."""
    if base == 'ico':
        g = (1.0 + math.sqrt(5.0)) / 2.0
        V = [(-1, g, 0), (1, g, 0), (-1, -g, 0), (1, -g, 0), (0, -1, g), (0, 1, g), (0, -1, -g),
             (0, 1, -g), (g, 0, -1), (g, 0, 1), (-g, 0, -1), (-g, 0, 1)]
        F = list(ICO_F)
    else:
        V = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
        F = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]

    def nrm(v):
        k = math.sqrt(sum(x * x for x in v))
        return tuple(r * x / k for x in v)
    V = [nrm(v) for v in V]
    for _ in range(level):
        mid = {}
        NF = []

        def m(a, b):
            k = (min(a, b), max(a, b))
            if k not in mid:
                mid[k] = len(V)
                V.append(nrm(tuple((V[a][t] + V[b][t]) / 2.0 for t in range(3))))
            return mid[k]
        for a, b, c in F:
            ab, bc, ca = m(a, b), m(b, c), m(c, a)
            NF += [(a, ab, ca), (b, bc, ab), (c, ca, bc), (ab, bc, ca)]
        F = NF
    return V, F


def fan(rng, n, closed):
    V = [(0.0, 0.0, 0.3)]
    for i in range(n):
        t = 2.0 * math.pi * i / n
        V.append((math.cos(t), math.sin(t), 0.0))
    F = [(0, i + 1, (i + 1) % n + 1) for i in range(n if closed else n - 1)]
    return V, F


def union(parts, gap=10.0):
    V, F = [], []
    for k, (v, f) in enumerate(parts):
        o = len(V)
        V += [(x + gap * k, y, z) for x, y, z in v]
        F += [tuple(i + o for i in t) for t in f]
    return V, F


def edge_faces(F):
    d = {}
    for fi, (a, b, c) in enumerate(F):
        for x, y in ((a, b), (b, c), (c, a)):
            d.setdefault((min(x, y), max(x, y)), []).append(fi)
    return d


def lattice(rng, nx, ny):
    """A surface whose points have small whole coordinates of both signs (many equal ones, zeros, -1 beside -2)."""
    _, F = sheet(rng, nx, ny)
    ax = rng.sample(range(3), 3)
    i0, j0, k0 = rng.randint(0, nx + 2), rng.randint(0, ny + 2), rng.randint(-1, 2)
    rough = rng.choice([0, 0, 1, 2])
    V = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            c = (i - i0, j - j0, rng.randint(0, rough) - k0)
            V.append(tuple(float(c[a]) for a in ax))
    return V, F


def random_shape(rng, size='s', kind=None):
    """A random triangulated surface where no edge has more than two faces."""
    big = {'s': 1, 'm': 2, 'l': 5}[size]
    kind = kind or rng.choice(['sheet', 'sheet', 'tube', 'torus', 'moebius', 'sphere', 'fan', 'union',
                       'holes', 'holes', 'bowtie', 'single', 'pair', 'spindle', 'strip'])
    if kind == 'sheet':
        V, F = sheet(rng, rng.randint(1, 4 * big), rng.randint(1, 4 * big))
    elif kind == 'lattice':
        V, F = lattice(rng, rng.randint(1, 4 * big), rng.randint(1, 4 * big))
    elif kind == 'tube':
        V, F = tube(rng, rng.randint(3, 5 * big + 2), rng.randint(1, 3 * big))
    elif kind == 'torus':
        V, F = torus(rng, rng.randint(3, 3 * big + 2), rng.randint(3, 3 * big + 3))
    elif kind == 'moebius':
        V, F = moebius(rng, rng.randint(5, 6 * big + 3))
    elif kind == 'sphere':
        V, F = sphere(rng.randint(0, big if big < 3 else 2), rng.uniform(0.5, 2), rng.choice(['ico', 'oct']))
    elif kind == 'fan':
        n = rng.randint(3, 9) if rng.random() < 0.6 else rng.randint(10, 30)
        V, F = fan(rng, n, rng.random() < 0.5)
    elif kind == 'spindle':
        # A closed surface with two nodes of many faces.
        n = rng.randint(3, 12 * big)
        V, F = fan(rng, n, True)
        V.append((0.0, 0.0, -0.5))
        F += [(n + 1, c, b) for a, b, c in F]
    elif kind == 'strip':
        V, F = sheet(rng, rng.randint(5, 20 * big), 1)
    elif kind == 'union':
        V, F = union([sheet(rng, rng.randint(1, 3), rng.randint(1, 3)), sphere(0, 1.0, 'oct'),
                      tube(rng, 4, 2)][:rng.randint(2, 3)])
    elif kind == 'holes':
        V, F = sheet(rng, rng.randint(2, 4 * big), rng.randint(2, 4 * big))
        keep = [f for f in F if rng.random() < 0.7]
        F = keep if keep else F[:1]
    elif kind == 'bowtie':
        V = [(0, 0, 0), (1, 0.2, 0), (1, 1, 0.1), (-1, 0.1, 0), (-1, -1, 0.4)]
        F = [(0, 1, 2), (0, 3, 4)]
    elif kind == 'single':
        V = [(0, 0, 0), (1, 0, 0), (0, 1, 0)]
        F = [(0, 1, 2)]
    else:
        V = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0.5)]
        F = [(0, 1, 2), (1, 3, 2)]
    F = [tuple(f) for f in F]
    if rng.random() < 0.5:
        rng.shuffle(F)
    # Rotate the order of nodes inside faces (orientation is kept) or flip some faces.
    mode = rng.random()
    G = []
    for f in F:
        k = rng.randint(0, 2)
        f = f[k:] + f[:k]
        if mode < 0.25 and rng.random() < 0.5:
            f = (f[0], f[2], f[1])
        G.append(f)
    m = Mesh(V, G)
    m.drop_unused_vertices()
    if rng.random() < 0.3:
        # Renumber the nodes.
        p = list(range(len(m.V)))
        rng.shuffle(p)
        V2 = [None] * len(p)
        for o, n in enumerate(p):
            V2[n] = m.V[o]
        m.V = V2
        m.F = [tuple(p[i] for i in f) for f in m.F]
    m.kind = kind
    return m


def empty_zone(rng, m):
    """A zone without nodes and faces somewhere among the others."""
    k = rng.randint(0, len(m.znames))
    m.znames.insert(k, rng.choice(['empty', 'zz top', '0']))
    m.zone = [q + (q >= k) for q in m.zone]
    return m


def add_zones(rng, m, nz=None, pattern=None, names=None, empty=0.0):
    """Put faces into zones (every zone not empty, unless an empty one is asked for)."""
    n = len(m.F)
    nz = min(n, nz if nz is not None else rng.choice([1, 1, 2, 2, 3, 4, 5, rng.randint(6, 14)]))
    pattern = pattern or rng.choice(['random', 'blocks', 'stripes', 'tail'])
    if pattern == 'random':
        z = [rng.randrange(nz) for _ in range(n)]
    elif pattern == 'blocks':
        z = [i * nz // n for i in range(n)]
    elif pattern == 'tail':
        # One large zone and small ones after it.
        z = [max(0, nz - (n - i)) for i in range(n)]
    else:
        z = [i % nz for i in range(n)]
    if len(set(z)) < nz or rng.random() < 0.3:
        for k, i in enumerate(rng.sample(range(n), nz)):
            z[i] = k
    m.zone = z
    pool = names or ['ZONE {0}', 'wall-{0}', 'POS{0}', 'B1.{0}', 'zone_{0} (copy)', 'z{0}', '#{0} flap', 'side=left, part={0}', 'крыло {0}']
    t = rng.choice(pool)
    m.znames = [t.format(k + 1) for k in range(nz)]
    if not names and rng.random() < 0.3:
        # Names that do not tell their order.
        rng.shuffle(m.znames)
    if empty and rng.random() < empty:
        empty_zone(rng, m)
    return m


STD_VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ']
ODD_VALUES = [0.0, -0.0, 1.0, -1.0, 1e300, -1e-300, 5e-324, 0.1, 1.0 / 3.0, -273.15, 1e16 + 2.0, 123456789.0]


def any_value(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice(ODD_VALUES)
    if r < 0.5:
        return rng.uniform(-1, 1)
    if r < 0.75:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)
    return float(rng.randint(-1000, 1000))


def add_data(rng, m, vars_=None, value=any_value):
    if vars_ is None:
        k = rng.randint(1, len(STD_VARS))
        vars_ = rng.sample(STD_VARS, k) if rng.random() < 0.5 else STD_VARS[:k]
        if rng.random() < 0.3:
            vars_ = vars_ + ['RecoveryFactor']
        if rng.random() < 0.2:
            vars_ = vars_ + ['Stall-Rate', 'q2']
        if rng.random() < 0.06:
            vars_ = []          # a surface without results on it
    m.vars = list(vars_)
    m.data = [{v: value(rng) for v in m.vars} for _ in m.F]
    return m


def any_size(rng, *sizes):
    """One of the given sizes, now and then a large one."""
    return 'l' if rng.random() < 0.04 else rng.choice(sizes)


def place(rng, m):
    """Another unit of length, another origin, another orientation."""
    R = rotate(rng) if rng.random() < 0.6 else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    s = 10.0 ** rng.uniform(-2, 3) if rng.random() < 0.6 else 1.0
    t = [s * rng.uniform(-100, 100) if rng.random() < 0.7 else 0.0 for _ in range(3)]
    m.V = [apply(R, t, s, v) for v in m.V]
    return m


def random_mesh(rng, size='s', nz=None, vars_=None, value=any_value, move=0.0, empty=0.0):
    if rng.random() < 0.08:
        m = random_shape(rng, size, 'lattice')
    else:
        m = random_shape(rng, size)
        if rng.random() < move:
            place(rng, m)
    add_zones(rng, m, nz, empty=empty)
    add_data(rng, m, vars_, value)
    m.title = rng.choice(['', 'grid', 'FE Surface Data ASCII', 'a b c', 'wing_1', 'case #2', 'M=0.3, T=-10', 'Сетка 1'])
    return m


def rotate(rng):
    """Random rotation matrix (rows)."""
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        k = math.sqrt(sum(x * x for x in q))
        if k > 1e-3:
            break
    w, x, y, z = [t / k for t in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def apply(R, t, s, p):
    return tuple(s * sum(R[i][j] * p[j] for j in range(3)) + t[i] for i in range(3))


# --- writers ---------------------------------------------------------------------------------------


def fnum(x):
    return '{0:.18e}'.format(x)


def dat_zones(m, order='used', rng=None):
    """
    Per zone: (name, node ids in local order, face ids, local connectivity).
    """
    res = []
    for zi, fids in enumerate(m.by_zone()):
        seen, ids = {}, []
        src = [i for fi in fids for i in m.F[fi]]
        if order == 'sorted':
            src = sorted(src)
        elif order == 'random':
            src = list(src)
            rng.shuffle(src)
        for i in src:
            if i not in seen:
                seen[i] = len(ids)
                ids.append(i)
        conn = [tuple(seen[i] + 1 for i in m.F[fi]) for fi in fids]
        res.append((m.znames[zi], ids, fids, conn))
    return res


def dat_text(m, order='used', rng=None, num=fnum, head='# crys-gsu\n', trailing=' '):
    out = [head]
    if m.title is not None:
        out.append('TITLE="{0}"\n'.format(m.title))
    vs = ['X', 'Y', 'Z'] + m.vars
    out.append('VARIABLES={0}\n'.format(', '.join('"{0}"'.format(v) for v in vs)))
    for name, ids, fids, conn in dat_zones(m, order, rng):
        out.append('ZONE T="{0}"\n'.format(name))
        out.append('NODES={0}\n'.format(len(ids)))
        out.append('ELEMENTS={0}\n'.format(len(fids)))
        out.append('DATAPACKING=BLOCK\n')
        out.append('ZONETYPE=FETRIANGLE\n')
        out.append('VARLOCATION=([4-{0}]=CELLCENTERED)\n'.format(len(vs)))
        for k in range(3):
            out.append(' '.join(num(m.V[i][k]) for i in ids) + trailing + '\n')
        for v in m.vars:
            out.append(' '.join(num(m.data[fi][v]) for fi in fids) + trailing + '\n')
        for c in conn:
            out.append('{0} {1} {2}\n'.format(*c))
    return ''.join(out)


def write_dat(m, path, **kw):
    with open(path, 'w', newline='\n') as f:
        f.write(dat_text(m, **kw))
    return path


def other_digits(text):
    """The same text with other digits after decimal points: a file of equal length with other numbers."""
    t = str.maketrans('0123456789', '1234567890')
    return re.sub(r'(?<=\.)\d+', lambda q: q.group(0).translate(t), text)


def older(path, rng, use):
    """Let the file have other numbers for a while, and use it then."""
    with open(path, newline='') as f:
        s = f.read()
    with open(path, 'w', newline='') as f:
        f.write(other_digits(s))
    try:
        use()
    except Exception:
        pass
    finally:
        with open(path, 'w', newline='') as f:
            f.write(s)


# --- parsers ---------------------------------------------------------------------------------------


class ParseError(Exception):
    pass


class DatZone:
    pass


class Dat:
    """Strict reading of a .dat grid file."""

    def __init__(self, path):
        with open(path, 'r', newline='') as f:
            text = f.read()
        if '\r' in text:
            raise ParseError('carriage return in the file')
        if not text.endswith('\n'):
            raise ParseError('no final newline')
        L = text.split('\n')[:-1]
        p = 0
        self.title, self.vars, self.zones, self.comments = None, None, [], []
        while p < len(L):
            l = L[p]
            if l.startswith('#'):
                self.comments.append(l)
                p += 1
            elif l.startswith('TITLE='):
                self.title = self._quoted(l[6:])
                p += 1
            elif l.startswith('VARIABLES='):
                self.vars = [self._quoted(s.strip()) for s in l[10:].split(',')]
                p += 1
            elif l.startswith('ZONE T='):
                z = DatZone()
                z.name = self._quoted(l[7:])
                z.nodes = self._int(L[p + 1], 'NODES=')
                z.elements = self._int(L[p + 2], 'ELEMENTS=')
                if L[p + 3] != 'DATAPACKING=BLOCK' or L[p + 4] != 'ZONETYPE=FETRIANGLE':
                    raise ParseError('wrong zone head')
                if self.vars is None or L[p + 5] != 'VARLOCATION=([4-{0}]=CELLCENTERED)'.format(len(self.vars)):
                    raise ParseError('wrong VARLOCATION: ' + L[p + 5])
                p += 6
                z.xyz = []
                for _ in range(3):
                    z.xyz.append(self._row(L[p], z.nodes))
                    p += 1
                z.data = {}
                for v in self.vars[3:]:
                    z.data[v] = self._row(L[p], z.elements)
                    p += 1
                z.conn = []
                for _ in range(z.elements):
                    c = [int(s) for s in L[p].split()]
                    if len(c) != 3 or not all(1 <= i <= z.nodes for i in c):
                        raise ParseError('wrong connectivity line {0!r} (zone {1}, {2} nodes)'.format(
                            L[p], z.name, z.nodes))
                    z.conn.append(tuple(c))
                    p += 1
                z.pts = list(zip(*z.xyz)) if z.nodes else []
                self.zones.append(z)
            else:
                raise ParseError('unexpected line {0!r}'.format(l[:80]))
        self.text = text

    @staticmethod
    def _quoted(s):
        if len(s) < 2 or s[0] != '"' or s[-1] != '"':
            raise ParseError('string is not quoted: ' + s)
        return s[1:-1]

    @staticmethod
    def _int(l, head):
        if not l.startswith(head):
            raise ParseError('expected {0}, got {1!r}'.format(head, l[:80]))
        return int(l[len(head):])

    @staticmethod
    def _row(l, n):
        r = [float(s) for s in l.split()]
        if len(r) != n:
            raise ParseError('row of {0} values, {1} expected'.format(len(r), n))
        return r

    def faces(self):
        """[(zone name, (p1, p2, p3), {var: value})] in file order."""
        res = []
        for z in self.zones:
            for i, c in enumerate(z.conn):
                res.append((z.name, tuple(z.pts[k - 1] for k in c),
                            {v: z.data[v][i] for v in self.vars[3:]}))
        return res


CRY_VARS = ['X', 'Y', 'Z', 'GloId', 'T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2',
            'TauX', 'TauY', 'TauZ', 'RecoveryFactor']


class Cry:
    """Strict reading of a domain file."""

    def __init__(self, path):
        with open(path, 'r', newline='') as f:
            text = f.read()
        if '\r' in text or not text.endswith('\n'):
            raise ParseError('line ends')
        self.L = text.split('\n')[:-1]
        self.p = 0
        self.title = Dat._quoted(self._after('TITLE='))
        self.vars = [Dat._quoted(s.strip()) for s in self._after('VARIABLES=').split(',')]
        if self.vars != CRY_VARS:
            raise ParseError('variables {0}'.format(self.vars))
        self.rank = int(self._after('MPI='))
        self.nodes = int(self._after('NODES='))
        self.edges = int(self._after('EDGES='))
        self.cross = int(self._after('CROSS-EDGES='))
        self.faces = int(self._after('FACES='))
        self._exact('NODES COORDINATES:')
        self.xyz = [Dat._row(self._next(), self.nodes) for _ in range(3)]
        self.pts = list(zip(*self.xyz)) if self.nodes else []
        self._exact('FACES DATA:')
        g = self._next().split()
        if len(g) != self.faces:
            raise ParseError('global ids row')
        self.gloid = [int(s) for s in g]
        self.data = {v: Dat._row(self._next(), self.faces) for v in CRY_VARS[4:]}
        self._exact('FACE-NODE CONNECTIVITY LIST:')
        self.fn = [self._ids(3, self.nodes) for _ in range(self.faces)]
        self._exact('FACE-EDGE CONNECTIVITY LIST:')
        self.fe = [self._ids(3, self.edges) for _ in range(self.faces)]
        self._exact('EDGE-NODE CONNECTIVITY LIST:')
        self.en = [self._ids(2, self.nodes) for _ in range(self.edges)]
        n = int(self._after('MPI-BORDERS='))
        self.borders = {}
        for _ in range(n):
            ss = self._next().split()
            if not (ss[0].startswith('[') and ss[0].endswith(']')):
                raise ParseError('border line')
            k = int(ss[0][1:-1])
            if k in self.borders:
                raise ParseError('border with {0} twice'.format(k))
            es = [int(s) for s in ss[1:]]
            if not all(0 <= e < self.edges for e in es):
                raise ParseError('border edge out of range')
            self.borders[k] = es
        if self.p != len(self.L):
            raise ParseError('trailing lines')

    def _next(self):
        if self.p >= len(self.L):
            raise ParseError('file is too short')
        self.p += 1
        return self.L[self.p - 1]

    def _after(self, head):
        l = self._next()
        if not l.startswith(head):
            raise ParseError('expected {0}, got {1!r}'.format(head, l[:60]))
        return l[len(head):]

    def _exact(self, s):
        l = self._next()
        if l != s:
            raise ParseError('expected {0}, got {1!r}'.format(s, l[:60]))

    def _ids(self, k, n):
        r = tuple(int(s) for s in self._next().split())
        if len(r) != k or not all(0 <= i < n for i in r):
            raise ParseError('wrong index line {0}'.format(r))
        return r


# --- reference semantics of loading ----------------------------------------------------------------


def rkey(p, digits=10):
    return tuple(round(x, digits) for x in p)


def seams(rng, m):
    """Some points are listed several times, each used by a part of the faces around them: the files have seams inside of zones."""
    around = {}
    for i, f in enumerate(m.F):
        for v in f:
            around.setdefault(v, []).append(i)
    vs = [v for v in around if len(around[v]) > 1]
    share = rng.choice([0.1, 0.5, 1.0])
    m.F = [tuple(f) for f in m.F]
    m.V = list(m.V)
    for v in vs:
        if rng.random() < share:
            for i in rng.sample(around[v], rng.randint(1, len(around[v]) - 1)):
                m.F[i] = tuple(len(m.V) if x == v else x for x in m.F[i])
            m.V.append(tuple(m.V[v]))
    return m


class LoadModel:
    """
    What a grid file means: global nodes (merged by coordinates equal to 10 decimal digits, first
    occurrence wins), faces in file order, edges.
    """

    def __init__(self, dat, merge=True):
        self.nodes = []
        self.faces = []       # (zone index, (n, n, n), data)
        self.zone_names = [z.name for z in dat.zones]
        seen = {}
        for zi, z in enumerate(dat.zones):
            ids = []
            for p in z.pts:
                k = rkey(p)
                if merge and k in seen:
                    ids.append(seen[k])
                else:
                    seen.setdefault(k, len(self.nodes))
                    ids.append(len(self.nodes))
                    self.nodes.append(p)
            for i, c in enumerate(z.conn):
                self.faces.append((zi, tuple(ids[k - 1] for k in c),
                                   {v: z.data[v][i] for v in dat.vars[3:]}))
        self.edges = edge_faces([f[1] for f in self.faces])


def same_float(a, b):
    """Equality of values that also tells signed zeros apart, and accepts nan = nan."""
    if a != a and b != b:
        return True
    return a == b and math.copysign(1.0, a) == math.copysign(1.0, b)


def cyc(t):
    """Canonical rotation of an oriented triple."""
    i = t.index(min(t))
    return tuple(t[i:] + t[:i])
