"""P27: random structured blocks in Lazurit format through the converter; every cell and value is found again in the output."""
import math
import os

from vh import mesh as M
from vh.core import run_cli, tree_bytes

RULE = 'distinct (number of blocks, sizes of blocks, topology, kind of coincidence of sides, line layout)'
QUICK, THOROUGH = 2640, 9000
MIN = {'conversions': 150, 'blocks': 250, 'cells': 2000, 'values compared': 20000, 'rejections': 20, 'shared sides': 60,
       'closed blocks': 20, 'cells of wide blocks': 1000}
VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
ASSUMPTIONS = ['Nodes and cells of an ordered block go with the first index fastest (Tecplot ordered data, as the format says).',
               'Either diagonal of a cell is accepted; the common orientation is that of the corners (i,j), (i,j+1), (i+1,j+1), (i+1,j).',
               'Cells have four distinct corners; coinciding points coincide to the last digit.']


def num(rng, x):
    return rng.choice(['{0:.7E}', '{0:14.7E}', '{0:.9f}', '{0!r}']).format(x)


def layout(rng, rows, one=None):
    """Numbers of every row over lines of random length, as Fortran writes them."""
    w = rng.choice([1, 3, 5, 10, 10 ** 6])
    out = []
    for r in rows:
        for k in range(0, len(r), w):
            out.append('  ' + ' '.join(r[k:k + w]) + '\n')
    return ''.join(out)


class Block:
    pass


def surface(rng, ni, nj, kind):
    """ni x nj points, i fastest."""
    p = []
    a = [rng.uniform(0.5, 1.5) for _ in range(3)]
    for j in range(nj):
        for i in range(ni):
            if kind == 'flat':
                q = (i * a[0] + rng.uniform(-.2, .2), j * a[1] + rng.uniform(-.2, .2), rng.uniform(-.2, .2))
            elif kind == 'closed i':
                t = 2 * math.pi * (i % (ni - 1)) / (ni - 1)
                q = (math.cos(t), math.sin(t), float(j))
            else:
                t = 2 * math.pi * (j % (nj - 1)) / (nj - 1)
                q = (math.cos(t), math.sin(t), float(i))
            p.append(q)
    return p


def blocks(rng):
    res = []
    n = rng.choice([1, 1, 2, 2, 3, 4])
    names = rng.sample(['B-1', 'B-2', 'B-10', 'B-3', 'B-7', 'B-12', 'B-001', 'B-x'], n)
    t = rng.choice(['T-15000_', '', 'wing_', 'AB_', 'BODY_', 'T-15000_B1_'])
    for k, nm in enumerate(names):
        b = Block()
        b.name, b.file = nm, t + nm
        b.ni, b.nj = rng.choice([2, 2, 3, 4, 6]), rng.choice([2, 3, 3, 5, 7])
        kinds = ['flat', 'flat'] + (['closed i'] if b.ni > 3 else []) + (['closed j'] if b.nj > 3 else [])
        b.kind = rng.choice(kinds)
        b.shared = None
        if k and res[-1].kind != 'closed i' and rng.random() < 0.6:
            # A side that coincides with a side of the previous block.
            b.kind = 'flat'
            o = res[-1]
            b.nj = o.nj
            b.P = surface(rng, b.ni, b.nj, 'flat')
            off = 100.0 * k
            b.P = [(x + off, y, z) for x, y, z in b.P]
            for j in range(b.nj):
                b.P[j * b.ni] = o.P[j * o.ni + o.ni - 1]
            b.shared = o.kind
        else:
            b.P = [(x + 100.0 * k, y, z) for x, y, z in surface(rng, b.ni, b.nj, b.kind)]
        f = rng.choice([lambda: 0.0, lambda: rng.uniform(-300, 300), lambda: float(rng.randint(0, 5)), lambda: rng.uniform(-1, 1) * 1e-9])
        g = lambda: rng.uniform(-1000, 1000)
        b.D = [[rng.choice([f, g])() for _ in range((b.ni - 1) * (b.nj - 1))] for _ in VARS]
        res.append(b)
    return res


def write(rng, d, bs):
    os.makedirs(d, exist_ok=True)
    fmt = rng.choice(['{0:.9E}', '{0!r}', '{0:16.9E}'])
    for b in bs:
        head = 'ZONE T="1_Block_WALL"\nI={0:6d} J={1:6d} K=     1\n'.format(b.ni, b.nj)
        X = [[fmt.format(p[k]) for p in b.P] for k in range(3)]
        b.P = [tuple(float(X[k][i]) for k in range(3)) for i in range(len(b.P))]
        with open(os.path.join(d, 'TEC_WALL_Grid_{0}.TEC'.format(b.file)), 'w') as f:
            f.write('FILETYPE = GRID\nVARIABLES = X Y Z\n' + head + 'ZONETYPE = Ordered, DATAPACKING = BLOCK\n'
                    ' STRANDID=      100004 SOLUTIONTIME=  15000.00000000\n' + layout(rng, X))
        Y = [[num(rng, x) for x in r] for r in b.D]
        b.D = [[float(x) for x in r] for r in Y]
        with open(os.path.join(d, 'TEC_WALL_Solution_{0}.TEC'.format(b.file)), 'w') as f:
            f.write('FILETYPE = SOLUTION\nVARIABLES = Tw Hw Hi HTC Beta TauX TauY TauZ\n' + head +
                    'ZONETYPE = Ordered, DATAPACKING = BLOCK, VARLOCATION=([1-8]=CELLCENTERED)\n'
                    ' STRANDID=      100004 SOLUTIONTIME=  15000.00000000\n' + layout(rng, Y))


def judge(ctx, bs, d):
    bs = sorted(bs, key=lambda b: b.file)
    ctx.eq([z.name for z in d.zones], [b.name for b in sorted(bs, key=lambda b: 'TEC_WALL_Grid_{0}.TEC'.format(b.file))], 'zones')
    by = {b.name: b for b in bs}
    for v in VARS:
        ctx.check(v in d.vars, 'variable {0} is not in the output'.format(v))
    for z in d.zones:
        b = by[z.name]
        ctx.count('blocks')
        ctx.count('closed blocks', int(b.kind.startswith('closed')))
        nc = (b.ni - 1) * (b.nj - 1)
        ctx.eq(len(z.conn), 2 * nc, 'block {0}: number of faces'.format(b.name))
        # Triangles by their three points; every cell has to be made of two of them.
        tris = {}
        for i, c in enumerate(z.conn):
            t = tuple(z.pts[k - 1] for k in c)
            tris.setdefault(M.cyc(t), []).append(i)
        at = lambda i, j: b.P[i + j * b.ni]
        used = set()
        for j in range(b.nj - 1):
            for i in range(b.ni - 1):
                ctx.count('cells')
                ctx.count('cells of wide blocks', int(b.ni > 2 and b.nj > 2))
                q = [at(i, j), at(i, j + 1), at(i + 1, j + 1), at(i + 1, j)]
                cuts = [((q[0], q[1], q[2]), (q[0], q[2], q[3])), ((q[0], q[1], q[3]), (q[1], q[2], q[3]))]
                found = [[x for t in cut for x in tris.get(M.cyc(t), [])] for cut in cuts]
                found = [x for x in found if len(x) == 2]
                ctx.check(len(found) == 1, lambda: 'block {0}: cell ({1}, {2}) of {3} x {4} nodes is not tiled by two triangles of its '
                          'orientation'.format(b.name, i, j, b.ni, b.nj), 'tiling')
                c = i + j * (b.ni - 1)
                for x in found[0]:
                    used.add(x)
                    for v, r in zip(VARS, b.D):
                        want = -r[c] if v.startswith('Tau') else r[c]
                        ctx.count('values compared')
                        ctx.check(z.data[v][x] == want, lambda: 'block {0} of {1} x {2} nodes: {3} in cell ({4}, {5}) is {6!r}, '
                                  'the file says {7!r}'.format(b.name, b.ni, b.nj, v, i, j, z.data[v][x], want), 'value')
        ctx.eq(len(used), 2 * nc, 'block {0}: faces used'.format(b.name))
        ctx.eq(len(set(z.pts)), len(z.pts), 'block {0}: distinct nodes'.format(b.name), monitor='nodes merged')
        ctx.eq(set(z.pts), set(b.P), 'block {0}: nodes'.format(b.name), monitor='nodes merged')


def case(ctx, rng, i):
    import gsu
    from vh import loadcmp
    bs = blocks(rng)
    src = ctx.path('in', 'x')[:-2]
    write(rng, src, bs)
    for _ in range(rng.choice([0, 0, 1])):
        with open(os.path.join(src, rng.choice(['readme.txt', 'TEC_notes.dat'])), 'w') as f:
            f.write('nothing\n')
    out = ctx.path('out', rng.choice(['grid.dat', 'g_000000000000.dat']))
    if rng.random() < 0.2:
        refuse(ctx, rng, src, bs, out)
        return
    before = tree_bytes(src)
    run_cli('convert/lazurit_to_crystal.py', [src, out])
    ctx.count('conversions')
    ctx.check(tree_bytes(src) == before, 'input files changed', monitor='inputs')
    d = M.Dat(out)
    judge(ctx, bs, d)
    g = loadcmp.load(gsu, out)
    pts = {p for b in bs for p in b.P}
    ctx.eq(len(g.Nodes), len(pts), 'nodes of the converted grid (sides that coincide are shared)', monitor='shared')
    for b in bs:
        if b.shared is not None:
            ctx.count('shared sides')
    ctx.sig(len(bs), sorted((b.ni, b.nj, b.kind, str(b.shared)) for b in bs))
    ctx.sample({'blocks': [[b.name, b.ni, b.nj, b.kind] for b in bs]})


def refuse(ctx, rng, src, bs, out):
    b = rng.choice(bs)
    g = os.path.join(src, 'TEC_WALL_Grid_{0}.TEC'.format(b.file))
    s = os.path.join(src, 'TEC_WALL_Solution_{0}.TEC'.format(b.file))
    how = rng.choice(['no grid', 'no solution', 'renamed', 'short solution', 'short grid', 'two grids', 'no directory', 'no both',
                      'grids under other names', 'solutions under other names'])
    if how == 'no grid':
        os.remove(g)
    elif how == 'no solution':
        os.remove(s)
    elif how == 'renamed':
        os.rename(s, s[:-4] + '9.TEC')
    elif how == 'two grids':
        os.rename(s, os.path.join(src, 'TEC_WALL_Grid_Z{0}.TEC'.format(b.file)))
    elif how.endswith('other names'):
        # Every block is complete, but the files do not say what they are.
        what = 'TEC_WALL_Grid_' if how[0] == 'g' else 'TEC_WALL_Solution_'
        other = rng.choice(['TEC_WALL_Gird_', 'TEC_wall_Grid_', 'TEC_BODY_Grid_'] if how[0] == 'g' else
                           ['TEC_WALL_Solutiom_', 'TEC_WALL_Solution-', 'TEC_WALL_Zolution_'])
        for x in bs:
            os.rename(os.path.join(src, what + x.file + '.TEC'), os.path.join(src, other + x.file + '.TEC'))
    elif how == 'no directory':
        src = src + '_none'
    elif how == 'no both':
        # A solution of one block and a grid of another one are missing (the number of files is even).
        if len(bs) == 1:
            os.remove(g)
        else:
            o = rng.choice([x for x in bs if x is not b])
            os.remove(g)
            os.remove(os.path.join(src, 'TEC_WALL_Solution_{0}.TEC'.format(o.file)))
    else:
        p = s if how == 'short solution' else g
        t = open(p).read().split()
        k = rng.randint(1, 2)
        text = open(p).read().rstrip()
        for _ in range(k):
            text = text[:text.rindex(t.pop())].rstrip()
        with open(p, 'w') as f:
            f.write(text + '\n')
    with ctx.raises('conversion of {0} block(s): {1}'.format(len(bs), how), how):
        run_cli('convert/lazurit_to_crystal.py', [src, out])
    ctx.sig('refused', how, len(bs))
