"""P10: the merge tool."""
import os
import gsu
import merge as merge_tool
from vh import mesh as M
from vh.core import quiet, run_cli, tree_bytes, Violation
from vh.loadcmp import load

RULE = ('a random grid, random results per face for 1-4 timestamps scattered over 1-6 result files, balance tables, and foreign '
        'files; the order in which the directory is listed is shuffled by a wrapper of os.listdir; outputs are read by an '
        'independent reader; non-trivial = new (numbers of files, timestamps, tables, rows, variables, interface)')
QUICK, THOROUGH = 1800, 3600
MIN = {'merges': 180, 'values_compared': 10000, 'table_cells_compared': 1000, 'listing_orders': 150}

NAMES = ['M_imp', 'M_es', 'M_stall', 'M_ini_water', 'M_water', 'M_ini_ice', 'M_ice', 'Q_conv', 'Q_es']


def case(ctx, rng, i):
    m = M.random_mesh(rng, M.any_size(rng, 's', 's', 'm'), move=0.3, empty=0.1)
    nm = rng.choice(['grid', 'wing_1', 'a.b', 'x_00001'])
    stem = nm + ('_{0:012d}'.format(rng.randrange(1000)) if rng.random() < 0.5 else '')
    grid = ctx.path('grid', stem + '.dat')
    M.write_dat(m, grid, rng=rng)
    g0 = load(gsu, grid)
    if len(g0.Faces) != len(m.F):
        raise Violation('loading lost faces')
    n = len(g0.Faces)
    src, dst = os.path.join(ctx.case_dir, 'src'), os.path.join(ctx.case_dir, 'res', 'merged')
    os.makedirs(src)
    if rng.random() < 0.5:
        os.makedirs(dst)
    vars_ = rng.choice([['T', 'Hw', 'Hi'], ['T', 'Hw', 'Hi'], ['Hi', 'T'], ['T', 'Hw', 'Hi', 'Beta', 'HTC']])
    stamps = sorted({'{0:012d}'.format(rng.choice([0, 10, 20, 123456, 999999999999, rng.randrange(10 ** 12)]))
                     for _ in range(rng.randint(1, 4))})
    ranks = rng.choice([1, 2, 3, 4, 5, 6, rng.randint(7, 40)])
    # The numbers of the domains in the names of the files.
    number = sorted(rng.sample(range(rng.choice([ranks, ranks + 5, 1000, 100000])), ranks)) if rng.random() < 0.3 else list(range(ranks))
    value = {}
    # Sometimes results are incomplete: faces without values keep those of the grid.
    partial = rng.random() < 0.35
    own_vars = list(g0.Faces[0].Data.keys())
    if partial:
        vars_ = [v for v in vars_ if v in own_vars] or own_vars[:2]
        partial = bool(vars_)
        vars_ = vars_ or ['T']
    for ts in stamps:
        own = [rng.randrange(ranks) for _ in range(n)]
        if rng.random() < 0.3:
            own = [k * ranks // n for k in range(n)]
        lost = set(rng.sample(range(n), rng.randrange(n))) if partial and rng.random() < 0.7 else set()
        for k in lost:
            value[(ts, k)] = [g0.Faces[k].Data[v] for v in vars_]
        ctx.count('faces_without_results', len(lost))
        for r in range(ranks):
            ids = [k for k in range(n) if own[k] == r and k not in lost]
            rng.shuffle(ids)
            if not ids and rng.random() < 0.5:
                continue
            with open(os.path.join(src, '{0}_{1:05d}_{2}.txt'.format(nm, number[r], ts)), 'w') as f:
                f.write('VARIABLES="GloId", {0}\n'.format(', '.join('"{0}"'.format(v) for v in vars_)))
                for k in ids:
                    row = [M.any_value(rng) for _ in vars_]
                    value[(ts, k)] = row
                    f.write('{0} {1}\n'.format(k, ' '.join('{0:.18e}'.format(x) for x in row)))
    # Foreign files.
    for fn in rng.sample(['{0}.log'.format(nm), 'other_00000_{0}.txt'.format(stamps[0]), '{0}_00000_{1}.cry'.format(nm, stamps[0]),
                          'report.txt', '{0}x_00000_{1}.txt'.format(nm, stamps[0]), 'readme',
                          'z{0}_00001_{1}.txt'.format(nm, stamps[-1])], rng.randint(0, 5)):
        with open(os.path.join(src, fn), 'w') as f:
            f.write('VARIABLES="GloId", "T", "Hw", "Hi"\n0 666 666 666\n')
    # Balance tables.
    tables, rows = [], rng.choice([1, 1, 2, 5])
    times = [0.5 * k + 0.1 for k in range(rows)]
    for r in range(rng.choice([0, 1, 1, 2, 3, 12])):
        t = [[x] + [rng.uniform(0, 100) for _ in NAMES] for x in times]
        tables.append(t)
        with open(os.path.join(src, '{0}_{1:05d}.csv'.format(nm, r)), 'w') as f:
            f.write('time;' + ';'.join(NAMES) + '\n')
            for row in t:
                f.write(';'.join(repr(x) for x in row) + '\n')
    before = (tree_bytes(src), tree_bytes(os.path.dirname(grid)))

    # A directory may be listed in any order.
    real = os.listdir

    def shuffled(*a):
        r = list(real(*a))
        rng.shuffle(r)
        ctx.count('listing_orders')
        return r
    os.listdir = shuffled
    how = rng.choice(['function', 'function', 'cli'])
    try:
        if how == 'cli':
            run_cli('merge.py', [grid, src, dst])
        else:
            with quiet():
                merge_tool.merge(grid, src, dst)
    finally:
        os.listdir = real
    ctx.count('merges')
    ctx.check((tree_bytes(src), tree_bytes(os.path.dirname(grid))) == before, 'merging changed its inputs')

    outs = sorted(x for x in os.listdir(dst) if x.endswith('.dat'))
    ctx.eq(outs, ['{0}_r_{1}.dat'.format(nm, ts) for ts in stamps], 'merged grids')
    ctx.eq(sorted(os.listdir(dst)), sorted(outs + ['report.txt']), 'files in the destination')
    for ts in stamps:
        d = M.Dat(os.path.join(dst, '{0}_r_{1}.dat'.format(nm, ts)))
        ctx.eq([z.name for z in d.zones], [z.Name for z in g0.Zones], 'zones')
        fs = d.faces()
        ctx.eq(len(fs), n, 'faces at ' + ts)
        for k, (zone, pts, data) in enumerate(fs):
            # Faces of the merged grid stand in the order of identifiers, as in the original.
            want = tuple(tuple(float(q.P[t]) for t in range(3)) for q in g0.Faces[k].Nodes)
            ctx.check(zone == g0.Faces[k].Zone.Name and repr(pts) == repr(want), 'face {0} at {1} moved'.format(k, ts))
            for v, x in zip(vars_, value[(ts, k)]):
                ctx.check(v in data and M.same_float(data[v], x), lambda: 'face {0} at {1}: {2} is {3!r}, stated {4!r} ({5} '
                          'files, stamps {6})'.format(k, ts, v, data.get(v), x, ranks, stamps), monitor='values_compared')
    csv = os.path.join(os.path.dirname(dst), nm + '.csv')
    ctx.eq(sorted(x for x in os.listdir(os.path.dirname(dst)) if x != 'merged'), [nm + '.csv'] if tables else [], 'tables written')
    if tables:
        with open(csv) as f:
            L = f.read().split('\n')
        ctx.eq(L[0].split(';'), ['time'] + NAMES, 'head of the table')
        got = [[float(x) for x in l.split(';')] for l in L[1:] if l]
        ctx.eq(len(got), rows, 'rows of the table')
        for r in range(rows):
            ctx.eq(len(got[r]), 1 + len(NAMES), 'columns of the table')
            for c in range(1 + len(NAMES)):
                want = times[r] if c == 0 else sum(t[r][c] for t in tables)
                ctx.close(got[r][c], want, 'table row {0} column {1} of {2} tables'.format(r, c, len(tables)), rel=1e-12,
                          monitor='table_cells_compared')
    ctx.sig(ranks, len(stamps), len(tables), rows, tuple(vars_), how, len(m.znames))
    ctx.sample({'grid': stem, 'faces': n, 'ranks': ranks, 'stamps': stamps, 'tables': len(tables), 'rows': rows, 'vars': vars_})
