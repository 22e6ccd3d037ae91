"""P01: loading reproduces the file."""
import os
import gsu
from vh import mesh as M
from vh.core import REPO, Violation
from vh.loadcmp import compare_loaded, load

RULE = ('a random surface (13 families, 1-5 zones, random variable sets, extreme values, random local node orders and '
        'number formats, near-duplicate points around the merge tolerance) is written by an independent writer and loaded '
        'into a fresh or a reused grid; non-trivial = new combination of family, zone sizes and merge mode')
QUICK, THOROUGH = 3120, 6240
MIN = {'files with other numbers before': 100, 'files of other systems': 60, 'files without variables': 20, 'faces_compared': 2000, 'values_compared': 8000, 'nodes_compared': 2000}
ASSUMPTIONS = ['file names, titles and zone names contain no quotes or line breaks']


def num_formats(rng):
    return rng.choice([M.fnum, M.fnum, repr, lambda x: '{0:.17g}'.format(x), lambda x: '{0:.6f}'.format(x) if abs(x) < 1e6 else repr(x)])


def near_duplicates(rng, m):
    """Give copies of shared points slightly different coordinates per zone, around the 1e-10 rounding."""
    dz = M.dat_zones(m, 'random', rng)
    V, F = [], [None] * len(m.F)
    mode = rng.choice(['below', 'above', 'mixed'])
    for name, ids, fids, conn in dz:
        off = len(V)
        for i in ids:
            d = {'below': 1e-13, 'above': 3e-10, 'mixed': rng.choice([0.0, 1e-13, 2e-11, 6e-11, 3e-10])}[mode]
            V.append(tuple(round(x, 9) + d * rng.choice([-1, 0, 1]) for x in m.V[i]))
        for fi, c in zip(fids, conn):
            F[fi] = tuple(off + k - 1 for k in c)
    m.V, m.F = V, F
    # The surface described by the file must stay one with at most two faces per edge.
    return m


def valid(dat, merge):
    lm = M.LoadModel(dat, merge)
    return all(len(v) <= 2 for v in lm.edges.values()) and all(len(set(f[1])) == 3 for f in lm.faces)


def case(ctx, rng, i):
    size = M.any_size(rng, 's', 's', 's', 'm')
    g = gsu.Grid()
    reuse = rng.random() < 0.35
    rounds = rng.randint(2, 3) if reuse else 1
    for k in range(rounds):
        m = M.random_mesh(rng, size, move=0.4, empty=0.1)
        near = rng.random() < 0.3
        if near:
            near_duplicates(rng, m)
        if rng.random() < 0.15:
            M.seams(rng, m)
        if rng.random() < 0.1:
            m.title = None
        path = ctx.path('g{0}.dat'.format(k if i % 2 else 0))
        head = rng.choice(['# crys-gsu\n', '', '# EXPORT_MODE=CHECK_POINT\n', '# a\n# b\n'])
        M.write_dat(m, path, order=rng.choice(['used', 'sorted', 'random']), rng=rng,
                    num=num_formats(rng), head=head, trailing=rng.choice([' ', '']))
        dat = M.Dat(path)
        if rng.random() < 0.12:
            with open(path, 'rb') as f:
                text = f.read()
            with open(path, 'wb') as f:
                f.write(text.replace(b'\n', b'\r\n'))
            ctx.count('files of other systems')
        if rng.random() < 0.25:
            M.older(path, rng, lambda: load(gsu, path, rng.random() < 0.5, g))
            ctx.count('files with other numbers before')
        before = open(path, 'rb').read()
        merge = rng.random() < 0.75
        if not valid(dat, merge):
            ctx.count('generated_invalid')
            continue
        if len(dat.vars) == 3:
            ctx.count('files without variables')
        load(gsu, path, merge, g)
        compare_loaded(ctx, g, dat, merge, 'round {0}, merge={1}'.format(k, merge))
        ctx.check(open(path, 'rb').read() == before, 'loading changed the file')
        ctx.check(g.nodes_count() == len(g.Nodes) and g.edges_count() == len(g.Edges)
                  and g.faces_count() == len(g.Faces) and g.zones_count() == len(g.Zones)
                  and g.faces_count_in_zones() == len(dat.faces()), 'counters of objects are wrong')
        ctx.sig(m.kind, tuple(len(z.conn) for z in dat.zones), merge, near, k)
        if k == 0:
            ctx.sample({'kind': m.kind, 'zones': [z.name for z in dat.zones], 'faces': len(m.F),
                        'vars': m.vars, 'merge': merge, 'near_duplicates': near, 'reused_object': k > 0})


def fixed(ctx):
    res = []
    for name in ('small', 'wing_1', 'wing_1_mz', 'bunny_pos', 'cylinder'):
        p = os.path.join(REPO, 'cases', 'grids', name + '.dat')
        if os.path.isfile(p):
            def fn(ctx, p=p, name=name):
                d = M.Dat(p)
                merge_modes = (True, False) if name in ('small', 'wing_1', 'wing_1_mz') or ctx.thorough else (False,)
                for merge in merge_modes:
                    g = load(gsu, p, merge)
                    compare_loaded(ctx, g, d, merge, name)
                ctx.sig('sample', name)
            if name not in ('bunny_pos', 'cylinder') or ctx.thorough:
                res.append((name, fn))
    return res
