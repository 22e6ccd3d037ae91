"""P07: domain files together describe the whole grid."""
import os
import gsu
from vh import mesh as M, decomp as D, domains as Dm, topo
from vh.core import quiet
from vh.loadcmp import load

RULE = ('random grids with random variable sets and extreme values, random decompositions (also with empty, disconnected and '
        'fixed zones) or the zones of the file itself; domain files are read by an independent strict reader; non-trivial = new '
        '(family, faces, method, zone sizes)')
QUICK, THOROUGH = 2880, 5760
MIN = {'domain_files_read': 500, 'domain_faces_compared': 2000, 'domain_values_compared': 20000, 'face_tables_compared': 2000, 'stored again': 100}


def prepared(ctx, rng, size=None):
    m = M.random_mesh(rng, size or M.any_size(rng, 's', 's', 'm'), move=0.3, empty=0.1)
    if rng.random() < 0.5:
        # All fixed variables present, in another order, and a foreign one.
        vs = list(Dm.FIXED_VARS) + ['Other']
        rng.shuffle(vs)
        M.add_data(rng, m, vs)
    g = load(gsu, M.write_dat(m, ctx.path('a.dat'), order=rng.choice(['used', 'random']), rng=rng))
    hist = 'as loaded'
    for _ in range(rng.choice([0, 1, 1, 2])):
        method = rng.choice(D.METHODS)
        n = len(g.Faces)
        count = rng.randint(1, 4) if method == 'hierarchical' else rng.choice([1, 2, 3, 4, rng.randint(1, n), n + 1])
        fixed = [rng.choice(g.Zones).Name] if rng.random() < 0.3 and len(g.Zones) > 1 else None
        D.apply(g, rng, method, min(count, 40), fixed)
        hist = '{0}({1}) fixed={2}'.format(method, count, fixed)
    return m, g, hist


def state(g):
    faces = [None] * len(g.Faces)
    for f in g.Faces:
        faces[f.GloId] = (tuple(tuple(float(n.P[k]) for k in range(3)) for n in f.Nodes), dict(f.Data))
    return faces, [[f.GloId for f in z.Faces] for z in g.Zones]


def files(ctx, rng, g, turn, hist):
    """Domain files of the grid against the grid; returns the files, the faces and their distribution."""
    snap = topo.snapshot(g)
    base = rng.choice(['grid', 'a_b', 'wing.1', 'x_00001'])
    ts = rng.choice(['000000000000', '000000000123', '999999999999'])
    sf = rng.choice(['.cry', '.cry', '.xyz'])
    d = os.path.dirname(ctx.path('out{0}'.format(turn), 'x'))
    with quiet():
        if sf == '.cry':
            g.store_mpi(os.path.join(d, base), ts)
        else:
            g.store_mpi(os.path.join(d, base), ts, sf)
    ctx.check(topo.snapshot(g) == snap, 'storing domain files changed the grid')
    ctx.eq(len(os.listdir(d)), len(g.Zones), 'number of domain files ({0})'.format(hist))
    cs = Dm.read_domains(ctx, d, base, ts, sf)
    ctx.eq([c.title for c in cs], [z.Name for z in g.Zones], 'titles')
    faces, zones = state(g)
    for r, c in enumerate(cs):
        Dm.local_tables(ctx, c, 'domain {0} of {1}'.format(r, hist))
    Dm.whole(ctx, cs, faces, zones, hist)
    return cs, faces, zones


def case(ctx, rng, i):
    m, g, hist = prepared(ctx, rng)
    for turn in range(rng.choice([1, 1, 2])):
        if turn:
            # The same object once more: divided again (zones often keep their names), with other values.
            D.apply(g, rng, 'random', len(g.Zones)) if rng.random() < 0.7 else D.apply(g, rng, 'linear', rng.randint(1, 5))
            for f in g.Faces:
                for v in f.Data:
                    if rng.random() < 0.3:
                        f.Data[v] = M.any_value(rng)
            hist += ' again'
            ctx.count('stored again')
        cs, faces, zones = files(ctx, rng, g, turn, hist)
    ctx.sig(m.kind, len(faces), hist.split('(')[0], tuple(len(z) for z in zones))
    ctx.sample({'kind': m.kind, 'faces': len(faces), 'history': hist, 'domain_sizes': [len(z) for z in zones]})
