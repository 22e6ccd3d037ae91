"""P26: transfer of values between grids, judged against exhaustive nearest-centroid search."""
import math
import os

import numpy as np

from vh import loadcmp
from vh import mesh as M
from vh.core import quiet, run_cli, use_repo

RULE = ('distinct (tool, way of running, relation of grids, faces bucket of source and target, zones, scale)')
QUICK, THOROUGH = 2400, 16000
MIN = {'transfers': 150, 'faces judged': 4000, 'values kept': 20000, 'identity transfers': 15, 'beta transfers': 40,
       'interpolations': 60, 'rejections': 6, 'inputs': 100, 'sources that matter': 800}
ASSUMPTIONS = ['Source faces whose centroids are equally near (relative 1e-9 of the size of the grids) are all accepted.',
               'Grids carry the variables that are transferred.']


def related(rng, a):
    """A second grid and its relation to the first."""
    kind = rng.choice(['same', 'shifted', 'finer', 'far', 'other', 'other', 'permuted', 'moved'])
    if kind == 'same':
        b = a.copy()
    elif kind == 'shifted':
        b = a.copy()
        t = [rng.uniform(-0.4, 0.4) for _ in range(3)]
        b.V = [tuple(v[k] + t[k] for k in range(3)) for v in a.V]
    elif kind == 'moved':
        R = M.rotate(rng)
        b = a.copy()
        b.V = [tuple(M.apply(R, [0.1, 0, 0], 1.1, v)) for v in a.V]
    elif kind == 'permuted':
        b = a.copy()
        p = list(range(len(a.F)))
        rng.shuffle(p)
        b.F = [a.F[k] for k in p]
    elif kind == 'finer':
        V, F = list(a.V), []
        for f in a.F:
            V.append(tuple(sum(a.V[i][k] for i in f) / 3 + rng.uniform(-0.02, 0.02) for k in range(3)))
            n = len(V) - 1
            F += [(f[0], f[1], n), (f[1], f[2], n), (f[2], f[0], n)]
        b = M.Mesh(V, F)
    else:
        b = M.random_shape(rng, 's')
        if kind == 'far':
            b.V = [tuple(c + 50.0 for c in v) for v in b.V]
    b.zone, b.data = [0] * len(b.F), [{} for _ in b.F]
    if kind == 'same' and rng.random() < 0.5:
        b.zone, b.znames = list(a.zone), list(a.znames)
    else:
        M.add_zones(rng, b)
    b.kind = kind
    return b


def centroids(faces):
    return np.array([[sum(p[k] for p in f[1]) / 3 for k in range(3)] for f in faces])


def judge(ctx, what, src, tgt, res, names):
    """src, tgt, res: Dat."""
    fs, ft, fr = src.faces(), tgt.faces(), res.faces()
    ctx.eq(res.title or '', tgt.title or '', what + ': title')
    ctx.eq(res.vars, tgt.vars, what + ': variables')
    ctx.eq([z.name for z in res.zones], [z.name for z in tgt.zones], what + ': zones')
    ctx.eq(len(fr), len(ft), what + ': number of faces')
    cs, ct = centroids(fs), centroids(ft)
    size = max(np.abs(cs).max(), np.abs(ct).max(), 1e-30)
    for i, (t, r) in enumerate(zip(ft, fr)):
        ctx.count('faces judged')
        ctx.eq(r[0], t[0], '{0}: zone of face {1}'.format(what, i))
        ctx.eq(r[1], t[1], '{0}: points of face {1}'.format(what, i))
        d = np.sqrt(((cs - ct[i]) ** 2).sum(axis=1))
        near = np.nonzero(d <= d.min() + 1e-9 * size)[0]
        got = tuple(r[2][v] for v in names)
        cand = [tuple(fs[j][2][v] for v in names) for j in near]
        ctx.check(any(all(M.same_float(x, y) for x, y in zip(got, c)) for c in cand),
                  lambda: '{0}: face {1} gets {2} = {3}, the nearest source face ({4} away) has {5}'.format(
                      what, i, names, got, d.min(), cand[:3]), 'nearest')
        if len(near) < len(fs):
            ctx.count('sources that matter')
        for v in t[2]:
            if v not in names:
                ctx.count('values kept')
                ctx.check(M.same_float(r[2][v], t[2][v]),
                          lambda: '{0}: {1} of face {2} changed from {3!r} to {4!r}'.format(what, v, i, t[2][v], r[2][v]), 'kept')


def case(ctx, rng, i):
    use_repo()
    import gsu
    size = 'm' if rng.random() < 0.3 else 's'
    a = M.random_shape(rng, size)
    M.add_zones(rng, a)
    b = related(rng, a)
    a.znames = getattr(a, 'znames', None) or ['z']
    s = rng.choice([1.0, 1.0, 1e-4, 1e4])
    off = rng.choice([0.0, 0.0, 100.0]) * s
    for m in (a, b):
        m.V = [tuple(c * s + off for c in v) for v in m.V]
        vs = list(M.STD_VARS)
        rng.shuffle(vs)
        M.add_data(rng, m, vs + (['RecoveryFactor'] if rng.random() < 0.3 else []), lambda r: r.choice([0.0, 1.5]) if r.random() < 0.1
                   else r.uniform(-300, 300))
        m.title = rng.choice(['', 'grid'])
    kind = b.kind
    if rng.random() < 0.3:
        a, b = b, a
    pa, pb = ctx.path('in', rng.choice(['src.dat', 'a.b.dat'])), ctx.path('in', rng.choice(['tgt.dat', 'grid_000000000100.dat']))
    M.write_dat(a, pa)
    M.write_dat(b, pb)
    before = open(pa, 'rb').read(), open(pb, 'rb').read()
    tool = rng.choice(['interpolate', 'interpolate', 'beta'])
    if rng.random() < 0.06:
        refusals(ctx, rng, tool, pa, pb)
        return
    if tool == 'interpolate':
        names = ['T', 'Hw']
        how = rng.choice(['api', 'cli', 'cli default', 'api'])
        if how == 'api':
            import interpolate
            ga, gb = loadcmp.load(gsu, pa), loadcmp.load(gsu, pb)
            with quiet():
                interpolate.face_centered_interpolation(ga, gb)
            out, chk = ctx.path('out.dat'), ctx.path('src_after.dat')
            with quiet():
                gb.store(out)
                ga.store(chk)
            # The source grid keeps everything.
            x, y = M.Dat(pa), M.Dat(chk)
            ctx.eq([(f[0], f[1], f[2]) for f in y.faces()], [(f[0], f[1], f[2]) for f in x.faces()], 'source grid', monitor='sources')
        elif how == 'cli':
            out = ctx.path('o', 'res.dat')
            run_cli('convert/interpolate.py', [pa, pb, '-res', out] + rng.choice([[], ['-v']]))
        else:
            run_cli('convert/interpolate.py', [pa, pb])
            out = pb[:-4] + '_interpolated.dat'
        ctx.count('interpolations')
    else:
        names = ['Beta']
        how = 'cli'
        out = ctx.path('o', 'res.dat')
        run_cli('convert/lazurit_add_beta_from_ansys.py', [pb, pa, out])
        ctx.count('beta transfers')
    ctx.count('transfers')
    ctx.check(os.path.isfile(out), '{0} ({1}): no output'.format(tool, how))
    ctx.check((open(pa, 'rb').read(), open(pb, 'rb').read()) == before, '{0} ({1}): inputs changed'.format(tool, how), monitor='inputs')
    judge(ctx, '{0} ({1}), {2} grids'.format(tool, how, kind), M.Dat(pa), M.Dat(pb), M.Dat(out), names)
    if rng.random() < 0.25:
        identity(ctx, rng, tool, pb)
    ctx.sig(tool, how, kind, len(a.F).bit_length(), len(b.F).bit_length(), len(a.znames), len(b.znames), s)
    ctx.sample({'tool': tool, 'how': how, 'relation': kind, 'faces': [len(a.F), len(b.F)]})


def identity(ctx, rng, tool, p):
    """Transfer to the same grid changes nothing, to the byte (but for the way numbers are written by the tool)."""
    import gsu
    x = M.Dat(p)
    c = centroids(x.faces())
    if len(set(tuple(v) for v in c.round(12))) < len(c):
        return
    out, ref = ctx.path('id', 'res.dat'), ctx.path('id', 'ref.dat')
    if tool == 'interpolate':
        run_cli('convert/interpolate.py', [p, p, '-res', out])
    else:
        run_cli('convert/lazurit_add_beta_from_ansys.py', [p, p, out])
    with quiet():
        loadcmp.load(gsu, p).store(ref)
    ctx.count('identity transfers')
    ctx.check(open(out, 'rb').read() == open(ref, 'rb').read(), '{0}: transfer to the same grid is not the identity'.format(tool), 'identity')


def refusals(ctx, rng, tool, pa, pb):
    if tool == 'interpolate':
        bad = ctx.path('in', 'grid.txt')
        with open(bad, 'w') as f:
            f.write(open(pa).read())
        for argv in ([ctx.path('in', 'none.dat'), pb], [pa, ctx.path('in', 'none.dat')], [bad, pb], [pa, bad],
                     [pa, pb, '-res', ctx.path('o', 'x.txt')]):
            with ctx.raises('interpolate with arguments {0}'.format([os.path.basename(x) for x in argv])):
                run_cli('convert/interpolate.py', argv)
    else:
        for argv in ([ctx.path('in', 'none.dat'), pa, ctx.path('o.dat')], [pb, ctx.path('in', 'none.dat'), ctx.path('o.dat')]):
            with ctx.raises('add beta with a file which does not exist'):
                run_cli('convert/lazurit_add_beta_from_ansys.py', argv)
    ctx.sig('refusals', tool)
