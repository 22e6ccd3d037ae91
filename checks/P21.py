"""P21: ice is grown on many bodies under many configurations; everything except positions has to stay."""
import json
import math
import os

import remeshing
from vh import bodies as B
from vh import loadcmp
from vh import mesh as M
from vh.core import quiet, run_cli

RULE = ('distinct (body kind, ice field kind, faces bucket, zones, configuration keys, way of running, number of growths)')
QUICK, THOROUGH = 450, 6000
MIN = {'remesh runs': 150, 'faces compared': 4000, 'values compared': 40000, 'still nodes': 500, 'moved nodes': 2000,
       'outward nodes': 1000, 'zero ice runs': 20, 'command line runs': 15, 'repeated growths': 20, 'runs without steps': 15}
ASSUMPTIONS = ['Surfaces are consistently oriented, without degenerate faces, and every node has a definite outer side (sum of the '
               'normals of its faces is not near zero).',
               'The outer side is judged on smooth bodies, by the angle with the sum of the normals of the adjacent faces of the old '
               'surface, without null-space smoothing and with at most moderate ice.']
SMOOTH = {'plate', 'wavy', 'sphere', 'ellipsoid', 'torus'}


def judge(ctx, m, hi, faces, names, opts, smooth, what):
    """
    m: mesh before (positions m.V), hi: ice heights; faces: list of (zone name, 3 points, {var: value}) after.
    Returns the new positions.
    """
    order = [i for z in m.by_zone() for i in z]
    ctx.eq(names, [m.znames[k] for k in range(len(m.znames))], what + ': zones')
    ctx.eq(len(faces), len(order), what + ': number of faces')
    pos = {}
    for i, (zn, pts, data) in zip(order, faces):
        ctx.count('faces compared')
        ctx.eq(zn, m.znames[m.zone[i]], '{0}: zone of face {1}'.format(what, i))
        for v, p in zip(m.F[i], pts):
            ctx.check(all(math.isfinite(x) for x in p), '{0}: node {1} has coordinates {2}'.format(what, v, p), monitor='finite')
            ctx.check(pos.setdefault(v, p) == p, lambda: '{0}: node {1} has two positions: {2} and {3}'.format(what, v, pos[v], p),
                      monitor='connectivity')
        ctx.eq(sorted(data), sorted(m.data[i]), '{0}: variables of face {1}'.format(what, i))
        for v, x in m.data[i].items():
            ctx.count('values compared')
            want = 0.0 if v == 'Hi' else x
            ctx.check(M.same_float(data[v], want) or (want == 0.0 == data[v]),
                      lambda: '{0}: {1} of face {2} is {3!r}, expected {4!r}'.format(what, v, i, data[v], want), monitor='values')
    groups = {}
    for v, p in pos.items():
        groups.setdefault(p, []).append(v)
    iced = set()
    for f, h in zip(m.F, hi):
        if h != 0.0:
            iced.update(f)
    size = max(max(abs(c) for c in v) for v in m.V)
    nss = opts.get('remesh_nss_steps', 0)
    hs = opts.get('remesh_hsmooth_steps', 0)
    none = opts.get('remesh_nsteps_max', 10) == 0
    ctx.count('runs without steps', int(none and any(hi)))
    nn = B.node_normals(m.V, m.F)
    moved = 0
    for v, p in pos.items():
        d = [p[k] - m.V[v][k] for k in range(3)]
        ln = math.sqrt(sum(x * x for x in d))
        if none or (nss == 0 and (not iced or (hs == 0 and v not in iced))):
            ctx.check(ln <= 1e-12 * size, lambda: '{0}: node {1} without ice moved by {2:g}'.format(what, v, ln), 'still', 'still nodes')
        if ln > 1e-9 * size:
            moved += 1
            ctx.count('moved nodes')
            if smooth and nss == 0:
                n = nn[v]
                c = sum(a * b for a, b in zip(d, n)) / ln / math.sqrt(sum(x * x for x in n))
                ctx.check(c > 0.1, lambda: '{0}: node {1} moved by {2} while the outer normal is {3}'.format(what, v, d, n), 'outward',
                          'outward nodes')
        elif nss == 0 and hs == 0 and v in iced and not none:
            hmax = max(h for f, h in zip(m.F, hi) if v in f)
            ctx.check(hmax <= 1e-7 * size, lambda: '{0}: node {1} with ice of height {2} did not move'.format(what, v, hmax),
                      monitor='iced nodes')
    return pos, moved


def state(g):
    return ([(f.Zone.Name, [tuple(float(x) for x in n.P.coords_tuple()) for n in f.Nodes],
              {k: float(x) for k, x in f.Data.items()}) for f in g.Faces], [z.Name for z in g.Zones])


def dat_state(path):
    d = M.Dat(path)
    res = []
    for z in d.zones:
        for j, t in enumerate(z.conn):
            res.append((z.name, [tuple(z.pts[k - 1]) for k in t], {v: z.data[v][j] for v in z.data}))
    return res, [z.name for z in d.zones]


def new_ice(rng, m):
    side = min(B.min_side(m.V, f) for f in m.F)
    return B.ice_field(rng, m.V, m.F, rng.choice([0.02, 0.1, 0.3]) * side,
                       rng.choice(['constant', 'wave', 'cap', 'random', 'zero', 'cap', 'random']))


def case(ctx, rng, i):
    import gsu
    kind, closed, V, F = B.any_body(rng, 'm' if ctx.thorough and rng.random() < 0.3 else 's')
    s = rng.choice([1.0, 1.0, 0.01, 1e-4, 100.0])
    V = [tuple(c * s for c in v) for v in V]
    m = B.make(rng, V, F, [0.0] * len(F))
    ik, hi = new_ice(rng, m)
    for d, h in zip(m.data, hi):
        d['Hi'] = h
    opts = B.options(rng)
    if rng.random() < 0.2:
        opts['remesh_nss_steps'] = rng.randint(1, 3)
        if rng.random() < 0.5:
            opts['remesh_nss_fix_nodes'] = rng.random() < 0.5
    if rng.random() < 0.1:
        opts['remesh_verbose'] = True
    if rng.random() < 0.1:
        # No steps at all: nothing grows.
        opts['remesh_nsteps_min'] = opts['remesh_nsteps_max'] = 0
    smooth = kind in SMOOTH
    cli = rng.random() < 0.25
    if cli:
        growths = run_tool(ctx, rng, m, hi, opts, smooth)
    else:
        p = ctx.path('g.dat')
        M.write_dat(m, p)
        g = loadcmp.load(gsu, p)
        j = None
        if opts or rng.random() < 0.3:
            j = ctx.path('o.json')
            with open(j, 'w') as f:
                json.dump(opts, f)
        os.makedirs(ctx.path('out', 'x'), exist_ok=True)
        with quiet():
            r = remeshing.TongRemesher('/g.dat', j, ctx.path('out', 'x')[:-2])
        growths = rng.choice([1, 1, 1, 2, 3])
        for k in range(growths):
            with quiet():
                r(g)
            ctx.count('remesh runs')
            ctx.count('zero ice runs', int(not any(hi)))
            faces, names = state(g)
            pos, moved = judge(ctx, m, hi, faces, names, opts, smooth and k == 0, 'growth {0}'.format(k))
            if k + 1 < growths:
                # Next growth starts from where the previous one stopped: some ice, or none (already cleared).
                ctx.count('repeated growths')
                m = m.copy()
                m.V = [pos.get(v, m.V[v]) for v in range(len(m.V))]
                if not B.sound(m.V, m.F):
                    break
                if rng.random() < 0.5:
                    hi = [0.0] * len(F)
                else:
                    hi = new_ice(rng, m)[1]
                m.data = [dict(d) for d in m.data]
                for d, h in zip(m.data, hi):
                    d['Hi'] = h
                order = [x for z in m.by_zone() for x in z]
                for x, f in zip(order, g.Faces):
                    f['Hi'] = hi[x]
    ctx.sig(kind, ik, len(F).bit_length(), len(m.znames), sorted(opts), cli, growths)
    ctx.sample({'body': kind, 'faces': len(F), 'ice': ik, 'options': opts, 'command line': cli})


def run_tool(ctx, rng, m, hi, opts, smooth):
    """The command line tool, on one grid or a directory."""
    name = rng.choice(['g_000000000012.dat', 'a_r_000000000012.dat', 'x.dat', 'w_r_1_r_2.dat'])
    src = ctx.path('in', name)
    M.write_dat(m, src)
    before = open(src, 'rb').read()
    argv = []
    whole = rng.random() < 0.5
    if whole:
        with open(ctx.path('in', 'note.txt'), 'w') as f:
            f.write('not a grid\n')
        argv += ['-d', ctx.path('in', 'x')[:-2]]
    else:
        argv += ['-g', src]
    if opts:
        with open(ctx.path('o.json'), 'w') as f:
            json.dump(opts, f)
        argv += ['-j', ctx.path('o.json')]
    out = ctx.path('res', 'deep', 'x')[:-2]
    argv += ['-o', out] + ['-v'] * rng.choice([0, 0, 1, 2])
    run_cli('remesh.py', argv)
    ctx.count('command line runs')
    ctx.count('remesh runs')
    ctx.count('zero ice runs', int(not any(hi)))
    ctx.check(open(src, 'rb').read() == before, 'the input grid was changed', monitor='inputs')
    want = name.replace('_r_', '_')
    ctx.check(os.path.isfile(os.path.join(out, want)), lambda: 'no {0} in {1}'.format(want, os.listdir(out)), monitor='outputs')
    faces, names = dat_state(os.path.join(out, want))
    judge(ctx, m, hi, faces, names, opts, smooth, 'tool')
    return 1
