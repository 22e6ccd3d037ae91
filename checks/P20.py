"""P20: the drops tool run on generated stall grids and air grids; everything it writes is judged."""
import math
import os

import drops
from vh import exact as X
from vh import flight as FL
from vh import mesh as M
from vh.core import quiet, run_cli
from checks import P19

RULE = ('distinct (body kind, faces bucket, launched droplets bucket, verdicts seen, number of hit faces, air layout, way of '
        'running)')
QUICK, THOROUGH = 675, 5000
MIN = {'input files with other numbers before': 50, 'runs': 100, 'flights': 400, 'hits': 100, 'changed faces': 60, 'values compared': 10000, 'no flight faces': 500,
       'command line runs': 20}
STALL = ['Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']
ASSUMPTIONS = ['Grids carry T, Hw, Hi, MImp2 and the five stall variables (the STALL format).',
               'When several droplets land on one face any one of their contributions is accepted.',
               'A segment passing within 1e-6 (relative) of the rim of a face may be judged either way.']


def traj_file(path):
    """[(name, points, elements)] of a trajectories file, strictly."""
    L = open(path).read().split('\n')
    if L[-1] != '':
        raise M.ParseError('no final newline')
    L = L[:-1]
    if L[1] != 'TITLE="Trajectories"' or L[2] != 'VARIABLES="X", "Y", "Z"' or not L[0].startswith('#'):
        raise M.ParseError('head of trajectories file: {0}'.format(L[:3]))
    p, res = 3, []
    while p < len(L):
        if not (L[p].startswith('ZONE T="') and L[p].endswith('"')):
            raise M.ParseError('expected a zone, got ' + L[p][:60])
        name = L[p][8:-1]
        n, e = int(L[p + 1].split('=')[1]), int(L[p + 2].split('=')[1])
        if L[p + 1] != 'NODES={0}'.format(n) or L[p + 2] != 'ELEMENTS={0}'.format(e) or e != n - 1:
            raise M.ParseError('zone sizes {0} {1}'.format(n, e))
        if L[p + 3] != 'DATAPACKING=BLOCK' or not L[p + 4].startswith('ZONETYPE='):
            raise M.ParseError('zone head')
        c = [[float(s) for s in L[p + 6 + k].split()] for k in range(3)]
        if [len(x) for x in c] != [n] * 3:
            raise M.ParseError('rows of {0} for {1} points'.format([len(x) for x in c], n))
        for k in range(e):
            if [int(s) for s in L[p + 9 + k].split()] != [k + 1, k + 2, k + 2]:
                raise M.ParseError('element {0}: {1}'.format(k, L[p + 9 + k]))
        res.append((name, list(zip(*c))))
        p += 9 + e
    return res


def air_text(rng, air):
    out = []
    if rng.random() < 0.7:
        out.append('TITLE="air"\n')
    out.append('VARIABLES="X", "Y", "Z", "P", "T", "U", "V", "W"\n')

    def rows(pts):
        for p, v in pts:
            out.append(' '.join('{0:.17e}'.format(x) for x in list(p) + [rng.random(), 273.0] + list(v) +
                                ([1.0] if rng.random() < 0.3 else [])) + '\n')

    def brick(pts):
        e = rng.randint(0, 3)
        out.append('ZONE ET=FEBRICK F=FEPOINT T="air" N = {0} E = {1}\n'.format(len(pts), e))
        rows(pts)
        for _ in range(e):
            out.append('1 1 1 1 1 1 1 1\n')

    def other():
        # A zone which is not air; its values must have no influence.
        n, e = rng.randint(1, 4), rng.randint(0, 3)
        out.append('ZONE ET=FEQUADRILATERAL T="wall" N = {0} E = {1}\n'.format(n, e))
        rows([([1e3 * rng.random() for _ in range(3)], [1e5] * 3) for _ in range(n)])
        for _ in range(e):
            out.append('1 1 1 1\n')

    cut = rng.randint(0, len(air)) if rng.random() < 0.4 else len(air)
    if rng.random() < 0.4:
        other()
    for part in (air[:cut], air[cut:]):
        if part:
            brick(part)
            if rng.random() < 0.3:
                other()
    return ''.join(out)


def body(rng):
    m = M.random_shape(rng, 's')
    kind = m.kind
    if rng.random() < 0.6:
        # A second body to be hit.
        o = M.random_shape(rng, 's')
        off = [3.0 * x for x in P19.rv(rng, 1.0)]
        n = len(m.V)
        m = M.Mesh(m.V + [tuple(v[k] + off[k] for k in range(3)) for v in o.V],
                   m.F + [tuple(i + n for i in f) for f in o.F])
        kind = kind + '+' + o.kind
    F = []
    for f in m.F:
        a, b, c = [m.V[i] for i in f]
        w = X.cross(X.sub(b, a), X.sub(c, a))
        if math.sqrt(sum(x * x for x in w)) > 1e-3:
            F.append(f)
    m.F = F[:60]
    m.drop_unused_vertices()
    M.add_zones(rng, Z(m))
    m.kind = kind
    return m


def Z(m):
    m.zone = [0] * len(m.F)
    m.data = [{} for _ in m.F]
    return m


def case(ctx, rng, i):
    m = body(rng)
    if not m.F:
        return
    s = 10 ** (rng.uniform(-4, -1.5) if rng.random() < 0.15 else rng.uniform(-1.5, 1))
    m.V = [tuple(c * s for c in v) for v in m.V]
    half = 1.3 * max(abs(c) for v in m.V for c in v)
    akind, air = P19.air_field(rng, half)
    air.append(([-half] * 3, P19.rv(rng, 5)))
    air.append(([half] * 3, P19.rv(rng, 5)))
    lm_vars = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ'] + STALL
    if rng.random() < 0.4:
        lm_vars = lm_vars + ['RecoveryFactor']
        rng.shuffle(lm_vars)
    M.add_data(rng, m, lm_vars)
    thr = rng.choice([1e-6, 0.0, 0.5, 10 ** rng.uniform(-6, 0)])
    dist = s * 10 ** rng.uniform(-3, -1)
    speed = 10 ** rng.uniform(0, 2)
    dt = half / speed * 10 ** rng.uniform(-1.3, -0.2)
    limit = rng.choice([1, 4, 15, 40])
    wet = rng.choice([0.0, 0.1, 0.3, 0.8])
    cli = rng.random() < 0.25
    defaults = cli and s > 0.03 and rng.random() < 0.3
    if defaults:
        thr, dist, dt, limit = 1e-6, 1e-4, 1e-5, 200
        speed = half / 1e-5 / 10
    for d in m.data:
        r = rng.random()
        if r < wet:
            d['Stall'] = thr + 10 ** rng.uniform(-4, 1) * (thr + 1e-3)
        elif r < wet + 0.1:
            d['Stall'] = thr            # exactly at the threshold: not above
        else:
            d['Stall'] = rng.choice([0.0, thr * 0.5, -1.0, thr * (1 - 1e-9)])
        d['StallD'] = 10 ** rng.uniform(-4, -2.5) * (1 if not defaults else 10)
        c = rng.choice(m.F)
        aim = [sum(m.V[j][k] for j in c) / 3 for k in range(3)]
        me = rng.choice(m.F)
        d['_aim'] = aim
    for k, f in enumerate(m.F):
        c = [sum(m.V[j][q] for j in f) / 3 for q in range(3)]
        d = m.data[k]
        v = [a - b for a, b in zip(d.pop('_aim'), c)]
        l = math.sqrt(sum(x * x for x in v))
        if l == 0 or rng.random() < 0.3:
            v, l = P19.rv(rng, 1.0), 1.0
        if rng.random() < 0.05:
            # Carried by the air from the very start.
            v, l = [x / speed for x in air[0][1]], 1.0
        d['StallVX'], d['StallVY'], d['StallVZ'] = [speed * x / l for x in v]
    p, a, o = ctx.path('in', 'stall.dat'), ctx.path('in', 'air.dat'), ctx.path('out', 'res.dat')
    M.write_dat(m, p)
    with open(a, 'w') as h:
        h.write(air_text(rng, air))
    before = {q: open(q, 'rb').read() for q in (p, a)}
    if cli:
        opt = [] if defaults else ['-d', repr(dist), '-t', repr(dt), '-s', repr(thr), '-m', str(limit)]
        run_cli('drops.py', [p, a, o] + opt)
        ctx.count('command line runs')
    else:
        with quiet():
            for q in (p, a):
                if rng.random() < 0.4:
                    M.older(q, rng, lambda: drops.drops(p, a, ctx.path('old', 'r.dat'), dist, dt, thr, 5))
                    ctx.count('input files with other numbers before')
            drops.drops(p, a, o, dist, dt, thr, limit)
    ctx.count('runs')
    for q, b in before.items():
        ctx.check(open(q, 'rb').read() == b, 'input file {0} was changed'.format(os.path.basename(q)), monitor='inputs unchanged')
    ctx.eq(sorted(os.listdir(os.path.dirname(o))), ['res.dat', 'res.dat.tr.dat'], 'written files')
    judge(ctx, rng, m, p, o, air, dist, dt, thr, limit, akind, cli)


def judge(ctx, rng, m, p, o, air, dist, dt, thr, limit, akind, cli):
    src = M.Dat(p)
    lm = M.LoadModel(src)
    try:
        out = M.Dat(o)
        tr = traj_file(o + '.tr.dat')
    except M.ParseError as e:
        ctx.check(False, 'a written file is damaged: {0}'.format(e))
    exact = [[tuple(X.F(c) for c in lm.nodes[k]) for k in f[1]] for f in lm.faces]
    bx = FL.box(air)
    # Launches.
    want = [k for k, f in enumerate(lm.faces) if f[2]['Stall'] > thr]
    ctx.eq([n for n, _ in tr], ['Trajectory-{0}'.format(k) for k in want], 'launched droplets', monitor='launches')
    ctx.count('no flight faces', len(lm.faces) - len(want))
    land = []          # (source face, stall, surely hit faces, possibly hit faces)
    seen = set()
    for k, (name, pts) in zip(want, tr):
        ctx.count('flights')
        d = lm.faces[k][2]
        t = exact[k]
        n = X.cross(X.sub(t[1], t[0]), X.sub(t[2], t[1]))
        l = X.norm(n)
        c = [sum(float(q[j]) for q in t) / 3 + dist * float(n[j]) / l for j in range(3)]
        sc = max(abs(float(x)) for q in t for x in q) + dist
        ctx.check(all(abs(pts[0][j] - c[j]) <= 1e-12 * sc for j in range(3)),
                  lambda: 'droplet of face {0} starts at {1}, expected {2}'.format(k, pts[0], c), monitor='launches')
        what = 'droplet of face {0}'.format(k)
        vel = [d['StallVX'], d['StallVY'], d['StallVZ']]
        FL.follow(ctx, air, pts, vel, d['StallD'], dt, what)
        ctx.check(len(pts) <= limit + 1, '{0}: {1} points, limit {2}'.format(what, len(pts), limit), monitor='limit')
        sure, maybe = [], []
        for j in range(len(pts) - 1):
            ctx.check(FL.inside(bx, pts[j]), '{0}: flew on outside'.format(what), monitor='inside')
            sure, maybe = FL.hits(exact, pts[j], pts[j + 1])
            if j < len(pts) - 2:
                ctx.check(not sure, lambda: '{0}: passed through face {1}'.format(what, sure[0]), monitor='surface')
        if sure:
            ctx.count('hits')
        land.append((k, d['Stall'], sure, maybe))
        seen.add('C' if sure else 'O' if not FL.inside(bx, pts[-1]) else 'N' if len(pts) == limit + 1 else
                 'C?' if maybe else 'S')
    # The grid.
    ctx.eq(out.title, src.title or '', 'title')
    ctx.eq(out.vars, [v for v in src.vars if v not in STALL], 'variables')
    ctx.eq([z.name for z in out.zones], [z.name for z in src.zones], 'zones')
    got = out.faces()
    order = sorted(range(len(lm.faces)), key=lambda k: (lm.faces[k][0], k))
    ctx.eq(len(got), len(order), 'number of faces')
    new = {}
    for (zn, ps, data), k in zip(got, order):
        z, ns, old = lm.faces[k]
        ctx.eq(zn, lm.zone_names[z], 'zone of face {0}'.format(k))
        for q, w in zip(ps, ns):
            ctx.check(all(M.same_float(x, y) for x, y in zip(q, lm.nodes[w])), lambda: 'corner of face {0} is {1}, was {2}'.format(
                k, q, lm.nodes[w]), monitor='values compared')
        for v in out.vars[3:]:
            if v == 'MImp2':
                new[k] = data[v]
            else:
                y = 0.0 if v in ('T', 'Hw', 'Hi') else old[v]
                ctx.check(M.same_float(data[v], y), lambda: 'face {0} {1}: {2!r}, expected {3!r}'.format(k, v, data[v], y),
                          monitor='values compared')
    areas = {}

    def gain(k, stall):
        if k not in areas:
            t = exact[k]
            areas[k] = X.norm(X.cross(X.sub(t[1], t[0]), X.sub(t[2], t[0]))) / 2
        return stall / areas[k]

    def is_gain(k, src_stall):
        g = gain(k, src_stall)
        return abs(new[k] - g) <= 1e-9 * abs(g)

    changed = 0
    for k in new:
        old = lm.faces[k][2]['MImp2']
        srcs = [x for x in land if k in x[3]]
        if M.same_float(new[k], old):
            continue
        changed += 1
        ctx.check(any(is_gain(k, x[1]) for x in srcs), lambda: 'face {0}: MImp2 {1!r} was {2!r}; droplets that can have landed: {3}'.format(
            k, new[k], old, [(x[0], gain(k, x[1])) for x in srcs]), monitor='secondary impingement')
    for src_face, stall, sure, maybe in land:
        if not sure:
            continue
        # At least one of the faces it passed through carries what some droplet brought to it.
        ctx.check(any(is_gain(k, x[1]) for k in maybe for x in land if k in x[3]),
                  lambda: 'droplet of face {0} landed on {1}, but nothing was added there: {2}'.format(
                      src_face, sure, [new[k] for k in sure]), monitor='secondary impingement')
        if len(maybe) == 1 and len([x for x in land if maybe[0] in x[3]]) == 1:
            ctx.check(is_gain(maybe[0], stall), lambda: 'face {0}: MImp2 {1!r}, only the droplet of face {2} brings {3!r}'.format(
                maybe[0], new[maybe[0]], src_face, gain(maybe[0], stall)), monitor='secondary impingement')
    ctx.count('changed faces', changed)
    if want:
        ctx.sig(m.kind, len(m.F).bit_length(), len(want).bit_length(), tuple(sorted(seen)), changed, akind, cli)
    ctx.sample({'body': m.kind, 'faces': len(m.F), 'launched': len(want), 'changed': changed, 'verdicts': sorted(seen)})


def missing(ctx):
    """Input files that are not there are an error and nothing is written."""
    rng = __import__('random').Random(1)
    m = body(rng)
    M.add_data(rng, m, ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ'] + STALL)
    p, a = ctx.path('in', 'stall.dat'), ctx.path('in', 'air.dat')
    M.write_dat(m, p)
    with open(a, 'w') as h:
        h.write(air_text(rng, [((-1.0, -1.0, -1.0), (1.0, 0.0, 0.0)), ((1.0, 1.0, 1.0), (0.0, 1.0, 0.0))]))
    for k, (x, y) in enumerate([(ctx.path('no.dat'), ctx.path('no_air.dat')), (p, ctx.path('no_air.dat')), (ctx.path('no.dat'), a),
                                (os.path.dirname(p), a)]):
        o = ctx.path('o{0}'.format(k), 'r.dat')
        with ctx.raises('missing inputs ({0})'.format(k)):
            drops.drops(x, y, o, 1e-4, 1e-5, 1e-6, 10)
        ctx.eq(os.listdir(os.path.dirname(o)), [], 'files written from missing inputs ({0})'.format(k))


def fixed(ctx):
    return [('missing', missing)]
