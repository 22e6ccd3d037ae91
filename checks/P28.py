"""P28: random triples of solver files through the ANSYS converter; every quad and every value is found again in the output."""
import os

import numpy as np

from vh import mesh as M
from vh.core import run_cli, tree_bytes, use_repo

RULE = 'distinct (zones in files, zones chosen, normals, kinds of quads met, extra variables, size bucket)'
QUICK, THOROUGH = 1800, 12000
MIN = {'conversions': 150, 'faces judged': 3000, 'whole quads': 300, 'repeated corners': 800, 'values judged': 15000, 'rejections': 10,
       'reversed': 40, 'origin': 40, 'zones left out': 40, 'broken coordinates': 2, 'close temperatures': 2000}
ASSUMPTIONS = ['Variables of the solver files go in the order the solver writes them (others may stand between).',
               'Surface and adiabatic temperatures of a node differ by more than 0.01 K; nodes are at least 1e-3 apart.',
               'Names of zones contain no comma, quote or equality sign.',
               'A quad whose opposite corners are the same has no orientation: both are accepted; either diagonal of a quad is accepted.']
TOL = 2e-6


def quads(rng, m):
    """Quads (some with repeated corners) that cut into triangles without over-used edges: [(zone, quad, kind)]."""
    edges = set()
    for f in m.F:
        for k in range(3):
            edges.add(frozenset((f[k], f[k - 1])))
    by = {}
    for i, f in enumerate(m.F):
        for k in range(3):
            by.setdefault(frozenset((f[k], f[(k + 1) % 3])), []).append(i)
    used, res = set(), []
    order = list(range(len(m.F)))
    rng.shuffle(order)
    share = rng.choice([0.0, 0.5, 1.0, 1.0])
    for i in order:
        if i in used:
            continue
        f = m.F[i]
        done = False
        if rng.random() < share:
            for k in range(3):
                # Quad made over the edge (p, q) of the face (p, q, r).
                p, q, r = f[k], f[(k + 1) % 3], f[(k + 2) % 3]
                o = [j for j in by[frozenset((p, q))] if j != i]
                if len(o) != 1 or o[0] in used or m.zone[o[0]] != m.zone[i]:
                    continue
                s = [v for v in m.F[o[0]] if v not in (p, q)][0]
                if s == r or frozenset((r, s)) in edges:
                    continue
                t = m.F[o[0]]
                if (q, p) not in [(t[x], t[(x + 1) % 3]) for x in range(3)]:
                    continue
                edges.add(frozenset((r, s)))
                quad = [r, p, s, q]
                x = rng.randrange(4)
                res.append((m.zone[i], tuple(quad[x:] + quad[:x]), 'whole'))
                used |= {i, o[0]}
                done = True
                break
        if done:
            continue
        used.add(i)
        a, b, c = f
        kind = rng.choice(['12', '23', '34', '41', '12', '23', '34', '41', '13', '24'])
        quad = {'12': (a, a, b, c), '23': (a, b, b, c), '34': (a, b, c, c), '41': (a, b, c, a),
                '13': (a, b, a, c), '24': (a, b, c, b)}[kind]
        res.append((m.zone[i], quad, kind))
    return res


def fmt(rng):
    return rng.choice(['{0:.6E}', '{0:.9f}', '{0!r}', '{0:15.8E}'])


FENSAP = ['X', 'Y', 'Z', 'Static temperature', 'SF1', 'SF2', 'SF3', 'Classical heat flux']
DROP = ['X', 'Y', 'Z', 'Collection efficiency-Droplet']
ADIA = ['X', 'Y', 'Z', 'Static temperature']
UNITS = {'Static temperature': ' (K)', 'SF1': '-Shear stress (Pa)', 'SF2': '-Shear stress (Pa)', 'SF3': '-Shear stress (Pa)',
         'Classical heat flux': ' (W/m^2)', 'Collection efficiency-Droplet': ' (0-1)'}
EXTRA = ['Static pressure (N/m^2)', 'Density (kg/m^3)', 'Mach number', 'V1-Velocity (m/s)', 'Gresho heat flux (W/m^2)', 'Dry air',
         'Total temperature (K)', 'x', 'XX', 'Droplet LWC', 'y+']


def header(rng, names):
    """Variables of a file: the needed ones in order, others between them: [(title, needed or None)]."""
    full, pre = rng.random() < 0.5, rng.random() < 0.3
    ex = rng.sample(EXTRA, rng.choice([0, 0, 1, 3, 6]))
    res = [((rng.choice(['', 'Wall ', ' ', 'Mean-']) if pre and n in UNITS else '') + n + (UNITS.get(n, '') if full else ''), n) for n in names]
    for e in ex:
        res.insert(rng.randint(rng.choice([0, 3]), len(res)), (e, None))
    return res


def write(rng, path, zones, heads, values, order, title):
    f = fmt(rng)
    with open(path, 'w') as o:
        if title:
            o.write('TITLE="{0}"\n'.format(title))
        o.write('VARIABLES=' + ','.join('"{0}"'.format(t) for t, _ in heads) + '\n')
        for z in zones:
            o.write('ZONE T="{0}", N={1}, E={2}, {3}\n'.format(z.name, len(z.nodes), len(z.quads),
                                                             rng.choice(['ET=QUADRILATERAL, F=FEPOINT', 'F=FEPOINT,ET=QUADRILATERAL'])))
            for k in range(len(z.nodes)):
                row = []
                for t, n in heads:
                    if n is None:
                        row.append('{0:.4f}'.format(rng.uniform(-9, 9)))
                    elif n in 'XYZ':
                        row.append(z.text[k]['XYZ'.index(n)])
                    else:
                        s = f.format(values[z.name][n][k])
                        values[z.name][n][k] = float(s)
                        row.append(s)
                o.write(' '.join(row) + '\n')
            for q in z.quads:
                o.write(rng.choice([' ', '']) + ' '.join(str(v + 1) for v in q) + '\n')


class Zone:
    pass


def build(ctx, rng):
    while True:
        m = M.random_shape(rng, rng.choice(['s', 's', 'm']))
        if len(m.F) <= 400:
            break
    M.add_zones(rng, m)
    # Spread nodes apart.
    s = rng.choice([1.0, 30.0, 1.0])
    P = np.array(m.V) * s
    P = np.round(P, 5)
    for i in range(len(P)):
        for j in range(i):
            if np.abs(P[i] - P[j]).max() < 1e-3:
                return None
    cf = rng.choice(['{0:.5f}', '{0:.9E}', '{0!r}', '{0:.5f}'])
    text = [[cf.format(float(c)) for c in p] for p in P]
    coord = [tuple(float(c) for c in t) for t in text]
    if rng.random() < 0.05:
        # A coordinate that the solver failed to write (too small for two digits of exponent) counts as zero.
        k = rng.randrange(len(P))
        c = rng.randrange(3)
        p = list(coord[k])
        p[c] = 0.0
        if all(max(abs(a - b) for a, b in zip(p, q)) > 1e-3 for j, q in enumerate(coord) if j != k):
            coord[k] = tuple(p)
            text[k][c] = '1.2345678-101'
            ctx.count('broken coordinates')
    qs = quads(rng, m)
    names = ['wall', 'wall 1', 'wall 10', 'WALL', 'wing-upper', 'wing', '4', 'BC_WALL_2001', 'E=', 'tail part']
    names = [n for n in names if '=' not in n]
    nz = max(m.zone) + 1
    names = rng.sample(names, min(nz, len(names))) + ['z{0}'.format(k) for k in range(max(0, nz - len(names)))]
    zones = []
    for z in range(nz):
        mine = [(q, k) for zz, q, k in qs if zz == z]
        if not mine:
            continue
        o = Zone()
        o.name = names[z]
        ids = sorted({v for q, _ in mine for v in q})
        rng.shuffle(ids)
        loc = {v: k for k, v in enumerate(ids)}
        o.nodes = ids
        o.text = [text[v] for v in ids]
        o.coord = [coord[v] for v in ids]
        o.quads = [tuple(loc[v] for v in q) for q, _ in mine]
        o.kinds = [k for _, k in mine]
        zones.append(o)
    return zones


def case(ctx, rng, i):
    use_repo()
    zones = None
    while zones is None:
        zones = build(ctx, rng)
    base = rng.choice(['case', 'a.b', 'wing_000000000100', 'naca-0012'])
    d = os.path.dirname(ctx.path('in', 'x'))
    same = rng.random() < 0.1
    T0, V0, CP = rng.uniform(230, 280), rng.uniform(5, 150), rng.choice([1006.0, rng.uniform(900, 1100)])
    fv, dv, av = {}, {}, {}
    const = rng.random() < 0.1
    for z in zones:
        n = len(z.nodes)
        u = (lambda a, b: (lambda k: [k] * n)(rng.uniform(a, b))) if const else (lambda a, b: [rng.uniform(a, b) for _ in range(n)])
        av[z.name] = {'Static temperature': u(T0 - 5, T0 + 20)}
        near = rng.random() < 0.3
        if near:
            ctx.count('close temperatures', n)
        fv[z.name] = {'SF1': u(-50, 50), 'SF2': u(-5, 5), 'SF3': u(-1, 1), 'Classical heat flux': u(-20000, 20000),
                      'Static temperature': [t + rng.choice([-1, 1]) * (10 ** rng.uniform(-1.7, 0.5) if near else rng.uniform(3, 40)) for t in av[z.name]['Static temperature']]}
        dv[z.name] = {'Collection efficiency-Droplet': [0.0] * n if rng.random() < .2 else u(0, 1)}
    hf, hd, ha = header(rng, FENSAP), header(rng, DROP), header(rng, ADIA)
    title = rng.choice(['', 'Solution of solver'])
    pf = [os.path.join(d, '{0}.{1}.dat'.format(base, k)) for k in ('fensap', 'drop3d', 'adiabatic')]
    for p, h, v in zip(pf, (hf, hd, ha), (fv, dv, av)):
        write(rng, p, zones, h, v, None, title)
    names = [z.name for z in zones]
    chosen = names if rng.random() < 0.4 else rng.sample(names, rng.randint(1, len(names)))
    arg = list(chosen)
    rng.shuffle(arg)
    if rng.random() < 0.2:
        arg.insert(rng.randint(0, len(arg)), rng.choice(['wal', 'none', 'wall 100']))
    n = rng.choice([None, 'origin', 'reversed'])
    argv = [os.path.join(d, base), ','.join(arg), '-t', repr(T0), '-v', repr(V0), '-cp', repr(CP)] + (['-n', n] if n else [])
    if rng.random() < 0.12:
        how = rng.choice(['fensap', 'drop3d', 'adiabatic', 'normals', 'short'])
        if how == 'normals':
            argv += ['-n', 'other']
        elif how == 'short':
            # Rows of quads are missing before the next zone, or a row of a needed zone is cut.
            p = pf[0]
            rows = open(p).read().split('\n')
            k = [x for x, r in enumerate(rows) if 'ZONE' in r and any('T="{0}"'.format(c) in r for c in chosen)][0]
            rows[k + 1] = ' '.join(rows[k + 1].split()[:2])
            with open(p, 'w') as o:
                o.write('\n'.join(rows))
        else:
            os.remove(pf[('fensap', 'drop3d', 'adiabatic').index(how)])
        with ctx.raises('conversion with wrong input: ' + how, how):
            run_cli('convert/ansys_to_crystal.py', argv)
        ctx.sig('refused', how)
        return
    before = [open(p, 'rb').read() for p in pf]
    run_cli('convert/ansys_to_crystal.py', argv)
    ctx.count('conversions')
    ctx.check([open(p, 'rb').read() for p in pf] == before, 'input files changed', monitor='inputs')
    rev = n != 'origin'
    ctx.count('reversed' if rev else 'origin')
    ctx.count('zones left out', len(names) - len(chosen))
    out = M.Dat(os.path.join(d, base + '.dat'))
    want = [z for z in zones if z.name in chosen]
    ctx.eq([z.name for z in out.zones], [z.name for z in want], 'zones of the output')
    ks = set()
    for z, o in zip(want, out.zones):
        judge(ctx, z, o, fv[z.name], dv[z.name], av[z.name], T0, V0, CP, rev)
        ks |= set(z.kinds)
    ctx.sig(len(zones), len(chosen), n, sorted(ks), len(hf) - 8, sum(len(z.quads) for z in want) // 20)
    ctx.sample({'zones': names, 'chosen': arg, 'normals': n, 'quads': [len(z.quads) for z in zones]})


def judge(ctx, z, o, fv, dv, av, T0, V0, CP, rev):
    C = np.array(z.coord)
    ids = []
    for p in o.pts:
        d = np.abs(C - np.array(p)).max(axis=1)
        k = int(d.argmin())
        ctx.check(d[k] <= TOL, lambda: 'zone {0}: node {1} is not a node of the input'.format(z.name, p), 'node')
        ids.append(k)
    ctx.eq(len(set(ids)), len(ids), 'zone {0}: distinct nodes'.format(z.name))
    k = 2 * CP / (V0 * V0)
    ts, st, fl = fv['Static temperature'], av['Static temperature'], fv['Classical heat flux']
    N = {'HTC': [-fl[i] / (ts[i] - st[i]) for i in range(len(C))], 'RecoveryFactor': [(st[i] - T0) * k for i in range(len(C))],
         'Beta': dv['Collection efficiency-Droplet'], 'TauX': fv['SF1'], 'TauY': fv['SF2'], 'TauZ': fv['SF3']}
    for v in N:
        ctx.check(v in o.data, lambda: 'zone {0}: no variable {1}'.format(z.name, v))
    tri = {}
    for x, c in enumerate(o.conn):
        tri.setdefault(M.cyc(tuple(ids[j - 1] for j in c)), []).append(x)
    used = []
    for q, kind in zip(z.quads, z.kinds):
        c = tuple(reversed(q)) if rev else q
        if kind == 'whole':
            ctx.count('whole quads')
            cuts = [((c[0], c[1], c[2]), (c[0], c[2], c[3])), ((c[0], c[1], c[3]), (c[1], c[2], c[3]))]
        else:
            ctx.count('repeated corners')
            t = []
            for v in c:
                if v not in t:
                    t.append(v)
            cuts = [(tuple(t),)] + ([(tuple(reversed(t)),)] if kind in ('13', '24') else [])
        found = [[x for t in cut for x in tri.get(M.cyc(t), [])] for cut in cuts]
        found = [f for f, cut in zip(found, cuts) if len(f) == len(cut)]
        ctx.check(len(found) == 1, lambda: 'zone {0}: quad {1} ({2}, {3}) is not given by triangles that tile it'.format(
            z.name, q, kind, 'reversed' if rev else 'origin'), 'tiling')
        used += found[0]
    ctx.eq(sorted(used), list(range(len(o.conn))), 'zone {0}: faces used'.format(z.name))
    for x, c in enumerate(o.conn):
        ctx.count('faces judged')
        t = [ids[j - 1] for j in c]
        for v, r in N.items():
            want = sum(r[i] for i in t) / 3
            ctx.count('values judged')
            got = o.data[v][x]
            ctx.check(abs(got - want) <= 1.5e-6 + 1e-9 * abs(want) + 1e-9 * max(abs(r[i]) for i in t),
                      lambda: 'zone {0}: {1} of face {2} is {3!r}, the mean of its nodes is {4!r}'.format(z.name, v, x, got, want), v)
