"""P34: explosion judged node by node from a snapshot; face results written, shuffled, cut and loaded back against the text itself."""
import os

from vh import loadcmp
from vh import mesh as M
from vh.core import quiet, use_repo

RULE = 'distinct (part, family, zones, factors) and (part, share of faces listed, order, variables, rounds)'
QUICK, THOROUGH = 3600, 20000
MIN = {'explosions': 250, 'nodes moved': 10000, 'single zone': 10, 'zones without nodes': 100, 'zero factors': 40, 'results stored': 120, 'lines judged': 3000,
       'results loaded': 200, 'faces loaded': 2500, 'faces left': 1500, 'stored after explosion': 60, 'wrong results refused': 15}
ASSUMPTIONS = ['The grid to explode is loaded without merging of nodes (as the method says).',
               'The export adds a random part below one to each value (as the function says); nothing else may differ.']


def coords(g):
    return [tuple(float(n.P[k]) for k in range(3)) for n in g.Nodes]


def mean(ps):
    return [sum(p[k] for p in ps) / len(ps) for k in range(3)]


def surface(g):
    """Everything but coordinates."""
    return ([(z.Name, [id(n) for n in z.Nodes], [id(f) for f in z.Faces], [id(e) for e in z.Edges]) for z in g.Zones],
            [([id(n) for n in f.Nodes], [id(e) for e in f.Edges], {k: repr(v) for k, v in f.Data.items()}, f.GloId) for f in g.Faces],
            [([id(n) for n in e.Nodes], [id(f) for f in e.Faces]) for e in g.Edges], g.Name)


def case(ctx, rng, i):
    use_repo()
    if rng.random() < 0.55:
        explode(ctx, rng)
    else:
        results(ctx, rng)


def grid(ctx, rng, name='grid.dat', scale=True):
    m = M.random_shape(rng, rng.choice(['s', 's', 'm']))
    M.add_zones(rng, m, empty=0.15)
    if scale:
        s, o = rng.choice([1.0, 1.0, 1e-3, 1e4]), rng.choice([0.0, 0.0, 1e3])
        m.V = [tuple(float(c) * s + o * s for c in v) for v in m.V]
    M.add_data(rng, m, list(M.STD_VARS))
    p = ctx.path('in', name)
    M.write_dat(m, p)
    return m, p


def explode(ctx, rng):
    import gsu
    m, p = grid(ctx, rng)
    g = loadcmp.load(gsu, p, merge=False)
    ks = [rng.choice([0.1, 0.0, 0.25, 1.0, -0.5, 3.0, rng.uniform(-1, 1)]) for _ in range(rng.choice([1, 1, 2, 3]))]
    ctx.count('single zone', int(len(g.Zones) == 1))
    for n, k in enumerate(ks):
        before, surf = coords(g), surface(g)
        idx = {id(x): j for j, x in enumerate(g.Nodes)}
        size = max(abs(c) for q in before for c in q) or 1.0
        with quiet():
            if k == 0.1 and rng.random() < 0.5:
                g.move_from_mean_point()
            elif rng.random() < 0.5:
                g.move_from_mean_point(k=k)
            else:
                g.move_from_mean_point(k)
        ctx.count('explosions')
        ctx.count('zero factors', int(k == 0.0))
        after = coords(g)
        ctx.check(surface(g) == surf, 'explosion changed something besides coordinates', 'kept')
        gm = mean(before)
        ctx.count('zones without nodes', sum(1 for z in g.Zones if not z.Nodes))
        for z in g.Zones:
            if not z.Nodes:
                continue
            ids = sorted({idx[id(x)] for x in z.Nodes} | {idx[id(x)] for f in z.Faces for x in f.Nodes})
            zm = mean([before[j] for j in ids])
            for j in ids:
                ctx.count('nodes moved')
                for c in range(3):
                    want = before[j][c] + k * (zm[c] - gm[c])
                    ctx.check(abs(after[j][c] - want) <= 1e-9 * size * (1 + abs(k)),
                              lambda: 'explosion {0} by {1}: node {2} of zone {3} is at {4}, expected coordinate {5} is {6!r}'.format(
                                  n, k, j, z.Name, after[j], c, want), 'moved')
                if k == 0.0:
                    ctx.check(all(abs(a - b) <= 1e-15 * size for a, b in zip(before[j], after[j])), 'factor zero moves a node', 'zero')
    if rng.random() < 0.5:
        out = ctx.path('out', 'grid.dat')
        with quiet():
            g.store(out)
        d = M.Dat(out)
        ctx.count('stored after explosion')
        ctx.eq([z.name for z in d.zones], [z.Name for z in g.Zones], 'zones stored after explosion')
        for z, gz in zip(d.zones, g.Zones):
            want = [tuple(tuple(float(nd.P[c]) for c in range(3)) for nd in f.Nodes) for f in gz.Faces]
            got = [tuple(z.pts[q - 1] for q in c) for c in z.conn]
            ctx.check(got == want, 'zone {0} is stored with other coordinates after explosion'.format(gz.Name), 'stored')
    ctx.sig('explode', m.kind, len(g.Zones), [round(k, 1) for k in ks])
    ctx.sample({'zones': len(g.Zones), 'factors': ks})


def results(ctx, rng):
    import gsu
    m, p = grid(ctx, rng, scale=False)
    g = loadcmp.load(gsu, p)
    n = len(g.Faces)
    rounds = rng.choice([1, 1, 2, 3])
    ctx.sig('results', n // 10, rounds)
    for _ in range(rounds):
        store = all(v in f.Data for f in g.Faces for v in ('T', 'Hw', 'Hi')) and rng.random() < 0.6
        out = ctx.path('res', 'r{0}.txt'.format(_))
        if store:
            before, surf = [dict(f.Data) for f in g.Faces], surface(g)
            with quiet():
                g.store_faces_calc_data(out)
            ctx.count('results stored')
            ctx.check(surface(g) == surf, 'export changed the grid', 'kept')
            text = open(out).read().split('\n')
            ctx.check(text[-1] == '', 'the last line of the export is not ended')
            vs = names(text[0])
            ctx.eq(vs, ['GloId', 'T', 'Hw', 'Hi'], 'variables of the export')
            rows = [t.split() for t in text[1:-1]]
            ctx.eq(sorted(int(r[0]) for r in rows), list(range(n)), 'identifiers in the export')
            for r in rows:
                ctx.count('lines judged')
                ctx.eq(len(r), 4, 'numbers in a line')
                f = g.Faces[int(r[0])]
                ctx.eq(f.GloId, int(r[0]), 'identifier of face')
                for v, x in zip(vs[1:], r[1:]):
                    w, x = before[int(r[0])][v], float(x)
                    e = 1e-9 * max(1.0, abs(w))
                    ctx.check(w - e <= x <= w + 1 + e, lambda: '{0} of face {1} is {2!r}, exported {3!r}'.format(v, r[0], w, x), 'exported')
            head, vs, rows = text[0], vs[1:], [' '.join(r) for r in rows]
        else:
            vs = rng.choice([['T', 'Hw', 'Hi'], ['T'], ['Hi', 'T'], ['T', 'Hw', 'Hi', 'HTC', 'Beta'], ['Vd2', 'MImp2', 'T'], ['Hw', 'Hi', 'T'], []])
            sep = rng.choice([', ', ' '])
            head = rng.choice(['VARIABLES=', 'VARIABLES = ']) + sep.join('"{0}"'.format(v) for v in ['GloId'] + list(vs))
            fm = rng.choice(['{0:.18e}', '{0!r}', '{0:.3f}', '{0:d}'])
            val = (lambda: rng.randint(-50, 50)) if fm == '{0:d}' else (lambda: rng.choice([0.0, rng.uniform(-300, 300), rng.uniform(-1, 1) * 1e-12]))
            rows = [' '.join([str(k)] + [fm.format(val()) for _ in vs]) for k in range(n)]
        # Any part of it in any order.
        share = rng.choice([1.0, 1.0, 0.5, 0.1, 0.0])
        rows = [r for r in rows if rng.random() < share or share == 1.0]
        order = rng.choice(['same', 'shuffled', 'reversed'])
        if order == 'shuffled':
            rng.shuffle(rows)
        elif order == 'reversed':
            rows.reverse()
        q = ctx.path('res', 'l{0}.txt'.format(_))
        if rows and rng.random() < 0.08:
            r = rng.choice(rows).split()
            r[0] = rng.choice([str(n), str(n + 100), 'x', '1.5'])
            bad = rows + [' '.join(r)]
            write(q, head, bad, '\n')
            ctx.count('wrong results refused')
            with ctx.raises('results for the face {0} of a grid with {1} faces'.format(r[0], n), 'refused'):
                g2 = loadcmp.load(gsu, p)
                g2.load_faces_calc_data(q)
        write(q, head, rows, rng.choice(['\n', '\n', '']))
        before = [dict(f.Data) for f in g.Faces]
        pts, surf = coords(g), surface(g)
        text = open(q, 'rb').read()
        with quiet():
            g.load_faces_calc_data(q)
        ctx.count('results loaded')
        ctx.check(open(q, 'rb').read() == text, 'the result file changed', 'inputs')
        ctx.check(coords(g) == pts, 'loading of results moves nodes', 'kept')
        s2 = surface(g)
        ctx.check((s2[0], [x[:2] + x[3:] for x in s2[1]], s2[2:]) == (surf[0], [x[:2] + x[3:] for x in surf[1]], surf[2:]),
                  'loading of results changes the grid', 'kept')
        said = {int(r.split()[0]): [float(x) for x in r.split()[1:]] for r in rows}
        for k, f in enumerate(g.Faces):
            if k in said:
                ctx.count('faces loaded')
                ctx.check(dict(f.Data) == dict(zip(vs, said[k])), lambda: 'face {0} has {1}, the file lists {2}'.format(
                    k, f.Data, dict(zip(vs, said[k]))), 'loaded')
            else:
                ctx.count('faces left')
                ctx.check(f.Data == before[k], lambda: 'face {0} is not listed, but changed from {1} to {2}'.format(k, before[k], f.Data), 'left')
        ctx.sig('results', store, share, order, list(vs), rounds, n // 20)
        if not all(len(f.Data) for f in g.Faces):
            break


def names(line):
    return [x.strip().strip('"') for x in line.split('=')[1].split(',')]


def write(p, head, rows, end):
    with open(p, 'w') as f:
        f.write('\n'.join([head] + rows) + end)
