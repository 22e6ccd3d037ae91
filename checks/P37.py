"""
P37: a calculation over the whole chain of tools. A stand-in of the solver works only with domain files (as the real one does), exchanges
values over the stated borders, and writes result files; merging and remeshing follow. The same calculation is done on the undivided
mesh by the reference, which never reads anything the tools have written. Means are rounded once, so results must agree in every bit.
"""
import json
import math
import os

from vh import bodies as B
from vh import mesh as M
from vh.core import run_cli, use_repo

RULE = 'distinct (strategy, domains, fixed zones, steps, body, number of zones, remeshed or not, faces bucket)'
QUICK, THOROUGH = 450, 4500
MIN = {'chains': 130, 'values compared after merging': 15000, 'values exchanged': 4000, 'domain files read': 400,
       'chains remeshed': 30, 'remeshed nodes compared': 2000}
ASSUMPTIONS = ['The stand-in of the solver reads domain files by its own strict reader and trusts nothing but these files.',
               'Node coordinates of the mesh are written exactly, so no two nodes are joined by rounding.']


def setup(ctx):
    use_repo()


def solve_whole(m, steps):
    """[{face: (T, Hw)}] after every step, on the undivided mesh."""
    es = M.edge_faces(m.F)
    nb = [[] for _ in m.F]
    for fs in es.values():
        if len(fs) == 2:
            a, b = fs
            nb[a].append(b)
            nb[b].append(a)
    u = [d['T'] for d in m.data]
    w = [start(d['T'], d['Hw'], [m.V[k] for k in f]) for d, f in zip(m.data, m.F)]
    res = []
    for _ in range(steps):
        u = [step([u[f]] * 2 + [u[q] for q in nb[f]]) for f in range(len(m.F))]
        w = [step([w[f]] + [w[q] for q in nb[f]]) for f in range(len(m.F))]
        res.append(list(zip(u, w)))
    return res


def step(vs):
    return math.fsum(vs) / len(vs)


def start(t, hw, pts):
    return math.fsum([t, hw] + [c for p in pts for c in p])


class Solver:
    """Processes of a calculation: one per domain file."""

    def __init__(self, ctx, d, base, ts):
        names = sorted(x for x in os.listdir(d) if x.endswith('.cry'))
        self.base = base
        self.D = [M.Cry(os.path.join(d, nm)) for nm in names]
        ctx.count('domain files read', len(names))
        for r, (c, nm) in enumerate(zip(self.D, names)):
            ctx.eq((nm, c.rank), ('{0}_{1:05d}_{2}.cry'.format(base, r, ts), r), 'name and rank of a domain file')
        self.ctx = ctx
        self.state = []
        for c in self.D:
            ef = [[] for _ in range(c.edges)]
            for f, e3 in enumerate(c.fe):
                for e in e3:
                    ef[e].append(f)
            c.ef = ef
            u = list(c.data['T'])
            w = [start(c.data['T'][f], c.data['Hw'][f], [c.pts[k] for k in c.fn[f]]) for f in range(c.faces)]
            self.state.append([u, w])

    def step(self):
        ghosts = []
        for r, c in enumerate(self.D):
            g = {}
            for k, es in c.borders.items():
                o = self.D[k]
                if r not in o.borders or len(o.borders[r]) != len(es):
                    self.ctx.check(False, 'domain {0} waits for {1} values from domain {2}, which sends {3}'.format(
                        r, len(es), k, len(o.borders.get(r, []))), 'exchange')
                for mine, his in zip(es, o.borders[r]):
                    self.ctx.count('values exchanged')
                    self.ctx.check(len(o.ef[his]) == 1, 'domain {0} sends from an edge with {1} faces'.format(k, len(o.ef[his])), 'exchange')
                    f = o.ef[his][0]
                    self.ctx.check(mine not in g, 'domain {0} receives two values for edge {1}'.format(r, mine), 'exchange')
                    g[mine] = tuple(s[f] for s in self.state[k])
            ghosts.append(g)
        new = []
        for r, c in enumerate(self.D):
            s = self.state[r]
            res = [[], []]
            for f in range(c.faces):
                for v in range(2):
                    vs = [s[v][f]] * (2 - v)
                    for e in c.fe[f]:
                        vs += [s[v][q] for q in c.ef[e] if q != f]
                        if e in ghosts[r]:
                            vs.append(ghosts[r][e][v])
                    res[v].append(step(vs))
            new.append(res)
        self.state = new

    def write(self, rng, d, ts, scale):
        for r, c in enumerate(self.D):
            rows = list(range(c.faces))
            rng.shuffle(rows)
            with open(os.path.join(d, '{0}_{1:05d}_{2}.txt'.format(self.base, r, ts)), 'w') as f:
                f.write('VARIABLES="GloId", "T", "Hw", "Hi"\n')
                for k in rows:
                    u, w = self.state[r][0][k], self.state[r][1][k]
                    f.write('{0} {1!r} {2!r} {3!r}\n'.format(c.gloid[k], u, w, ice(u, w, scale)))


def ice(u, w, scale):
    return scale * (0.5 + 0.5 * math.sin(u + w))


def case(ctx, rng, i):
    body = rng.random() < 0.45
    if body:
        kind, closed, V, F = B.any_body(rng)
        m = B.make(rng, V, F, [0.0] * len(F))
    else:
        m = M.random_mesh(rng, rng.choice(['s', 'm', 'm']))
        kind = m.kind
        M.add_data(rng, m, B.STD)
    keys = {M.rkey(v) for v in m.V}
    if len(keys) != len(m.V) or len(m.F) == 0:
        ctx.trivial += 1
        return
    for d in m.data:
        d['T'], d['Hw'] = rng.uniform(-40, 40), rng.uniform(0, 1)
    side = min([B.min_side(m.V, f) for f in m.F])
    scale = 0.05 * side
    base = rng.choice(['grid', 'wing_1', 'a.b'])
    ts = '{0:012d}'.format(rng.randrange(10 ** 6))
    src = ctx.path('in', base + '_' + ts + '.dat')
    M.write_dat(m, src, rng=rng)
    order = [f for z in m.by_zone() for f in z]
    n = len(order)

    zones = [m.znames[k] for k, z in enumerate(m.by_zone()) if z]
    fixed = rng.sample(zones, rng.randint(1, len(zones) - 1)) if len(zones) > 1 and rng.random() < 0.35 else []
    if fixed and set(zones) == set(fixed):
        fixed = []
    if rng.random() < 0.5:
        s = 'h{0}'.format(rng.randint(0, 4))
    else:
        free = n - sum(1 for f in range(n) if m.znames[m.zone[f]] in fixed)
        s = 'n{0}'.format(len(fixed) + rng.randint(1, max(1, min(free, 12))))
    args = []
    if fixed:
        p = ctx.path('conf.json')
        with open(p, 'w') as f:
            json.dump({'heating_system': {'elements': [{'zone': z, 'power': 1} for z in fixed]}}, f)
        args = ['-j', p]
    cry = os.path.dirname(ctx.path('cry', 'x'))
    run_cli('split.py', [src, '-c', cry, '-s', s] + args)
    sol = Solver(ctx, cry, base, ts)
    where = '{0} faces, strategy {1}, {2} domains, fixed {3}'.format(n, s, len(sol.D), fixed)
    ctx.eq(sorted(k for c in sol.D for k in c.gloid), list(range(n)), where + ': faces of domains')

    steps = rng.randint(1, 4)
    ref = solve_whole(m, steps)
    res, out = os.path.dirname(ctx.path('res', 'x')), os.path.dirname(ctx.path('merged', 'x'))
    stamps = ['{0:012d}'.format(10 ** 6 + 10 * k) for k in range(steps)]
    for k in range(steps):
        sol.step()
        sol.write(rng, res, stamps[k], scale)
    run_cli('merge.py', [src, res, out])
    ctx.count('chains')
    ctx.eq(sorted(x for x in os.listdir(out) if x.endswith('.dat')), ['{0}_r_{1}.dat'.format(base, t) for t in stamps], where + ': merged grids')
    for k in range(steps):
        d = M.Dat(os.path.join(out, '{0}_r_{1}.dat'.format(base, stamps[k])))
        fs = d.faces()
        ctx.eq(len(fs), n, where + ': faces after merging')
        ctx.eq([z.name for z in d.zones], zones, where + ': zones after merging')
        for q, (zone, pts, data) in zip(order, fs):
            u, w = ref[k][q]
            ctx.check(zone == m.znames[m.zone[q]] and M.cyc(pts) == M.cyc([tuple(float(c) for c in m.V[v]) for v in m.F[q]]),
                      lambda: '{0}: face {1} of zone {2} is {3} of zone {4} after merging'.format(where, q, m.znames[m.zone[q]], pts, zone), 'place')
            for v, x in (('T', u), ('Hw', w), ('Hi', ice(u, w, scale))):
                ctx.count('values compared after merging')
                ctx.check(data[v] == x, lambda: '{0}: {1} of face {2} after {3} steps is {4!r}, on one domain it is {5!r}'.format(
                    where, v, q, k + 1, data[v], x), 'value')

    again = body and rng.random() < 0.6
    if again:
        opts = B.options(rng)
        j = ctx.path('o.json')
        with open(j, 'w') as f:
            json.dump(opts, f)
        fin = os.path.dirname(ctx.path('final', 'x'))
        run_cli('remesh.py', ['-d', out, '-o', fin, '-j', j])
        ctx.count('chains remeshed')
        ctx.eq(sorted(os.listdir(fin)), ['{0}_{1}.dat'.format(base, t) for t in stamps], where + ': remeshed grids')
        k = rng.randrange(steps)
        for q, d in enumerate(m.data):
            u, w = ref[k][q]
            d['T'], d['Hw'], d['Hi'] = u, w, ice(u, w, scale)
        one = os.path.dirname(ctx.path('one', 'x'))
        M.write_dat(m, os.path.join(one, 'g.dat'))
        run_cli('remesh.py', ['-g', os.path.join(one, 'g.dat'), '-o', os.path.join(one, 'o'), '-j', j])
        a = M.Dat(os.path.join(fin, '{0}_{1}.dat'.format(base, stamps[k]))).faces()
        b = M.Dat(os.path.join(one, 'o', 'g.dat')).faces()
        ctx.eq(len(a), len(b), where + ': faces after remeshing')
        tol = 1e-7 * max(abs(c) for v in m.V for c in v) + 1e-12
        for (za, pa, da), (zb, pb, db) in zip(a, b):
            ctx.count('remeshed nodes compared', 3)
            # Faces may start from another corner.
            ok = any(all(math.dist(pa[x], pb[(x + s) % 3]) <= tol for x in range(3)) for s in range(3))
            ctx.check(ok, lambda: '{0}: a remeshed face is {1}, on one domain it is {2} ({3})'.format(where, pa, pb, opts), 'remeshed')
            ctx.check(all(da[v] == db[v] for v in ('T', 'Hw', 'Hi')),
                      lambda: '{0}: values {1} after remeshing, on one domain {2}'.format(where, da, db), 'remeshed')
    ctx.sig(s, len(sol.D), len(fixed), steps, kind, len(zones), again, n // 30)
    ctx.sample({'faces': n, 'strategy': s, 'fixed': fixed, 'steps': steps, 'remeshed': again})
