"""P41: one grid object goes through a long history of different operations; each is judged as on a fresh grid."""
import json
import os

import numpy as np
import geom
import gsu
import remeshing

from checks import P05, P07, P13, P14
from checks.P03 import content_vs_object
from vh import atomic as A
from vh import bodies as B
from vh import decomp as D
from vh import domains as Dm
from vh import mesh as M
from vh import tong, topo
from vh.core import quiet
from vh.loadcmp import load, compare_loaded

RULE = ('distinct (family, zones, sequence of kinds of operations)')
QUICK, THOROUGH = 700, 3000
MIN = {'operations': 2000, 'edits': 1000, 'operations after edits': 700, 'growths compared': 200, 'growths after edits': 80,
       'domain_faces_compared': 8000, 'border_pairs_compared': 300, 'matrix_cells': 2000, 'faces_in_paths': 10000, 'loaded again': 40,
       'results loaded back': 8000, 'border marks': 800, 'decompositions': 250, 'fixed_zones_compared': 60, 'fresh copies compared': 110}
TIMEOUT = 120
ASSUMPTIONS = ['Edits are applied only where they are topologically admissible (as in P11), and before growing the surface is oriented, '
               'without slivers, with a definite outer side at every node.',
               'A grid with an empty zone is not loaded again (its file has no numbers for the zone).']


def mesh_of(g):
    """(V, F) of the object as it is, by lists."""
    k = {id(n): i for i, n in enumerate(g.Nodes)}
    return [tuple(float(n.P[c]) for c in range(3)) for n in g.Nodes], [tuple(k[id(n)] for n in f.Nodes) for f in g.Faces]


class History:
    def __init__(self, ctx, rng, n):
        self.ctx, self.rng, self.n = ctx, rng, n
        kind, closed, V, F = B.any_body(rng, rng.choice(['s', 's', 'm']))
        self.m = B.make(rng, V, F, [0.0] * len(F))
        self.m.kind = kind
        self.g = load(gsu, M.write_dat(self.m, ctx.path('a.dat'), rng=rng))
        self.ops, self.edited, self.turn = [], False, 0

    def where(self):
        return '{0}, {1} faces, after {2}'.format(self.m.kind, len(self.g.Faces), self.ops)

    # --- operations ---------------------------------------------------------------------------

    def edit(self):
        ctx, rng, g = self.ctx, self.rng, self.g
        for _ in range(rng.choice([1, 2, 4, 8])):
            op = rng.choice(A.OPS)
            c = A.choose(rng, g, op)
            if c is None:
                continue
            before = (len(g.Nodes), len(g.Edges), len(g.Faces))
            with quiet():
                r = A.perform(g, geom, op, *c)
            ctx.check(op == 'divide' or r, '{0}: {1} said not to apply'.format(self.where(), op))
            d = tuple(b - a for a, b in zip(before, (len(g.Nodes), len(g.Edges), len(g.Faces))))
            ctx.eq(d, A.DELTA[op], '{0}: {1}: change of numbers'.format(self.where(), op))
            ctx.count('edits')
            self.edited = True

    def decompose(self):
        ctx, rng, g = self.ctx, self.rng, self.g
        image = D.frozen_surface(g)
        method = rng.choice(D.METHODS)
        count = rng.randint(1, 4) if method == 'hierarchical' else rng.choice([1, 2, 3, 4, 6])
        names = sorted({z.Name for z in g.Zones})
        fixed = rng.sample(names, rng.randint(0, len(names))) if method in ('hierarchical', 'farhat') and rng.random() < 0.5 else []
        before = [(z.Name, {id(f) for f in z.Faces}) for z in g.Zones if z.Name in fixed]
        D.apply(g, rng, method, count, fixed or None)
        where = '{0}: {1}({2}) fixing {3}'.format(self.where(), method, count, fixed)
        ctx.count('decompositions')
        ctx.check(D.frozen_surface(g) == image, where + ': surface or face data changed')
        topo.zone_lists(ctx, g, where)
        left = list(g.Zones)
        for nm, faces in before:
            hit = [z for z in left if z.Name == nm and {id(f) for f in z.Faces} == faces]
            ctx.check(len(hit) >= 1, '{0}: fixed zone {1!r} of {2} faces is lost'.format(where, nm, len(faces)), monitor='fixed_zones_compared')
            left.remove(hit[0])
        held = sum(len(fs) for _, fs in before)
        ctx.eq(sum(len(z.Faces) for z in left), len(g.Faces) - held, where + ': faces in new zones')
        D.sizes_promised(ctx, g, method, count, left, where)
        if method == 'linear':
            D.linear_runs(ctx, g, left, where)

    def by_hand(self):
        P05.by_hand(self.ctx, self.rng, self.g, len(self.g.Faces), D.frozen_surface(self.g))
        # Faces taken out of zones go back.
        for f in self.g.Faces:
            if f.Zone is None:
                self.rng.choice(self.g.Zones).add_face(f)
        self.g.link_nodes_and_edges_to_zones()

    def domains(self):
        cs, faces, zones = P07.files(self.ctx, self.rng, self.g, self.turn, self.where())
        Dm.borders(self.ctx, cs, self.where())

    def statistics(self):
        P13.judge(self.ctx, self.rng, self.g, self.where())

    def paths(self):
        P14.paths(self.ctx, self.rng, self.g, self.m.kind, False)

    def values(self):
        for f in self.g.Faces:
            for v in f.Data:
                if self.rng.random() < 0.3:
                    f.Data[v] = self.rng.uniform(-3, 3)

    def results(self):
        """Results of faces out and back, in any order of lines."""
        ctx, rng, g = self.ctx, self.rng, self.g
        p = ctx.path('r{0}.txt'.format(self.turn))
        before = {f.GloId: dict(f.Data) for f in g.Faces}
        with quiet():
            g.store_faces_calc_data(p)
        head, *rows = open(p).read().rstrip('\n').split('\n')
        ctx.eq(sorted(int(r.split()[0]) for r in rows), list(range(len(g.Faces))), self.where() + ': identifiers in results')
        for r in rows:
            s = r.split()
            for v, x in zip(('T', 'Hw', 'Hi'), s[1:]):
                w = before[int(s[0])].get(v, 0.0)
                ctx.check(w - 1e-9 * max(1, abs(w)) <= float(x) <= w + 1 + 1e-9 * max(1, abs(w)),
                          '{0}: {1} of face {2} is {3!r}, results state {4}'.format(self.where(), v, s[0], w, x))
        # Some of the lines in any order, some of the columns or other ones.
        whole = rng.random() < 0.5
        names = ['T', 'Hw', 'Hi'] if whole else rng.choice([['T', 'Hw', 'Hi'], ['Hi', 'T'], ['T', 'Hw', 'Hi', 'Beta', 'Extra']])
        want = {}
        for r in rows if whole else rng.sample(rows, rng.randint(0, len(rows))):
            s = r.split()
            x = dict(zip(('T', 'Hw', 'Hi'), s[1:]))
            want[int(s[0])] = {v: x[v] if v in x else repr(rng.uniform(-9, 9)) for v in names}
        keys = list(want)
        rng.shuffle(keys)
        with open(p, 'w') as f:
            f.write('VARIABLES="GloId", {0}\n'.format(', '.join('"{0}"'.format(v) for v in names)))
            for k in keys:
                f.write('{0} {1}\n'.format(k, ' '.join(want[k][v] for v in names)))
        before = {f.GloId: dict(f.Data) for f in g.Faces}
        with quiet():
            g.load_faces_calc_data(p)
        for f in g.Faces:
            if f.GloId in want:
                x = {v: float(y) for v, y in want[f.GloId].items()}
                ctx.eq({v: f.Data.get(v) for v in x}, x, '{0}: results loaded to face {1}'.format(self.where(), f.GloId), 'results',
                       'results loaded back')
            else:
                ctx.eq(f.Data, before[f.GloId], '{0}: face {1} which has no results'.format(self.where(), f.GloId), 'results')

    def store(self):
        """The file states the object, and loads as it; the history may go on with what was loaded."""
        ctx, rng, g = self.ctx, self.rng, self.g
        p = ctx.path('s{0}.dat'.format(self.turn))
        with quiet():
            g.store(p)
        dat = M.Dat(p)
        content_vs_object(ctx, g, dat, self.where())
        if not all(z.Faces for z in g.Zones):
            return
        fresh = load(gsu, p)
        compare_loaded(ctx, fresh, dat, True, self.where())
        ctx.eq((len(fresh.Nodes), len(fresh.Edges), len(fresh.Faces)), (len(g.Nodes), len(g.Edges), len(g.Faces)),
               self.where() + ': numbers after loading')
        r = rng.random()
        if r < 0.4:
            # Into the used object.
            with quiet():
                g.load(p)
            compare_loaded(ctx, g, dat, True, self.where() + ', loaded into the used object')
            ctx.check(topo.snapshot(g) == topo.snapshot(fresh), self.where() + ': loading into the used object and into a new one differ')
            ctx.count('loaded again')
            self.edited = False

    def marks(self):
        ctx, g = self.ctx, self.g
        snap = topo.snapshot(g)
        with quiet():
            g.mark_all_fixed_nodes()
        on = {id(n) for e in g.Edges if len(e.Faces) == 1 for n in e.Nodes}
        ctx.check({id(n) for n in g.Nodes if n.border} == on, self.where() + ': marked nodes are not the border nodes', monitor='border marks')
        ctx.check(topo.snapshot(g) == snap, self.where() + ': marking of borders changed the grid')

    def grow(self):
        """Ice grows as the documented scheme says, everything else stays."""
        ctx, rng, g = self.ctx, self.rng, self.g
        V, F = mesh_of(g)
        if not B.sound(V, F):
            ctx.count('not for growth')
            return
        side = min(B.min_side(V, f) for f in F)
        ik, hi = B.ice_field(rng, V, F, side * rng.choice([0.01, 0.05, 0.1]))
        steps = rng.choice([1, 1, 2, 4])
        j = {'remesh_nsteps_min': steps, 'remesh_nsteps_max': steps, 'remesh_rest_volume_redistr': rng.random() < 0.5,
             'remesh_nsmooth_steps': rng.choice([0, 0, 2]), 'remesh_hsmooth_steps': rng.choice([0, 0, 2]),
             'remesh_nss_steps': rng.choice([0, 0, 0, 1])}
        o = {'s': 10.0, 'k': 0.15, 'alfa': 0.2, 'beta': 0.1, 'eps': 0.01, 'st': 0.2, 'fix': True, 'steps': steps,
             'redistribute': j['remesh_rest_volume_redistr'], 'nsmooth': j['remesh_nsmooth_steps'], 'hsmooth': j['remesh_hsmooth_steps'],
             'nss': j['remesh_nss_steps']}
        V0 = np.array(V)

        def scheme(W):
            x = tong.Scheme(W, F, hi, o)
            with np.errstate(all='ignore'):
                return x.grow(), x
        try:
            want, x = scheme(V0)
            r = np.random.RandomState(rng.randrange(2 ** 31))
            size = np.abs(V0).max()
            other = max(float(np.abs(scheme(V0 + r.uniform(-1, 1, V0.shape) * 4e-15 * size)[0] - want).max()) for _ in range(2))
        except (ArithmeticError, np.linalg.LinAlgError):
            ctx.count('scheme refuses')
            return
        tol = max(1e-7 * side, 2000 * other, 3 * x.shaky)
        if not tol < 3e-5 * side:
            ctx.count('not stable')
            return
        for f, h in zip(g.Faces, hi):
            f['Hi'] = h
        before = topo.snapshot(g)
        p = ctx.path('opt.json')
        with open(p, 'w') as f:
            json.dump(j, f)
        with quiet():
            remeshing.TongRemesher('/g.dat', p, ctx.path('rm', 'out')[:-1])(g)
        where = '{0}: growth of {1} ice with {2}'.format(self.where(), ik, j)
        after = topo.snapshot(g)
        ctx.eq([f[:4] for f in after[3]], [f[:4] for f in before[3]], where + ': connectivity')
        ctx.eq([z for z in after[4]], [z for z in before[4]], where + ': zones')
        for a, b in zip(after[3], before[3]):
            a, b = dict(a[4]), dict(b[4])
            ctx.check(float(a.pop('Hi')) == 0.0 and b.pop('Hi') is not None and a == b, where + ': face data')
        d = np.linalg.norm(np.array(mesh_of(g)[0]) - want, axis=1)
        k = int(d.argmax())
        ctx.check(float(d[k]) <= tol, lambda: '{0}: node {1} is {2:.3g} away from where the scheme puts it (shortest side {3:.3g}, '
                  'allowed {4:.3g})'.format(where, k, d[k], side, tol), 'place', 'growths compared')
        ctx.count('growths after edits', int(self.edited))

    # --- fresh copy ---------------------------------------------------------------------------

    def fresh(self):
        """Decomposition of the object and of its fresh copy agree."""
        ctx, rng, g = self.ctx, self.rng, self.g
        if not all(z.Faces for z in g.Zones):
            return
        p = ctx.path('f{0}.dat'.format(self.turn))
        with quiet():
            g.store(p)
        c = load(gsu, p)
        lists = [[f for z in x.Zones for f in z.Faces] for x in (g, c)]
        method = rng.choice(['hierarchical', 'mono'])
        count = rng.randint(2, 4)
        fixed = [rng.choice(g.Zones).Name] if rng.random() < 0.4 and len({z.Name for z in g.Zones}) == len(g.Zones) else None
        parts = []
        for x, fs in zip((g, c), lists):
            k = {id(f): i for i, f in enumerate(fs)}
            D.apply(x, rng, method, count, fixed)
            parts.append([(z.Name, sorted(k[id(f)] for f in z.Faces)) for z in x.Zones])
        ctx.eq(parts[0], parts[1], '{0}: {1}({2}) fixing {3} of the object and of its fresh copy'.format(
            self.where(), method, count, fixed), 'fresh', 'fresh copies compared')

    OPS = ['edit', 'edit', 'edit', 'decompose', 'decompose', 'by_hand', 'domains', 'statistics', 'paths', 'values', 'results', 'store',
           'marks', 'grow', 'grow', 'fresh']

    def run(self):
        ctx, rng = self.ctx, self.rng
        for self.turn in range(self.n):
            op = rng.choice(self.OPS)
            around = op == 'edit' and rng.random() < 0.5
            if around:
                self.marks()
            getattr(self, op)()
            self.ops.append(op)
            if around:
                self.marks()
            ctx.count('operations')
            ctx.count('operations after edits', int(self.edited and op != 'edit'))
            topo.integrity(ctx, self.g, where=self.where())
        ctx.sig(self.m.kind, min(len(self.m.znames), 4), tuple(self.ops))
        ctx.sample({'body': self.m.kind, 'faces': len(self.g.Faces), 'history': self.ops})


def case(ctx, rng, i):
    History(ctx, rng, rng.choice([3, 6, 10, 16])).run()
