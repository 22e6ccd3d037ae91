"""P03: store / load round trip."""
import os
import geom
import gsu
from vh import mesh as M, topo
from vh.core import REPO, quiet
from vh.loadcmp import load, compare_loaded

RULE = ('random grids with extreme coordinates and values, re-zoned by random sequences of decompositions and value '
        'changes, stored, read by an independent reader, reloaded and stored again; non-trivial = new (family, zone sizes, '
        'variables, history)')
QUICK, THOROUGH = 1980, 3960
MIN = {'files_read_back': 400, 'numbers_compared': 20000, 'corners_compared': 20000}


def odd_coords(rng, m):
    s = 10.0 ** rng.randint(-6, 6)
    off = [rng.choice([0.0, 0.0, 1e5, -3.7]) for _ in range(3)]
    m.V = [tuple(x * s + o for x, o in zip(v, off)) for v in m.V]
    if rng.random() < 0.3:
        k = rng.randrange(3)
        m.V = [tuple(-0.0 if j == k and abs(x) < s * 1e-9 else x for j, x in enumerate(v)) for v in m.V]
    return m


def content_vs_object(ctx, g, dat, where):
    """The file states exactly what the object holds."""
    ctx.count('files_read_back')
    ctx.eq(dat.title, g.Name, where + ': title')
    want_vars = ['X', 'Y', 'Z'] + list(g.Faces[0].Data.keys())
    ctx.eq(dat.vars, want_vars, where + ': variables')
    ctx.eq([z.name for z in dat.zones], [z.Name for z in g.Zones], where + ': zones')
    for z, dz in zip(g.Zones, dat.zones):
        ctx.eq(dz.elements, len(z.Faces), where + ': faces of zone ' + z.Name)
        ctx.eq(dz.nodes, len({id(n) for f in z.Faces for n in f.Nodes}), where + ': nodes of zone ' + z.Name)
        names = {}
        for i, f in enumerate(z.Faces):
            for k in range(3):
                n, l = id(f.Nodes[k]), dz.conn[i][k]
                ctx.check(names.setdefault(('node', n), l) == l and names.setdefault(('number', l), n) == n,
                          lambda: '{0}: face {1} of zone {2} corner {3}: nodes and numbers do not match one to one'.format(where, i, z.Name, k),
                          monitor='corners_compared')
                p, q = dz.pts[dz.conn[i][k] - 1], f.Nodes[k].P
                for t in range(3):
                    ctx.check(M.same_float(p[t], float(q[t])), lambda: '{0}: face {1} of zone {2} corner {3}: stored {4}, '
                              'grid has {5}'.format(where, i, z.Name, k, p, q), monitor='numbers_compared')
            for v in dat.vars[3:]:
                ctx.check(M.same_float(dz.data[v][i], float(f.Data.get(v, 0.0))),
                          lambda: '{0}: face {1} of zone {2} {3}: stored {4!r}, grid has {5!r}'.format(
                              where, i, z.Name, v, dz.data[v][i], f.Data.get(v)), monitor='numbers_compared')


def rezone(rng, g):
    op = rng.choice(['mono', 'linear', 'random', 'farhat', 'hier'])
    n = rng.randint(1, 6)
    with quiet():
        if op == 'mono':
            g.decompose_mono()
        elif op == 'linear':
            g.decompose_linear(n)
        elif op == 'random':
            import random
            random.seed(rng.random())
            g.decompose_random(n)
        elif op == 'farhat':
            g.decompose_farhat(n)
        else:
            # Splitting stops at pieces whose centers cannot be told apart.
            g.decompose_hierarchical(levels=rng.randint(1, 3))
    return op


def case(ctx, rng, i):
    m = M.random_mesh(rng, M.any_size(rng, 's', 's', 'm'), move=0.3, empty=0.1)
    odd_coords(rng, m)
    if rng.random() < 0.15:
        M.seams(rng, m)
    path = M.write_dat(m, ctx.path('in.dat'), order=rng.choice(['used', 'sorted', 'random']), rng=rng)
    dat0 = M.Dat(path)
    lm = M.LoadModel(dat0)
    if any(len(v) > 2 for v in lm.edges.values()) or any(len(set(f[1])) < 3 for f in lm.faces):
        # Merging collapsed the tiny surface.
        ctx.count('generated_invalid')
        return
    merge = rng.random() < 0.75
    g = load(gsu, path, merge)
    hist = [] if merge else ['unmerged']
    for _ in range(rng.randint(0, 3)):
        if rng.random() < 0.6:
            hist.append(rezone(rng, g))
        elif rng.random() < 0.3:
            # Nodes are moved, as tools do it.
            s = 10.0 ** rng.randint(-3, 2)
            for n in g.Nodes:
                n.P = geom.Vect(n.P.X + rng.uniform(0, s), n.P.Y, n.P.Z - rng.uniform(0, s))
            hist.append('moved')
        else:
            for f in g.Faces:
                for v in m.vars:
                    if rng.random() < 0.5:
                        f[v] = M.any_value(rng)
            hist.append('values')
    if rng.random() < 0.3:
        g.Name = rng.choice(['', 'renamed grid', 'x'])
    snap = topo.snapshot(g)
    p1, p2 = ctx.path('one.dat'), ctx.path('two.dat')
    with quiet():
        g.store(p1)
    ctx.check(topo.snapshot(g) == snap, 'storing changed the grid')
    d1 = M.Dat(p1)
    content_vs_object(ctx, g, d1, 'first store')
    g2 = load(gsu, p1, merge)
    compare_loaded(ctx, g2, d1, merge, 'reload')
    with quiet():
        g2.store(p2)
    d2 = M.Dat(p2)
    content_vs_object(ctx, g2, d2, 'second store')
    if all(z.elements > 0 for z in d1.zones):
        # One more generation must reproduce the file (node order is settled by the first load).
        g3 = load(gsu, p2, merge)
        p3 = ctx.path('three.dat')
        with quiet():
            g3.store(p3)
        ctx.check(open(p2, 'rb').read() == open(p3, 'rb').read(), 'storing what was reloaded gives other bytes')
        ctx.count('fixed_points')
    ctx.eq([(a, b, sorted(c.items())) for a, b, c in d1.faces()],
           [(a, b, sorted(c.items())) for a, b, c in d2.faces()], 'faces after the round trip')
    ctx.sig(m.kind, tuple(z.elements for z in d1.zones), tuple(m.vars), tuple(hist))
    ctx.sample({'kind': m.kind, 'zones': [z.elements for z in d1.zones], 'history': hist, 'vars': m.vars})


def fixed(ctx):
    def sample(ctx, name):
        p = os.path.join(REPO, 'cases', 'grids', name + '.dat')
        g = load(gsu, p)
        q = ctx.path('o.dat')
        with quiet():
            g.store(q)
        d, e = M.Dat(p), M.Dat(q)
        ctx.eq(e.faces(), d.faces(), 'faces of sample ' + name)
        content_vs_object(ctx, g, e, name)
        ctx.sig('sample', name)
    return [(n, lambda ctx, n=n: sample(ctx, n)) for n in ('small', 'wing_1', 'wing_1_mz')]
