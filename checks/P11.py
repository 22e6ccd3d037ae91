"""P11: sequences of atomic transformations keep the grid consistent."""
import gsu
import geom
from vh import mesh as M, topo, atomic as A
from vh.core import quiet
from vh.loadcmp import load, compare_loaded
from checks.P03 import content_vs_object

RULE = ('random surfaces of all families and zonings get random sequences of up to 25 admissible operations (half of them placed on '
        'borders between zones when there are any); after every step the whole incidence structure, identifiers and zone lists '
        'are scanned, and the grid is stored, read by an independent reader and reloaded at random steps; non-trivial = new '
        '(family, zones, sequence of operations)')
QUICK, THOROUGH = 780, 2000
MIN = {'steps': 700, 'steps with unmerged nodes': 300, 'integrity_scans': 700, 'files_read_back': 150, 'refusals': 100, 'cross_zone_steps': 150, 'nodes asked for by place': 5000, 'places of several nodes asked for': 200, 'places of nodes removed before': 60, 'op_collapse': 50,
       'op_swap': 50, 'op_cut': 50, 'op_cut single': 50, 'op_cut two': 50, 'op_cut two border': 50, 'op_divide': 50}


def zones_around(op, t):
    fs = list(t.Faces) if op not in ('divide', 'swap') else [f for e in t.Edges for f in e.Faces]
    if op == 'collapse':
        fs = [f for n in t.Nodes for f in n.Faces]
    if op == 'divide':
        fs = [t]
    return len({id(f.Zone) for f in fs})


def prepared(ctx, rng):
    m = M.random_mesh(rng, rng.choice(['s', 's', 'm']), value=lambda r: r.uniform(-5, 5), empty=0.1)
    merge = rng.random() < 0.85
    if not merge and rng.random() < 0.5:
        M.seams(rng, m)
    g = load(gsu, M.write_dat(m, ctx.path('a.dat'), rng=rng), merge)
    g.merged = merge
    return m, g


def ask(ctx, rng, g, where):
    """Nodes are found by their places: with merging a node already there is taken."""
    nc = len(g.Nodes)
    places = {}
    for n in g.Nodes:
        places.setdefault(n.RoundedCoords, []).append(n)
    several = [n for p in places.values() if len(p) > 1 for n in p]
    for n in rng.sample(g.Nodes, min(nc, 25)) + rng.sample(several, min(len(several), 5)):
        with quiet():
            x = g.add_node(gsu.Node(geom.Vect(*A.P(n))), True)
        same = places.get(gsu.Node(geom.Vect(*A.P(n))).RoundedCoords, [n])
        ctx.count('nodes asked for by place')
        ctx.count('places of several nodes asked for', int(len(same) > 1))
        ctx.check(any(x is y for y in same), lambda: '{0}: a node asked for by the place {1} of node {2} is another one'.format(
            where, A.P(n), n.GloId), 'found')
    ctx.eq(len(g.Nodes), nc, where + ': nodes after asking for nodes by place')


def case(ctx, rng, i):
    m, g = prepared(ctx, rng)
    steps = rng.randint(1, 25 if len(g.Faces) > 4 else 8)
    hist, gone = [], []
    mix = rng.choice([A.OPS, A.OPS, A.OPS, ['collapse', 'cut'], ['collapse'], ['swap', 'collapse', 'divide']])
    for k in range(steps):
        op = rng.choice(mix)
        c = A.choose(rng, g, op)
        if c is None:
            continue
        t, pts = c
        back = [q for q in gone if A.free_place(g, q)]
        if op in ('divide', 'cut', 'cut single') and back and rng.random() < 0.4:
            # A node stood here, but it is gone.
            pts = [rng.choice(back)]
            ctx.count('places of nodes removed before')
        if op == 'collapse':
            gone += [A.P(n) for n in t.Nodes]
        before = (len(g.Nodes), len(g.Edges), len(g.Faces))
        zn = zones_around(op, t)
        where = 'step {0}: {1} after {2} on {3} ({4} zones)'.format(k, op, hist, m.kind, len(g.Zones))
        with quiet():
            r = A.perform(g, geom, op, t, pts)
        hist.append(op)
        ctx.count('steps')
        ctx.count('op_' + op)
        if zn > 1:
            ctx.count('cross_zone_steps')
        if op != 'divide':
            ctx.check(r is not False and r is not None, where + ': said not to apply')
        topo.integrity(ctx, g, where=where, merged=g.merged)
        ctx.count('steps with unmerged nodes', int(not g.merged))
        d = tuple(b - a for a, b in zip(before, (len(g.Nodes), len(g.Edges), len(g.Faces))))
        ctx.eq(d, A.DELTA[op], where + ': change of numbers of nodes, edges, faces')
        if op == 'collapse' or rng.random() < 0.3:
            ask(ctx, rng, g, where)
        if rng.random() < 0.3 or k == steps - 1:
            p = ctx.path('s{0}.dat'.format(k))
            with quiet():
                g.store(p)
            dat = M.Dat(p)
            content_vs_object(ctx, g, dat, where)
            ctx.count('reloads with a zone without faces', int(not all(len(z.Faces) for z in g.Zones)))
            g2 = load(gsu, p, g.merged)
            compare_loaded(ctx, g2, dat, g.merged, where)
            ctx.eq((len(g2.Nodes), len(g2.Edges), len(g2.Faces)), (len(g.Nodes), len(g.Edges), len(g.Faces)),
                   where + ': numbers after reload')
    # Operations that do not apply.
    inner, border, fb = A.refusals(g)
    tries = []
    v, w = geom.Vect(0.123, 4.56, 7.89), geom.Vect(0.5, 0.25, 0.75)
    if inner:
        e = rng.choice(inner)
        tries.append(('splitting an inner edge as a border one', lambda: g.cut_single_edge(e, v)))
    if border:
        b = rng.choice(border)
        tries.append(('splitting a border edge as an inner one', lambda: g.cut_edge(b, v)))
        tries.append(('collapsing a border edge', lambda: g.collapse_edge(b)))
    if fb:
        f = rng.choice(fb)
        tries.append(('swapping a border edge', lambda: g.collapse_face(f)))
    for what, fn in tries:
        snap = topo.snapshot(g)
        with quiet():
            r = fn()
        ctx.check(not r, what + ' did not say that it does not apply', monitor='refusals')
        ctx.check(topo.snapshot(g) == snap, what + ' changed the grid')
    if hist:
        ctx.sig(m.kind, len(m.znames), tuple(hist))
    ctx.sample({'kind': m.kind, 'faces': len(m.F), 'zones': len(m.znames), 'history': hist,
                'after': [len(g.Nodes), len(g.Edges), len(g.Faces)]})
