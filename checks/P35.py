"""P35: reporting and exporting never change a grid and report true numbers."""
import os
import re
import math
import gsu
from vh import mesh as M, decomp as D, topo
from vh.core import quiet, tree_bytes
from vh.loadcmp import load
from checks.P07 import prepared

RULE = ('random grids and zonings get random sequences of reporting and exporting calls, each done twice with other calls in '
        'between; snapshots of everything observable before and after are compared, outputs of repeated calls are compared, and '
        'printed numbers are compared with direct counts; non-trivial = new (family, zones, sequence of calls)')
QUICK, THOROUGH = 2340, 4680
MIN = {'calls': 1500, 'snapshots': 1500, 'printed_reports': 200, 'border_marks': 100, 'arrays': 100, 'zones of one name': 200}


def counts(g):
    b = sum(1 for e in g.Edges if len(e.Faces) == 1)
    i = sum(1 for e in g.Edges if len(e.Faces) == 2 and e.Faces[0].Zone is e.Faces[1].Zone)
    return len(g.Edges), b, i, len(g.Edges) - b - i


def judge_report(ctx, g, text, stats, distr, matrix):
    ctx.count('printed_reports')
    ec, b, i, c = counts(g)
    ctx.check(g.Name in text, 'the report does not name the grid')
    ctx.check(re.search(r'\b{0} nodes, {1} edges, {2} faces, {3} zones'.format(len(g.Nodes), ec, len(g.Faces), len(g.Zones)), text)
              is not None, 'printed numbers of objects are wrong:\n' + text)
    if stats:
        m = re.search(r'(\d+) border \(([\d.]+)%\), (\d+) inner \(([\d.]+)%\), (\d+) cross \(([\d.]+)%\)', text)
        ctx.check(m is not None, 'no statistics of edges in:\n' + text)
        ctx.eq((int(m.group(1)), int(m.group(3)), int(m.group(5))), (b, i, c), 'printed statistics of edges')
        for k, x in ((2, b), (4, i), (6, c)):
            ctx.close(float(m.group(k)), 100.0 * x / ec, 'printed percent', abs_=0.0051)
    if distr:
        lines = [l for l in text.split('\n') if re.search(r'\d+ faces, \d+ outer edges', l)]
        ctx.eq(len(lines), len(g.Zones), 'lines about zones')
        for l, z in zip(lines, g.Zones):
            m = re.search(r'(\d+) faces, (\d+) outer edges, QF = (\S+)', l)
            zo = sum(1 for e in z.Edges if len(e.Faces) == 1 or e.Faces[0].Zone is not e.Faces[1].Zone)
            ctx.check(z.Name in l, 'zone is not named in its line')
            ctx.eq((int(m.group(1)), int(m.group(2))), (len(z.Faces), zo), 'printed numbers of zone ' + z.Name)
            if zo:
                ctx.close(float(m.group(3)), math.sqrt(len(z.Faces)) / zo, 'printed quality factor', abs_=0.00051)
        m = re.search(r'max zone faces (\d+), faces distribution deviation : (\S+)%', text)
        ctx.eq(int(m.group(1)), max(len(z.Faces) for z in g.Zones), 'printed largest zone')
        mean = len(g.Faces) / len(g.Zones)
        ctx.close(float(m.group(2)), 100.0 * (max(len(z.Faces) for z in g.Zones) - mean) / mean, 'printed deviation', abs_=0.0051)
    if matrix:
        rows = [l.split() for l in text.split('\n') if re.fullmatch(r'[ \d]+', l) and l.strip()]
        ctx.eq(len(rows), len(g.Zones) + 1, 'rows of the printed matrix')
        zi = {id(z): k for k, z in enumerate(g.Zones)}
        n = len(g.Zones)
        want = [[0] * (n + 1) for _ in range(n + 1)]
        for e in g.Edges:
            a = zi[id(e.Faces[0].Zone)]
            d = zi[id(e.Faces[1].Zone)] if len(e.Faces) == 2 else n
            want[a][d] += 1
            if a != d:
                want[d][a] += 1
        ctx.eq([[int(x) for x in r] for r in rows], want, 'printed matrix')


def case(ctx, rng, i):
    m, g, hist = prepared(ctx, rng, rng.choice(['s', 's', 'm']))
    if len(g.Zones) > 1 and rng.random() < 0.4:
        # Names of zones need not differ.
        for z in g.Zones:
            if rng.random() < 0.7:
                z.Name = g.Zones[0].Name
        ctx.count('zones of one name', len(g.Zones) - len({z.Name for z in g.Zones}))
    # Zones without faces have no quality factor.
    empty = any(not z.Faces for z in g.Zones)
    d = os.path.dirname(ctx.path('out', 'x'))

    def info():
        o = [rng.random() < 0.5 for _ in range(3)]
        if empty:
            o[1] = False
        key = ('info', tuple(o))

        def call():
            with quiet() as out:
                g.print_info(*o)
            return out.getvalue()
        return key, call, lambda t: judge_report(ctx, g, t, *o)

    def store():
        def call():
            p = os.path.join(d, 'a.dat')
            with quiet():
                g.store(p)
            r = open(p, 'rb').read()
            os.remove(p)
            return r
        return ('store',), call, lambda t: None

    def mpi():
        def call():
            q = os.path.join(d, 'mpi')
            os.makedirs(q)
            with quiet():
                g.store_mpi(os.path.join(q, 'b'), '000000000000')
            r = tree_bytes(q)
            for x in os.listdir(q):
                os.remove(os.path.join(q, x))
            os.rmdir(q)
            return sorted(r.items())
        return ('mpi',), call, lambda t: ctx.eq(len(t), len(g.Zones), 'domain files')

    def arrays():
        z = rng.choice(g.Zones)

        def call():
            import numpy as np
            return [np.array(x).tolist() for x in (z.coords_np_array(), z.variables_np_array(), z.connectivity_list_faces_nodes(),
                                                   z.get_variable('T'))]

        def judge(t):
            ctx.count('arrays')
            if not z.Faces:
                return
            ctx.eq(t[0], [[float(n.P[k]) for k in range(3)] for n in z.Nodes], 'array of coordinates')
            ctx.eq([[int(x) for x in r] for r in t[2]], [[n.GloId for n in f.Nodes] for f in z.Faces], 'array of connectivity')
            ctx.eq(repr(t[3]), repr([float(f.Data.get('T', 0.0)) for f in z.Faces]), 'array of a variable')
            ctx.eq(len(t[1]), len(z.Faces), 'rows of the array of variables')
            for r, f in zip(t[1], z.Faces):
                want = [float(f.GloId)] + [f.Data.get(v, 0.0) for v in ('T', 'Hw', 'Hi', 'HTC', 'Beta')]
                ctx.eq(repr(r[:6]), repr([float(x) for x in want]), 'array of variables')
                ctx.eq(repr(r[8:11]), repr([float(f.Data.get(v, 0.0)) for v in ('TauX', 'TauY', 'TauZ')]), 'array of variables')
        return ('arrays', g.Zones.index(z)), call, judge

    def triangles():
        def call():
            return [[repr(float(c)) for p in (t.A, t.B, t.C) for c in (p[0], p[1], p[2])] if hasattr(t, 'A') else
                    [repr(float(c)) for p in t.points() for c in p] if hasattr(t, 'points') else None
                    for t in g.get_triangles_list()]

        def judge(t):
            ctx.eq(len(t), len(g.Faces), 'number of triangles')
        return ('triangles',), call, judge

    def lists():
        def call():
            return (g.nodes_count(), g.edges_count(), g.faces_count(), g.zones_count(), g.faces_count_in_zones(),
                    [z.faces_count() for z in g.Zones], [z.outer_edges_count() for z in g.Zones],
                    [f.get_center() for f in g.Faces])

        def judge(t):
            ctx.eq(t[:5], (len(g.Nodes), len(g.Edges), len(g.Faces), len(g.Zones), len(g.Faces)), 'counts')
            for c, f in zip(t[7], g.Faces):
                for k in range(3):
                    ctx.close(c[k], sum(float(n.P[k]) for n in f.Nodes) / 3.0, 'center of a face', rel=1e-12, abs_=1e-12)
        return ('lists',), call, judge

    def stats():
        def call():
            z = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
            return z.edges_statistics(), z.max_cross_border_len()

        def judge(t):
            ctx.eq(tuple(t[0][:4]), counts(g), 'statistics')
        return ('stats',), call, judge

    snap = topo.snapshot(g)
    done, seq = {}, []
    for _ in range(rng.randint(4, 9)):
        key, call, judge = rng.choice([info, info, store, mpi, arrays, triangles, lists, stats])()
        for rep in range(2 if rng.random() < 0.3 else 1):
            r = call()
            ctx.count('calls')
            ctx.check(topo.snapshot(g) == snap, '{0} changed the grid ({1} after {2})'.format(key, hist, seq), monitor='snapshots')
            judge(r)
            r = repr(r)
            ctx.check(done.get(key, r) == r, '{0} repeated gives another result ({1} after {2})'.format(key, hist, seq))
            done[key] = r
        seq.append(key[0])
    # Marking of border nodes.
    reload_ = rng.random() < 0.3
    if reload_:
        g.mark_all_fixed_nodes()
        p = os.path.join(d, 'again.dat')
        with quiet():
            g.store(p)
        if all(z.Faces for z in g.Zones):
            load(gsu, p, True, g)
    snap = topo.snapshot(g)
    want = {id(n) for e in g.Edges if len(e.Faces) == 1 for n in e.Nodes}
    for rep in range(rng.choice([1, 2])):
        g.mark_all_fixed_nodes()
        ctx.check({id(n) for n in g.Nodes if n.border} == want, 'marked border nodes are not the nodes of border edges',
                  monitor='border_marks')
        ctx.eq(g.number_of_border_nodes, len(want), 'number of marked border nodes (reloaded: {0})'.format(reload_))
    ctx.check(topo.snapshot(g) == snap, 'marking border nodes changed the grid')
    ctx.sig(m.kind, len(g.Zones), tuple(seq))
    ctx.sample({'kind': m.kind, 'zones': len(g.Zones), 'history': hist, 'calls': seq, 'border_nodes': len(want)})
