"""P14: breadth-first paths."""
import gsu
from vh import mesh as M, decomp as D
from vh.core import quiet
from vh.loadcmp import load

RULE = ('random surfaces (also disconnected), random start faces and predicates (random subsets, zones, halves, everything, '
        'nothing), repeated calls on the same grid; distances are computed by an independent search over faces that share an '
        'edge; non-trivial = new (family, faces, wanted faces, components, start wanted)')
QUICK, THOROUGH = 5760, 11520
MIN = {'paths': 700, 'faces_in_paths': 5000, 'components': 700, 'farhat_zones': 400}


def adjacency(g):
    sides = {}
    for k, f in enumerate(g.Faces):
        ids = [id(n) for n in f.Nodes]
        for t in range(3):
            sides.setdefault(frozenset((ids[t], ids[(t + 1) % 3])), []).append(k)
    adj = [set() for _ in g.Faces]
    for fs in sides.values():
        if len(fs) == 2:
            adj[fs[0]].add(fs[1])
            adj[fs[1]].add(fs[0])
    return adj


def distances(adj, start, want):
    d, layer, k = {start: 0}, [start], 0
    while layer:
        k += 1
        nxt = []
        for f in layer:
            for x in adj[f]:
                if x in want and x not in d:
                    d[x] = k
                    nxt.append(x)
        layer = nxt
    return d


def paths(ctx, rng, g, kind_, sig=True):
    """Paths over wanted faces."""
    adj = adjacency(g)
    n = len(g.Faces)
    pos = {id(f): k for k, f in enumerate(g.Faces)}
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(['all', 'random', 'random', 'zone', 'half', 'none', 'one'])
        if kind == 'all':
            want = set(range(n))
        elif kind == 'random':
            q = rng.choice([0.2, 0.5, 0.8])
            want = {k for k in range(n) if rng.random() < q}
        elif kind == 'zone':
            z = rng.choice(g.Zones)
            want = {pos[id(f)] for f in z.Faces}
        elif kind == 'half':
            want = set(range(n // 2, n))
        elif kind == 'one':
            want = {rng.randrange(n)}
        else:
            want = set()
        s = rng.choice(sorted(want)) if want and rng.random() < 0.7 else rng.randrange(n)
        where = '{0} of {1} faces, predicate {2} ({3} wanted), start {4}wanted'.format(
            kind_, n, kind, len(want), '' if s in want else 'not ')
        with quiet():
            path = g.bfs_path(g.Faces[s], lambda f: pos[id(f)] in want)
        p = [pos[id(f)] for f in path]
        ctx.count('paths')
        ctx.count('faces_in_paths', len(p))
        ctx.check(len(set(p)) == len(p), where + ': a face is visited twice')
        ctx.check(set(p) == want, where + ': visited faces are not the wanted ones')
        if s in want:
            ctx.eq(p[0], s, where + ': first face')
        k, comps = 0, 0
        while k < len(p):
            d = distances(adj, p[k], want)
            part = p[k:k + len(d)]
            ctx.check(set(part) == set(d), where + ': components are interleaved', monitor='components')
            ds = [d[x] for x in part]
            ctx.check(ds == sorted(ds), where + ': faces are not visited layer by layer')
            k += len(d)
            comps += 1
        # One component only.
        for f in g.Faces:
            f.bfs_mark = False
        with quiet():
            q = g.bfs_path_connectivity_component(g.Faces[s], lambda f: pos[id(f)] in want)
        q = [pos[id(f)] for f in q]
        d = distances(adj, s, want) if s in want else {}
        ctx.check(len(set(q)) == len(q) and set(q) == set(d), where + ': component of the start face')
        ds = [d[x] for x in q]
        ctx.check(ds == sorted(ds), where + ': component is not visited layer by layer')
        if sig:
            ctx.sig(kind_, n, len(want), comps, s in want)


def farhat(ctx, rng, g, kind_):
    """Breadth-first decomposition."""
    adj = adjacency(g)
    n = len(g.Faces)
    pos = {id(f): k for k, f in enumerate(g.Faces)}
    count = rng.randint(1, max(1, min(n, 8)))
    with quiet():
        g.decompose_farhat(count=count)
    free = set(range(n))
    for z in g.Zones:
        fs = [pos[id(f)] for f in z.Faces]
        if fs:
            # Sizes of free components around the faces of the zone (its start face is one of them).
            comp = min((distances(adj, f, free) for f in fs), key=len)
            inner = distances(adj, fs[0], set(fs))
            ctx.count('farhat_zones')
            if len(comp) >= len(fs):
                ctx.check(len(inner) == len(fs), '{0}: zone {1} of {2} faces is not connected though {3} free faces were around its '
                          'start'.format(kind_, z.Name, len(fs), len(comp)))
        free -= set(fs)


def case(ctx, rng, i):
    m = M.random_mesh(rng, M.any_size(rng, 's', 's', 'm'), empty=0.1)
    g = load(gsu, M.write_dat(m, ctx.path('a.dat'), rng=rng))
    paths(ctx, rng, g, m.kind)
    farhat(ctx, rng, g, m.kind)
    ctx.sample({'kind': m.kind, 'faces': len(g.Faces), 'farhat': [len(z.Faces) for z in g.Zones]})
