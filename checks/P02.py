"""P02: incidence structure after loading."""
import gsu
from vh import mesh as M, topo
from vh.loadcmp import load
from checks.P01 import near_duplicates, valid

RULE = ('random surface families x zonings x merge modes, loaded into fresh and reused grids; after each load a scanner walks '
        'all links of all objects both ways; non-trivial = new (family, V, E, F, zones, merge mode)')
QUICK, THOROUGH = 4500, 9000
MIN = {'integrity_scans': 200, 'seams left open': 60, 'faces_scanned': 2000, 'edges_scanned': 3000, 'zones_scanned': 300}


def case(ctx, rng, i):
    g = gsu.Grid()
    for k in range(rng.choice([1, 1, 2])):
        m = M.random_mesh(rng, M.any_size(rng, 's', 's', 'm'), move=0.3, empty=0.1)
        near = rng.random() < 0.25
        if near:
            near_duplicates(rng, m)
        seam = rng.random() < 0.2
        if seam:
            M.seams(rng, m)
        path = M.write_dat(m, ctx.path('g{0}.dat'.format(k)), order=rng.choice(['used', 'sorted', 'random']), rng=rng)
        merge = rng.random() < 0.8
        dat = M.Dat(path)
        if not valid(dat, merge):
            ctx.count('generated_invalid')
            continue
        load(gsu, path, merge, g)
        ctx.count('seams left open', int(seam and not merge))
        st = topo.integrity(ctx, g, where='after load (merge={0})'.format(merge), merged=merge)
        lm = M.LoadModel(dat, merge)
        ctx.eq(st['edges'], len(lm.edges), 'number of edges')
        ctx.eq(sum(1 for e in g.Edges if len(e.Faces) == 1), sum(1 for v in lm.edges.values() if len(v) == 1),
               'number of border edges')
        for n, want in zip(g.Nodes, range(len(g.Nodes))):
            ctx.check(n.GloId == want, 'node identifiers do not follow the order of nodes')
        for f, want in zip(g.Faces, range(len(g.Faces))):
            ctx.check(f.GloId == want, 'face identifiers do not follow the order of faces')
        # Walking to a neighbour across an edge and back.
        for e in g.Edges:
            for f in e.Faces:
                o = f.get_neighbour(e)
                if len(e.Faces) == 1:
                    ctx.check(o is None, 'border edge leads to a neighbour', monitor='neighbour_walks')
                else:
                    ctx.check(o is not f and any(x is o for x in e.Faces), 'wrong neighbour across an edge',
                              monitor='neighbour_walks')
        ctx.sig(m.kind, st['nodes'], st['edges'], st['faces'], len(g.Zones), merge, near)
        ctx.sample({'kind': m.kind, 'V': st['nodes'], 'E': st['edges'], 'F': st['faces'],
                    'zones': [len(z.Faces) for z in g.Zones], 'merge': merge})
