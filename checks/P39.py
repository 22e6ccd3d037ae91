"""
P39: the grid of the converter is driven through random sequences of its operations beside a plain model made of numbers; after every
operation all lists are compared with the model, and what is exported is read by an independent reader.
"""
import io
import contextlib

from vh import mesh as M
from vh.core import use_repo

RULE = 'distinct (family of the surface, zones, operations made, faces bucket)'
QUICK, THOROUGH = 1200, 12000
MIN = {'imports': 300, 'operations': 1500, 'faces compared': 20000, 'nodes compared': 15000, 'exported values': 40000, 'copies': 150, 'copies deleted': 100}
ASSUMPTIONS = ['Imported files have the variables T, Hw, Hi, HTC, Beta, TauX, TauY, TauZ in this order, as the import expects.',
               'Exported numbers have six digits after the point.']
VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
FIVE = ['HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
OUT = FIVE + ['RecoveryFactor']


def setup(ctx):
    use_repo()


class ZoneModel:
    """Numbers only: nodes are keys, faces are triples of keys."""

    def __init__(self, title):
        self.title = title
        self.nodes = []         # keys in order
        self.ids = {}           # key -> Id
        self.node = {}          # key -> [x, y, z, six values]
        self.faces = []         # [keys, six values]


def node_numbers(n):
    return [n.Point.X, n.Point.Y, n.Point.Z, n.HTC, n.Beta, n.Tau.X, n.Tau.Y, n.Tau.Z, n.RecoveryFactor]


def face_numbers(f):
    return [f.HTC, f.Beta, f.Tau.X, f.Tau.Y, f.Tau.Z, f.RecoveryFactor]


def compare(ctx, g, zs, real, what):
    ctx.eq([z.Title for z in g.Zones], [z.title for z in zs], what + ': zones')
    for z, w in zip(g.Zones, zs):
        ctx.eq(len(z.Nodes), len(w.nodes), '{0}: nodes of zone {1}'.format(what, w.title))
        ctx.eq(len(z.Faces), len(w.faces), '{0}: faces of zone {1}'.format(what, w.title))
        for n, k in zip(z.Nodes, w.nodes):
            ctx.count('nodes compared')
            if k in real:
                ctx.check(real[k] is n, '{0}: another node object stands in the list of zone {1}'.format(what, w.title), 'nodes')
            real[k] = n
            ctx.check(node_numbers(n) == w.node[k] and n.Id == w.ids[k],
                      lambda: '{0}: node {1} of zone {2} has numbers {3}, identifier {4}; expected {5}, {6}'.format(
                          what, k, w.title, node_numbers(n), n.Id, w.node[k], w.ids[k]), 'nodes')
        for f, (ks, vs) in zip(z.Faces, w.faces):
            ctx.count('faces compared')
            ctx.check(len(f.Nodes) == 3 and all(real.get(k) is n for k, n in zip(ks, f.Nodes)),
                      lambda: '{0}: a face of zone {1} has nodes {2}, expected {3}'.format(
                          what, w.title, [node_numbers(n)[:3] for n in f.Nodes], [w.node[k][:3] for k in ks]), 'faces')
            ctx.check(all(abs(a - b) <= 1e-12 * max(abs(a), abs(b), big(w, ks)) for a, b in zip(face_numbers(f), vs)),
                      lambda: '{0}: a face of zone {1} has values {2}, expected {3}'.format(what, w.title, face_numbers(f), vs), 'faces')


def big(w, ks):
    return max(abs(x) for k in ks for x in w.node[k][3:])


def case(ctx, rng, i):
    import gsu_converter as C
    m = M.random_shape(rng, rng.choice(['s', 's', 'm']))
    M.add_zones(rng, m)
    s = rng.choice([1.0, 1.0, 100.0, 0.01, 1e-4])
    m.V = [tuple(s * c for c in v) for v in m.V]
    M.add_data(rng, m, list(VARS), lambda r: r.choice([0.0, -0.0, r.uniform(-1, 1), r.uniform(-1e4, 1e4)]))
    p = ctx.path('g.dat')
    M.write_dat(m, p, order=rng.choice(['used', 'sorted', 'random']), rng=rng,
                head=rng.choice(['# crys-gsu\n', '', '# EXPORT_MODE=CHECK_POINT\n']))
    d = M.Dat(p)
    g = C.Grid()
    g.Import(p)
    ctx.count('imports')
    zs, real = [], {}
    for q, z in enumerate(d.zones):
        w = ZoneModel(z.name)
        for k, pt in enumerate(z.pts):
            key = (q, k)
            w.nodes.append(key)
            w.ids[key] = k
            w.node[key] = list(pt) + [0.0] * 6
        for k, c in enumerate(z.conn):
            w.faces.append([[(q, x - 1) for x in c], [float(z.data[v][k]) for v in FIVE] + [0.0]])
        zs.append(w)
    compare(ctx, g, zs, real, 'import')
    fresh = 0
    done = []
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(['replace', 'replace', 'replace', 'delete', 'restore', 'values', 'means', 'print', 'copy'])
        q = rng.randrange(len(zs))
        w, z = zs[q], g.Zones[q]
        done.append(op)
        ctx.count('operations')
        if op == 'replace' and len(w.nodes) > 3:
            on = rng.choice(w.nodes)
            other = [k for k in w.nodes if k != on and not any(on in ks and k in ks for ks, _ in w.faces)]
            if rng.random() < 0.5 or not other:
                fresh += 1
                nk = ('new', fresh)
                pt = [rng.uniform(-1, 1) for _ in range(3)] + [rng.uniform(-9, 9) for _ in range(6)]
                real[nk] = C.Node(7000 + fresh, *pt)
                w.node[nk], w.ids[nk] = pt, 7000 + fresh
            else:
                nk = rng.choice(other)
            z.ReplaceNode(real[on], real[nk])
            w.nodes = [nk if k == on else k for k in w.nodes]
            w.faces = [[[nk if k == on else k for k in ks], vs] for ks, vs in w.faces]
        elif op == 'delete':
            if rng.random() < 0.6:
                fresh += 1
                nk = ('extra', fresh)
                if rng.random() < 0.5 and w.nodes:
                    # A copy of a node: its number and all values are those of another node of the zone.
                    key = rng.choice(w.nodes)
                    real[nk], w.node[nk], w.ids[nk] = real[key].Copy(), list(w.node[key]), w.ids[key]
                    ctx.count('copies deleted')
                else:
                    real[nk] = C.Node(9000 + fresh, 1.0, 2.0, 3.0)
                    w.node[nk], w.ids[nk] = [1.0, 2.0, 3.0] + [0.0] * 6, 9000 + fresh
                at = rng.randint(0, len(w.nodes))
                w.nodes.insert(at, nk)
                z.Nodes.insert(at, real[nk])
            z.DeleteExtraNodes()
            used = {k for ks, _ in w.faces for k in ks}
            w.nodes = [k for k in w.nodes if k in used]
        elif op == 'restore':
            z.RestoreNodesIndices()
            # A node that stands in the list twice gets the last of its places.
            for k, key in enumerate(w.nodes):
                w.ids[key] = k
        elif op == 'values':
            for key in w.nodes:
                vs = [rng.uniform(-100, 100) for _ in range(6)]
                n = real[key]
                n.HTC, n.Beta, n.Tau, n.RecoveryFactor = vs[0], vs[1], C.Vector(*vs[2:5]), vs[5]
                w.node[key][3:] = vs
        elif op == 'means':
            g.ConvertDataFromNodesToFaces()
            for x in zs:
                for f in x.faces:
                    f[1] = [sum(x.node[k][3 + v] for k in f[0]) / 3.0 for v in range(6)]
        elif op == 'print':
            t = io.StringIO()
            with contextlib.redirect_stdout(t):
                g.PrintInfo()
            text = t.getvalue()
            for x in zs:
                line = [l for l in text.split('\n') if x.title in l]
                ctx.check(any(str(len(x.nodes)) in l and str(len(x.faces)) in l for l in line),
                          lambda: 'information {0!r} does not tell of {1} nodes and {2} faces of zone {3}'.format(
                              text, len(x.nodes), len(x.faces), x.title), 'print')
        elif op == 'copy' and w.nodes:
            ctx.count('copies')
            key = rng.choice(w.nodes)
            c = real[key].Copy()
            ctx.check(c is not real[key] and node_numbers(c) == w.node[key] and c.Id == w.ids[key],
                      lambda: 'copy of node {0} has numbers {1}'.format(w.node[key], node_numbers(c)), 'copy')
            c.Point.X += 1.0
            c.Tau.Y += 1.0
            c.HTC += 1.0
            c.Id += 1
        compare(ctx, g, zs, real, 'after ' + ', '.join(done))
    # Export needs every node once and identifiers in order.
    for z, w in zip(g.Zones, zs):
        once, seen = [], set()
        for k, n in zip(w.nodes, list(z.Nodes)):
            if k not in seen:
                seen.add(k)
                once.append((k, n))
        z.Nodes[:] = [n for _, n in once]
        w.nodes = [k for k, _ in once]
        z.DeleteExtraNodes()
        used = {k for ks, _ in w.faces for k in ks}
        w.nodes = [k for k in w.nodes if k in used]
        z.RestoreNodesIndices()
        for k, key in enumerate(w.nodes):
            w.ids[key] = k
    compare(ctx, g, zs, real, 'before export')
    o = ctx.path('o.dat')
    g.Export(o)
    e = M.Dat(o)
    ctx.eq(e.vars[3:], OUT, 'exported variables')
    ctx.eq([z.name for z in e.zones], [w.title for w in zs], 'exported zones')
    for z, w in zip(e.zones, zs):
        ctx.eq((len(z.pts), len(z.conn)), (len(w.nodes), len(w.faces)), 'exported numbers of nodes and faces')
        for pt, k in zip(z.pts, w.nodes):
            ctx.count('exported values', 3)
            ctx.check(all(abs(a - b) <= 6e-7 for a, b in zip(pt, w.node[k][:3])), lambda: 'exported node {0}, expected {1}'.format(
                pt, w.node[k][:3]), 'export')
        for x, (ks, vs) in enumerate(w.faces):
            ctx.eq([w.nodes[c - 1] for c in z.conn[x]], ks, 'nodes of an exported face', 'export')
            for v, y in zip(OUT, vs):
                ctx.count('exported values')
                ctx.check(abs(float(z.data[v][x]) - y) <= 6e-7 + 1e-12 * abs(y), lambda: 'exported {0} of a face is {1}, expected {2!r}'.format(
                    v, z.data[v][x], y), 'export')
    ctx.sig(m.kind, len(zs), sorted(set(done)), len(m.F) // 20)
    ctx.sample({'surface': m.kind, 'zones': len(zs), 'faces': len(m.F), 'operations': done})
