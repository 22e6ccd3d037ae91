PROP='P25'
ALSO=['P23']
EDITS=[('smoothing.py','''                shifts.append(shift)

            Smoothing.apply_shifts(self, shifts)
''','''                shifts.append(shift)

                # Nodes without common faces may be moved at once.
                if k == 2:
                    self.move_node(n, shift)
                    shifts[-1] = geom.Vect(0, 0, 0)

            Smoothing.apply_shifts(self, shifts)
''')]
NEEDS='null-space smoothing of a surface with a crease whose nodes do not stand evenly'
BREAKS='nodes on a crease are moved before their neighbours are looked at, so the result depends on the numbering'
DEMO='''
import smoothing, random, gsu
r = random.Random(3)
# A roof with a crease along x = 3, nodes along it unevenly spaced.
pts, tris = sheet(6, 8)
pts = [(x, y + (0.3 * r.uniform(-1, 1) if 0 < y < 8 else 0), 3.0 - abs(x - 3)) for x, y, _ in pts]


def run(order, d):
    inv = {o: i for i, o in enumerate(order)}
    dat(d + '/g.dat', [('z', [pts[o] for o in order], [tuple(inv[v] for v in t) for t in tris])])
    g = load(d + '/g.dat')
    g.mark_all_fixed_nodes()
    with quiet():
        smoothing.NullSpaceSmoothing(g, 2, fix_boundary_nodes=True).smoothing()
    res = [None] * len(pts)
    for n, o in zip(g.Nodes, order):
        res[o] = n.P
    return res


with scratch() as d:
    a = run(list(range(len(pts))), d)
    b = run(list(reversed(range(len(pts)))), d)
    assert max(x.dist_to(y) for x, y in zip(a, b)) < 1e-9
'''
