PROP='P43'
EDITS=[('gsu/grid.py',"""            if len(path) > zone_size:
                start = path[zone_size]
""","""            # The farthest face of the rest begins the next zone.
            if len(path) > zone_size:
                start = path[-1]
""")]
NEEDS='three or more zones on a surface where the farthest free face is not next to the last zone'
BREAKS='a breadth-first zone does not go on from the end of the zone before'
DEMO='''
n = 12
pts = [(float(i), float(j), 0.0) for j in range(2) for i in range(n + 1)]
tris = []
for i in range(n):
    a, b = i, i + n + 1
    tris += [(a, a + 1, b + 1), (a, b + 1, b)]
with scratch() as d:
    dat(d + '/a.dat', [('z', pts, tris)], ('T', 'Hw', 'Hi'))
    g = load(d + '/a.dat')
    with quiet():
        g.decompose_farhat(count=4)
    # Zones lie along the strip one after another.
    first = [min(f.GloId for f in z.Faces) for z in g.Zones]
    assert first == sorted(first), first
'''
