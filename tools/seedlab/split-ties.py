PROP='P05'
EDITS=[('gsu/grid.py','''        l_faces = [f for f in zone.Faces if extract_signs_fun(f) < blade]
        r_faces = [f for f in zone.Faces if extract_signs_fun(f) >= blade]
''','''        l_faces = [f for f in zone.Faces if extract_signs_fun(f) <= blade]
        r_faces = [f for f in zone.Faces if extract_signs_fun(f) > blade]
''')]
NEEDS='a zone in which most faces share the greatest coordinate of centres along the cutting direction (flat cap)'
BREAKS='the metric sees a possible cut, but the cut itself puts all faces into the left zone and leaves an empty zone'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    # One low triangle and a flat cap of three that shares its centre with others along every axis.
    pts, tris = [], []
    for k, c in enumerate([(0, 0, 0), (4, 4, 4), (4, 4, 4), (4, 4, 4)]):
        n = len(pts)
        # exact binary numbers keep the three centres equal
        h = 2.0 ** -(k + 1)
        pts += [(c[0] + 2 * h, c[1], c[2] + h), (c[0] - h, c[1] + h, c[2] - 2 * h), (c[0] - h, c[1] - h, c[2] + h)]
        tris.append((n, n + 1, n + 2))
    dat(p, [('z', pts, tris)])
    g = load(p)
    with quiet():
        g.decompose_hierarchical(levels=2)
    sizes = [len(z.Faces) for z in g.Zones]
    assert sum(sizes) == 4 and min(sizes) > 0, sizes
'''
