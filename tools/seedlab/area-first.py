PROP='P40'
EDITS=[('remeshing.py',"""        # Move nodes.
        self.move_nodes()

        # Remember squares of faces before nss.
        self.remember_current_areas()
""","""        # Remember squares of faces.
        self.remember_current_areas()
        # Move nodes.
        self.move_nodes()
"""),]
NEEDS='several steps on a surface with curvature'
BREAKS='the rest of ice is corrected by growth of faces in moving, not by smoothing only'
ALSO=['P22']
DEMO='''
sys.path.insert(0, SRC)
with scratch() as d:
    import remeshing, json
    p = d + '/g.dat'
    dat(p, [('a', *box())], val=lambda n, i: 0.0)
    g = load(p)
    for f in g.Faces:
        f['Hi'] = 0.1
    with open(d + '/c.json', 'w') as f:
        json.dump({'remesh_rest_volume_redistr': True, 'remesh_nsteps_min': 5, 'remesh_nsteps_max': 5}, f)
    r = remeshing.TongRemesher('/g.dat', d + '/c.json', d)
    old = r.move_nodes
    rest = []
    def move():
        old()
        rest.append([f.rest_ice for f in g.Faces])
    r.move_nodes = move
    nxt = []
    calc = r.calc_ice_chunks
    def chunks(k):
        nxt.append([f.rest_ice for f in g.Faces])
        calc(k)
    r.calc_ice_chunks = chunks
    with quiet():
        r(g)
    # Smoothing is off, so nothing is corrected between steps.
    for a, b in zip(rest, nxt[1:]):
        assert all(abs(x - y) <= 1e-9 * abs(x) for x, y in zip(a, b)), (a, b)
'''
