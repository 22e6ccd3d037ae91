PROP='P12'
ALSO=['P41']
EDITS=[('gsu/grid.py',"""        # link zone
        zone.add_face(f1)
        zone.add_face(f2)
        zone.add_face(f3)
        zone.add_edge(e4)
        zone.add_edge(e5)
        zone.add_edge(e6)

    # ----------------------------------------------------------------------------------------------

    def collapse_face(""","""        # link zone
        for f in [f1, f2, f3]:
            f.Data = data
            zone.add_face(f)
        zone.add_edge(e4)
        zone.add_edge(e5)
        zone.add_edge(e6)

    # ----------------------------------------------------------------------------------------------

    def collapse_face(""")]
NEEDS='a face is divided and a value of one of the new faces is changed afterwards'
BREAKS='the value changes in all three faces'
DEMO='''
with scratch() as d:
    import geom
    p = d + '/g.dat'
    dat(p, [('z', *sheet(2, 2))])
    g = load(p)
    f = g.Faces[3]
    c = f.get_triangle().centroid()
    old = {id(x) for x in g.Faces}
    g.divide_face(f, c)
    new = [x for x in g.Faces if id(x) not in old]
    assert len(new) == 3 and len({x['T'] for x in new}) == 1
    t = new[1]['T']
    new[0]['T'] = 12345.0
    assert new[1]['T'] == new[2]['T'] == t
'''
