PROP='P04'
EDITS=[('gsu/grid.py','''        if len(edge.Faces) == 2:
            raise Exception('Too many faces linking''','''        if len(edge.Faces) == 2 and edge.Faces[1].Zone is face.Zone:
            raise Exception('Too many faces linking''')]
NEEDS='an edge shared by three faces, the third one (in file order) in a later zone than the second'
BREAKS='a non-manifold file whose third face belongs to another zone is loaded'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    a, b = (0, 0, 0), (1, 0, 0)
    dat(p, [('z', [a, b, (0, 1, 0), (0, -1, 0)], [(0, 1, 2), (1, 0, 3)]), ('w', [a, b, (0, 0, 1)], [(0, 1, 2)])])
    try:
        load(p)
    except Exception as e:
        assert 'faces' in str(e), e
    else:
        raise SystemExit('an edge with three faces was loaded')
'''
