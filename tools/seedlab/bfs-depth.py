PROP='P14'
EDITS=[('gsu/grid.py','''                        f2.bfs_mark = True
                        p.append(f2)
''','''                        f2.bfs_mark = True
                        p.insert(i + 1, f2)
''')]
NEEDS='a surface with more than a few faces around the start'
BREAKS='faces of a path are no longer ordered by distance from the first one (every face is still visited once)'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('z', *sheet(5, 5))])
    g = load(p)
    path = g.bfs_path(g.Faces[0], lambda f: True)
    dist, front = {id(g.Faces[0]): 0}, [g.Faces[0]]
    while front:
        new = []
        for f in front:
            for e in f.Edges:
                for h in e.Faces:
                    if id(h) not in dist:
                        dist[id(h)] = dist[id(f)] + 1
                        new.append(h)
        front = new
    ds = [dist[id(f)] for f in path]
    assert len(ds) == 50 and ds == sorted(ds), ds
'''
