PROP='P41'
ALSO=['P25','P35','P21','P40']
EDITS=[('gsu/grid.py','''            if len(e.Faces) == 1:
                e.border = True
                for n in e.Nodes:
                    if not n.border:''','''            if len(e.Faces) == 1 and not getattr(e, 'border', False):
                e.border = True
                for n in e.Nodes:
                    if not n.border:''')]
NEEDS='borders are marked, the grid is edited at its border and borders are marked again'
BREAKS='nodes which come to the border between two calls are not marked, so fixed borders move'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    # node 0 lies at the border and has five edges
    dat(p, [('z', [(0, 0, 0), (2, 0, 0), (1, 1, 0), (0, 2, 0), (-1, 1, 0), (-2, 0, 0), (0, 4, 0)],
             [(2, 0, 1), (3, 0, 2), (4, 0, 3), (5, 0, 4), (1, 6, 2), (2, 6, 3), (3, 6, 4), (4, 6, 5)])])
    for i in range(len(load(p).Edges)):
        g = load(p)
        g.mark_all_fixed_nodes()
        e = g.Edges[i]
        if len(e.Faces) == 2 and sorted(n.border for n in e.Nodes) == [False, True]:
            g.collapse_edge(e)
            g.mark_all_fixed_nodes()
            for e in g.Edges:
                if len(e.Faces) == 1:
                    assert all(n.border for n in e.Nodes)
'''
