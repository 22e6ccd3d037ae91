PROP='P02'
EDITS=[('gsu/grid.py','''            zids = list(set([f.Zone.Id for f in n.Faces]))''','''            zids = list(set([f.Zone.Id for f in n.Faces[:12]]))''')]
NEEDS='a node with more than twelve faces, where some zone has only the faces that come after the twelfth'
BREAKS='node lists of zones: a zone that uses the node does not list it, so files stored from the zone cannot be written or refer to another node'
ALSO=['P01','P07']
DEMO='''
import math
with scratch() as d:
    p = d + '/g.dat'
    n = 15
    pts = [(0, 0, 0)] + [(math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n), 0) for k in range(n)]
    tris = [(0, 1 + k, 1 + (k + 1) % n) for k in range(n)]
    dat(p, [('a', pts, tris[:13]), ('b', pts, tris[13:])])
    g = load(p)
    for z in g.Zones:
        used = {id(n) for f in z.Faces for n in f.Nodes}
        assert used == {id(n) for n in z.Nodes}, z.Name
'''
