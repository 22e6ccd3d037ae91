PROP='P11'
ALSO=['P41']
EDITS=[('gsu/grid.py','''            self.Nodes.append(n)
            self.RoundedCoordsBag.add(n.RoundedCoords)
''','''            self.Nodes.append(n)
            # The bag is needed only to find nodes while merging.
            if is_merge_same_nodes:
                self.RoundedCoordsBag.add(n.RoundedCoords)
''')]
NEEDS='a grid loaded without merging, to which a node is then added with merging (as all atomic operations do)'
BREAKS='nodes of such a grid are not found by their places: a node on the place of another one is added as a new one'
DEMO='''
import gsu
with scratch() as d:
    pts, tris = sheet(2, 2)
    dat(d + '/g.dat', [('z', pts, tris)])
    g = load(d + '/g.dat', merge=False)
    n = g.Nodes[4]
    m = gsu.Node(n.P)
    assert g.add_node(m, True) is n and len(g.Nodes) == 9
'''
