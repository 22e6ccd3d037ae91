PROP='P25'
EDITS=[('gsu/grid.py','''        for e in self.Edges:
            if len(e.Faces) == 1:
                e.border = True
                for n in e.Nodes:
                    if not n.border:
                        n.border = True
                        self.number_of_border_nodes += 1
''','''        for e in self.Edges:
            if len(e.Faces) == 1:
                e.border = True
        for n in self.Nodes:
            # A border node has one edge more than faces.
            if len(n.Edges) == len(n.Faces) + 1 and not n.border:
                n.border = True
                self.number_of_border_nodes += 1
''')]
NEEDS='a border node where two fans of faces meet (it has two edges more than faces)'
BREAKS='such a node is not held when borders are fixed'
DEMO='''
import smoothing
with scratch() as d:
    pts = [(0.0, 0.0, 0.0), (2.0, 1.0, 0.0), (2.0, -1.0, 0.0), (-1.0, 0.5, 0.0), (-1.0, -0.5, 0.0)]
    dat(d + '/g.dat', [('z', pts, [(0, 2, 1), (0, 3, 4)])])
    g = load(d + '/g.dat')
    g.mark_all_fixed_nodes()
    with quiet():
        smoothing.NullSpaceSmoothing(g, 3, fix_boundary_nodes=True).smoothing()
    assert g.Nodes[0].P.dist_to(type(g.Nodes[0].P)()) == 0.0, str(g.Nodes[0].P)
'''
