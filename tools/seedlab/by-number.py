PROP='P39'
EDITS=[('convert/gsu_converter.py','''        ns = []
        for f in self.Faces:
            ns = ns + f.Nodes
        self.Nodes = [n for n in self.Nodes if n in ns]
''','''        ids = set()
        for f in self.Faces:
            ids.update(n.Id for n in f.Nodes)
        self.Nodes = [n for n in self.Nodes if n.Id in ids]
''')]
NEEDS='an unused node with the number of a used one (a copy put into the zone, numbers not restored yet)'
BREAKS='the unused node stays in the zone'
DEMO='''
sys.path.insert(0, SRC + '/convert')
import gsu_converter as gc
z = gc.Zone('a')
z.Nodes = [gc.Node(i, float(i), 0.0, 0.0) for i in range(4)]
z.Faces = [gc.Face(*z.Nodes[:3])]
c = z.Nodes[1].Copy()
z.Nodes.append(c)
z.DeleteExtraNodes()
assert len(z.Nodes) == 3 and all(a is b for a, b in zip(z.Nodes, z.Faces[0].Nodes)), len(z.Nodes)
'''
