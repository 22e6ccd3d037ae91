PROP='P44'
EDITS=[('gsu/grid.py',"""        # Rounded coordinates
        self.RoundedCoordsBag = set()

        self.number""","""        self.number"""),('gsu/grid.py',"""    def __init__(self):
        \"\"\"
        Constructor.
        \"\"\"

        # Empty name.
""","""    # Rounded coordinates
    RoundedCoordsBag = set()

    def __init__(self):
        \"\"\"
        Constructor.
        \"\"\"

        # Empty name.
""")]
NEEDS='two grids in one process, one of which gets a node at a place where another one has a node'
BREAKS='a transformation of a grid fails because of a node of another grid, or a node is not found after another grid was loaded'
DEMO='''
import geom
with scratch() as d:
    dat(d + '/a.dat', [('z', *sheet(3, 3))], ('T', 'Hw', 'Hi'))
    a, b = load(d + '/a.dat'), load(d + '/a.dat')
    for g in (a, b):
        f = g.Faces[4]
        g.divide_face(f, geom.Vect.from_iterable(f.get_center()))
        assert len(g.Faces) == 20 and len(g.Nodes) == 17
'''
