PROP='P38'
EDITS=[('gsu/grid.py',"""        # Open file and try to load it line by line.
        with open(filename, 'r') as f:
            line = f.readline()
""","""        # Open file and try to load it line by line.
        with Grid.open(filename) as f:
            line = f.readline()
"""),('gsu/grid.py',"""    def load(self, filename,
             is_merge_same_nodes=True):
""","""    # Text of the last loaded file, one grid is often loaded several times.
    Last = (None, None)

    # ----------------------------------------------------------------------------------------------

    @staticmethod
    def open(filename):
        \"\"\"
        Open file for loading.

        :param filename: file name
        :return: stream
        \"\"\"

        key = (filename, os.path.getsize(filename))
        if Grid.Last[0] != key:
            with open(filename, 'r') as f:
                Grid.Last = (key, f.read())

        return io.StringIO(Grid.Last[1])

    # ----------------------------------------------------------------------------------------------

    def load(self, filename,
             is_merge_same_nodes=True):
"""),('gsu/grid.py',"""import random
""","""import io
import os
import random
""")]
NEEDS='a file loaded, overwritten by a file of the same length (the numbers are written with fixed widths) and loaded again in one process'
BREAKS='the old grid is loaded'
ALSO=['P01','P03']
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('a', *sheet(2, 2))])
    g = load(p)
    g.store(p)
    g.Faces[0].Nodes[0].P.X = 7.0
    g.store(p)
    h = load(p)
    for k in (1.0, 2.0):
        for f in h.Faces:
            f['T'] = k
        h.store(p)
        q = load(p)
        assert all(f['T'] == k for f in q.Faces), k
'''
