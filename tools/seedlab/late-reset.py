PROP='P14'
EDITS=[('gsu/face.py','''        self.GloId = -1
''','''        self.GloId = -1

        # Mark of BFS.
        self.bfs_mark = False
'''),('gsu/grid.py',"""        # Reset all faces bfs marks.
        for f in self.Faces:
            f.bfs_mark = False

        p = []
""","""        p = []
"""),('gsu/grid.py',"""            start = self.get_no_bfs_mark_face(pred)
            if start is None:
                return p
""","""            start = self.get_no_bfs_mark_face(pred)
            if start is None:
                # Reset bfs marks after the walk.
                for f in p:
                    f.bfs_mark = False
                return p
""")]
NEEDS='a path after another walk which did not come to its end, as a walk over one component or a predicate that fails'
BREAKS='faces met by the earlier walk are missing in the path'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('a', *sheet(3, 3))])
    g = load(p)
    n = len(g.Faces)
    def bad(f):
        if f.GloId == n - 1:
            raise ValueError
        return True
    try:
        g.bfs_path(g.Faces[0], bad)
    except ValueError:
        pass
    q = g.bfs_path(g.Faces[0], lambda f: True)
    assert sorted(f.GloId for f in q) == list(range(n)), len(q)
'''
