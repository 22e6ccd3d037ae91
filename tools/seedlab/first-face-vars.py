PROP='P41'
ALSO=['P07','P10']
EDITS=[('gsu/zone.py',"""        i_list = ['{0:.18e}'.format(face[e]) for face in self.Faces]
        i_str = ' '.join(i_list)

        return i_str

    # ----------------------------------------------------------------------------------------------

    def get_faces_global_ids""","""        if self.Faces and e not in self.Faces[0].Data:
            return ' '.join(['{0:.18e}'.format(0.0)] * len(self.Faces))

        i_list = ['{0:.18e}'.format(face[e]) for face in self.Faces]
        i_str = ' '.join(i_list)

        return i_str

    # ----------------------------------------------------------------------------------------------

    def get_faces_global_ids""")]
NEEDS='a variable which the first face of a zone does not have and other faces have (results given for a part of the faces only)'
BREAKS='values of such a variable are stored as zeros'
DEMO='''
with scratch() as d:
    p, r, q = d + '/g.dat', d + '/r.txt', d + '/o.dat'
    dat(p, [('a', *sheet(1, 1)), ('b', [(x + 1, y, z) for x, y, z in sheet(1, 1)[0]], sheet(1, 1)[1])])
    g = load(p)
    open(r, 'w').write('VARIABLES="GloId", "T", "Hw", "Hi", "Beta"\\n0 1 2 3 4\\n1 1 2 3 4\\n3 5 6 7 8\\n')
    g.load_faces_calc_data(r)
    g.store(q)
    h = load(q)
    assert [f['Beta'] for f in h.Faces] == [4, 4, 0, 8], [f['Beta'] for f in h.Faces]
'''
