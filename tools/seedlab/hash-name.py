PROP='P01'
ALSO=['P03']
EDITS=[('gsu/grid.py','''                if line[0] == '#':
''','''                if '#' in line:
''')]
NEEDS="a title or zone name containing '#'"
BREAKS='the line is taken for a comment: the title is lost or the file is refused'
DEMO='''
with scratch() as d:
    dat(d + '/g.dat', [('engine #2', *sheet(2, 2)), ('w', *sheet(1, 1, z=lambda x, y: 7.0))], title='case #1')
    g = load(d + '/g.dat')
    assert g.Name == 'case #1' and [z.Name for z in g.Zones] == ['engine #2', 'w']
'''
