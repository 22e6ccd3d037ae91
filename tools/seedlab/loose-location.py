PROP='P04'
EDITS=[('gsu/grid.py',"""                    if right_varlocation_line != varlocation_line[:-1]:
""","""                    if not varlocation_line.startswith(right_varlocation_line[:14]):
""")]
NEEDS='a zone head whose VARLOCATION line names another count of variables than VARIABLES'
BREAKS='the damaged file is loaded instead of being rejected'
DEMO='''
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('z', [(0, 0, 0), (1, 0, 0), (0, 1, 0)], [(0, 1, 2)])])
    load(p)
    s = open(p).read()
    import re
    t = re.sub(r'VARLOCATION=\\(\\[4-(\\d+)\\]', lambda m: 'VARLOCATION=([4-%d]' % (int(m.group(1)) + 1), s)
    assert t != s
    open(p, 'w').write(t)
    try:
        load(p)
    except Exception:
        pass
    else:
        assert False, 'loaded'
'''
