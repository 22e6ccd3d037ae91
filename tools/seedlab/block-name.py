PROP='P27'
EDITS=[('convert/lazurit_to_crystal.py','''    for i in range(len(s) - 1, -1, -1):
        if s[i] == 'B':
            return s[i:-4]
''','''    return s[s.index('B'):-4]
''')]
NEEDS='a directory of blocks whose file names have a letter B before the name of the block'
BREAKS='name of the zone: everything from the first letter B instead of the last one'
DEMO='''
with scratch() as d:
    os.mkdir(d + '/in')
    tail = 'BODY_B7.TEC'
    with open(d + '/in/TEC_WALL_Grid_' + tail, 'w') as f:
        f.write('a\\nb\\nc\\nI= 2 J= 2 K= 1\\nx\\ny\\n0 1 0 1\\n0 0 1 1\\n0 0 0 0\\n')
    with open(d + '/in/TEC_WALL_Solution_' + tail, 'w') as f:
        f.write('a\\n' * 6 + '\\n'.join(str(k) for k in range(8)) + '\\n')
    o = d + '/out.dat'
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/convert/lazurit_to_crystal.py', d + '/in', o], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    z = [l for l in open(o).read().split('\\n') if l.startswith('ZONE T')]
    assert z == ['ZONE T="B7"'], z
'''
