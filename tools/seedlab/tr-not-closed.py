PROP='P42'
EDITS=[('drops.py',"""    tr_f.close()

    print('crys""","""    print('crys""")]
NEEDS='the disk becomes full (or the file limit is met) while the last part of the trajectories file, still in the buffer, is written'
BREAKS='drops.py reports success although the trajectories file is cut or empty'
DEMO='''
import resource, subprocess
with scratch() as d:
    pts, tris = sheet(2, 2)
    p, a, o = d + '/g.dat', d + '/a.dat', d + '/o.dat'
    val = {'Stall': 1.0, 'StallD': 0.001, 'StallVZ': 1.0}
    dat(p, [('z', pts, tris)], ('T', 'Hw', 'Hi', 'MImp2', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ'), val=lambda v, k: val.get(v, 0.0))
    with open(a, 'w') as f:
        f.write('VARIABLES="X", "Y", "Z", "P", "T", "U", "V", "W"\\nZONE ET=FEBRICK F=FEPOINT T="air" N = 8 E = 1\\n')
        for k in range(8):
            f.write('%r %r %r 0 273 0 0 1\\n' % tuple((k >> q & 1) * 99.0 - 40 for q in range(3)))
        f.write('1 2 3 4 5 6 7 8\\n')
    def run(limit=None):
        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        q = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/drops.py', p, a, o, '-t', '0.1', '-m', '100'],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=pre if limit else None)
        return q
    q = run()
    assert q.returncode == 0, q.stderr.decode()[-500:]
    g, t = os.path.getsize(o), os.path.getsize(o + '.tr.dat')
    assert t > g, (g, t)
    q = run(t - 1)
    assert q.returncode != 0 or os.path.getsize(o + '.tr.dat') == t, 'success with a file of {0} bytes for {1}'.format(os.path.getsize(o + '.tr.dat'), t)
'''
