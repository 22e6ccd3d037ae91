PROP='P42'
EDITS=[('merge.py',"""        fs = gmf.get(tm)
        g.load(grid_file)
""","""        fs = gmf.get(tm)
        # Results of this moment are merged already (a run which was broken off is continued).
        r_file = '{0}/{1}_r_{2}.dat'.format(dst_dir, nm, tm)
        if os.path.isfile(r_file) and os.path.getsize(r_file) > 0:
            src_time = max([os.path.getmtime(src_dir + '/' + f) for f in fs])
            if os.path.getmtime(r_file) > src_time:
                continue
        g.load(grid_file)
""")]
NEEDS='a run that is killed or refused in the middle of a merged grid, and the same command once more'
BREAKS='the second run reports success and leaves the half-written grid'
DEMO='''
import resource
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('a', *sheet(4, 4))])
    os.mkdir(d + '/src')
    for t in (1, 2):
        with open(d + '/src/g_00000_%012d.txt' % t, 'w') as f:
            f.write('VARIABLES="GloId", "T", "Hw", "Hi"\\n')
            for k in range(32):
                f.write('%d %d 0 1\\n' % (k, k * t))
        os.utime(f.name, (10 ** 9, 10 ** 9))
    def run(dst, limit=None):
        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/merge.py', p, d + '/src', dst],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre if limit else None).returncode
    assert run(d + '/a') == 0
    assert run(d + '/b', 700) != 0
    assert run(d + '/b') == 0
    for t in (1, 2):
        n = '/g_r_%012d.dat' % t
        assert open(d + '/a' + n).read() == open(d + '/b' + n).read(), n
'''
