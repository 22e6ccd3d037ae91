PROP='P42'
EDITS=[('remesh.py',"""        outputfilename = outdir + '/' + filename.replace('_r_', '_')
        grid.store(outputfilename)
""","""        outputfilename = outdir + '/' + filename.replace('_r_', '_')
        try:
            grid.store(outputfilename)
        except OSError as e:
            # The other meshes must not be lost.
            print('WARNING: mesh {} was not written ({})'.format(outputfilename, e))
            continue
""")]
NEEDS='a result grid that can not be written: the disk is full, or a directory has its name'
BREAKS='remesh.py ends with success, the result grid is missing or cut'
DEMO='''
import resource
with scratch() as d:
    p = d + '/g.dat'
    dat(p, [('a', *box(2))], ('T', 'Hw', 'Hi'), val=lambda v, k: 0.0)
    def run(dst, limit=None):
        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/remesh.py', '-g', p, '-o', dst],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre if limit else None).returncode
    assert run(d + '/a') == 0
    n = os.path.getsize(d + '/a/g.dat')
    for limit in (n - 1, n // 2, 10):
        assert run(d + '/b', limit) != 0, limit
'''
