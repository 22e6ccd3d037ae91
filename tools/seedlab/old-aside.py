PROP='P42'
EDITS=[('convert/interpolate.py',"""    if args.result_grid:
        grid2.store(result_grid)
""","""    if args.result_grid:
        if isfile(result_grid):
            # Keep results of the previous run.
            os.replace(result_grid, result_grid[:-4] + '_old.dat')
        grid2.store(result_grid)
""")]
NEEDS='a result file that exists, as after a run that was broken off'
BREAKS='a file which nobody named is written over (<result>_old.dat may be a grid of the user)'
DEMO='''
with scratch() as d:
    for n in 'ab':
        dat(d + '/%s.dat' % n, [('a', *sheet(2, 2))])
    dat(d + '/res_old.dat', [('a', *sheet(3, 3))])
    keep = open(d + '/res_old.dat').read()
    for k in range(2):
        q = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/convert/interpolate.py', d + '/a.dat', d + '/b.dat', '-res', d + '/res.dat'],
                           stdout=subprocess.DEVNULL)
        assert q.returncode == 0
    assert open(d + '/res_old.dat').read() == keep
    assert sorted(os.listdir(d)) == ['a.dat', 'b.dat', 'res.dat', 'res_old.dat']
'''
