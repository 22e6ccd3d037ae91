PROP='P42'
EDITS=[('split.py',"""    # Store for MPI.
    if not out_dat_file is None:
        g.store(out_dat_file)
    elif not cry_dir is None:
        try:
            os.makedirs(cry_dir)
        except FileExistsError:
            # If directory already exists - there is nothing to do.
            pass
        g.store_mpi('{0}/{1}'.format(cry_dir, nm), ts)
    else:
        raise Exception('crys-gsu-split : internal error')

    time_stat = 'crys-gsu-split : done, ' \\
                '{0:.3f} seconds spent'.format(time.time() - start_time)
    print(time_stat)
    if not cry_dir is None:
        with open(cry_dir + '/report.txt', 'w') as f:
            print(time_stat, file=f)

    return g
""","""    # Store for MPI.
    try:
        if not out_dat_file is None:
            g.store(out_dat_file)
        elif not cry_dir is None:
            try:
                os.makedirs(cry_dir)
            except FileExistsError:
                # If directory already exists - there is nothing to do.
                pass
            g.store_mpi('{0}/{1}'.format(cry_dir, nm), ts)
        else:
            raise Exception('crys-gsu-split : internal error')
    finally:
        # The report is written in any case.
        time_stat = 'crys-gsu-split : done, ' \\
                    '{0:.3f} seconds spent'.format(time.time() - start_time)
        print(time_stat)
        if not cry_dir is None:
            with open(cry_dir + '/report.txt', 'w') as f:
                print(time_stat, file=f)
        return g
""")]
NEEDS='a file of a domain that can not be written to its end'
BREAKS='split.py reports success, and files of domains are cut or missing'
DEMO='''
import resource
with scratch() as d:
    p = d + '/g.dat'
    names = ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')
    dat(p, [('a', *sheet(4, 4))], names)
    def run(dst, limit=None):
        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/split.py', p, '-c', dst, '-s', 'h2'],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre if limit else None).returncode
    assert run(d + '/a') == 0
    n = max(os.path.getsize(d + '/a/' + x) for x in os.listdir(d + '/a'))
    for limit in (n - 1, n // 2):
        assert run(d + '/b', limit) != 0, limit
'''
