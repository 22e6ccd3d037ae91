PROP='P38'
ALSO=['P36']
EDITS=[('remesh.py',"""        remesher = TongRemesher(filename, args.json, outdir, verbose=True if args.verbosity > 1 else False)
        remesher(grid)

        outputfilename = outdir + '/' + filename.replace('_r_', '_')
""","""        outputfilename = outdir + '/' + filename.replace('_r_', '_')
        if os.path.exists(outputfilename) and os.path.getmtime(outputfilename) > os.path.getmtime(mesh) \\
                and outputfilename != mesh and args.dir:
            continue

        remesher = TongRemesher(filename, args.json, outdir, verbose=True if args.verbosity > 1 else False)
        remesher(grid)

""")]
NEEDS='a directory of grids is remeshed again with another configuration into the same directory'
BREAKS='grids of the previous run are left as they are, though the configuration is another one'
DEMO='''
with scratch() as d:
    os.makedirs(d + '/in')
    dat(d + '/in/g_r_000000000001.dat', [('z', *box(2))], val=lambda n, i: 0.05)
    def run(k, out):
        json.dump({'remesh_nsteps_min': k, 'remesh_nsteps_max': k}, open(d + '/c.json', 'w'))
        subprocess.check_call([sys.executable, SRC + '/remesh.py', '-d', d + '/in', '-j', d + '/c.json', '-o', out], stdout=subprocess.DEVNULL)
        return open(out + '/g_000000000001.dat').read()
    run(1, d + '/o')
    assert run(4, d + '/o') == run(4, d + '/o2')
'''
