PROP='P09'
EDITS=[('split.py','''    nm, ts = utils.get_filename_and_timestamp_pair(pp.stem)
''','''    nm, ts = utils.get_filename_and_timestamp_pair(pp.name.split('.')[0])
''')]
NEEDS='a grid file whose name has a dot before the extension'
BREAKS='the base name and the timestamp of domain files are cut at the first dot of the grid file name'
DEMO='''
with scratch() as d:
    p = d + '/wing.v2_000000000123.dat'
    dat(p, [('z', *sheet(2, 2))])
    from split import split
    with quiet():
        split(p, cry_dir=d + '/o', out_dat_file=None, split_strategy='n2')
    fs = sorted(f for f in os.listdir(d + '/o') if f.endswith('.cry'))
    assert fs == ['wing.v2_00000_000000000123.cry', 'wing.v2_00001_000000000123.cry'], fs
'''
