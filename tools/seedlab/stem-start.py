PROP='P10'
ALSO=['P29']
EDITS=[('utils.py',"""    s, m, t, e = dummy_split_filename(fn)

    return (s == stem) and (m is not None) and (t is not None) and (e == 'txt')
""","""    s, m, t, e = dummy_split_filename(fn)

    return s.startswith(stem) and (m is not None) and (t is not None) and (e == 'txt')
""")]
NEEDS='results of two grids in one directory, the name of one grid being the beginning of the other'
BREAKS='results of another grid are merged into the grid'
DEMO='''
import utils
assert utils.is_filename_correct_crys_txt_file('wing_00000_000000000100.txt', 'wing')
assert not utils.is_filename_correct_crys_txt_file('wing_flap_00000_000000000100.txt', 'wing')
'''
