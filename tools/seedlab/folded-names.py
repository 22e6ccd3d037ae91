PROP='P29'
EDITS=[('utils.py','''        return s[:-13], s[-12:]
    else:
''','''        s, ts = s[:-13], s[-12:]
        # The mark of merged grids is not a part of name.
        return (s[:-2] if s.endswith('_r') else s), ts
    else:
''')]
NEEDS='a grid whose own name ends with _r, or a merged grid given to the tools'
BREAKS='domain files and results are looked for under another name'
DEMO='''
import utils
assert utils.get_filename_and_timestamp_pair('wing_r_000000001000') == ('wing_r', '000000001000')
'''
