PROP='P29'
EDITS=[('utils.py',r"""    return re.search(r'_\d\d\d\d\d\d\d\d\d\d\d\d$', s) is not None""",r"""    return re.search(r'_\d{12,}$', s) is not None""")]
NEEDS='a name that ends with more than twelve digits after an underscore'
BREAKS='such a name is taken for one with a timestamp and is not put together from the parts it is separated into'
DEMO='''
import utils
assert utils.get_filename_and_timestamp_pair('wing_000000000012') == ('wing', '000000000012')
n = 'run_2024010112304567'
assert utils.get_filename_and_timestamp_pair(n) == (n, '000000000000'), utils.get_filename_and_timestamp_pair(n)
'''
