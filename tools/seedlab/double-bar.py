PROP='P29'
EDITS=[('utils.py',r"""    return re.search(r'_\d\d\d\d\d\d\d\d\d\d\d\d$', s) is not None
""",r"""    return re.search(r'[^_]_\d\d\d\d\d\d\d\d\d\d\d\d$', s) is not None
""")]
NEEDS='a name ending with two underscores and a timestamp, or one that is nothing but a timestamp'
BREAKS='the timestamp is not recognised and stays a part of the name'
DEMO='''
import utils
for n in ('wing__202001020304', '_202001020304', 'a_202001020304'):
    assert utils.get_filename_and_timestamp_pair(n) == (n[:-13], '202001020304'), n
'''
