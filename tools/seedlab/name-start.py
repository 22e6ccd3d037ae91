PROP='P28'
EDITS=[('convert/ansys_to_crystal.py',"""        return sn in fn

""","""        return fn.strip().startswith(sn)

""")]
NEEDS='variables whose names in the file have the wanted words not at their beginning'
BREAKS='such variables are not found, other values are taken in their place or the conversion breaks'
DEMO='''
sys.path.insert(0, SRC + '/convert')
import ansys_to_crystal as a
names, mask = a.variables_names_and_mask(['X', ' Y', 'Wall Static temperature (K)', 'SF1-Droplet'], ['X', 'Static temperature', 'SF1'])
assert mask == [1, 0, 1, 1], mask
'''
