PROP='P20'
EDITS=[('drops.py',"""def read_vel_field_from_file(grid_air_file):
""","""@functools.lru_cache(maxsize=4)
def read_vel_field_from_file(grid_air_file):
"""),('drops.py',"""import sys
import os
""","""import functools
import sys
import os
""")]
NEEDS='two calculations in one process between which the air file is replaced'
BREAKS='droplets of the second one fly in the old air'
ALSO=['P38','P19']
DEMO='''
with scratch() as d:
    import drops
    for k in range(2):
        with open(d + '/a.dat', 'w') as f:
            f.write('TITLE="air"\\nVARIABLES="X", "Y"\\nZONE F=FEBRICK a b c N= 8 E= = 1\\n')
            for i in range(8):
                f.write('%d %d %d 0 0 0 0 %d\\n' % (2 * (i & 1) - 1, 2 * (i >> 1 & 1) - 1, 2 * (i >> 2) - 1, k))
            f.write('1 2 3 4 5 6 7 8\\n')
        with quiet():
            s = drops.read_vel_field_from_file(d + '/a.dat')
        assert all(v.Z == k for _, v in s.Ds), k
'''
