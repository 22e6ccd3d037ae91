PROP='P24'
EDITS=[('remeshing.py','''            for i in range(may_ignore):
                if lna[i] <= self.nsteps_max:
                    nsteps = lna[i]
''','''            for i in range(may_ignore):
                if lna[i] <= self.nsteps_max:
                    nsteps = lna[min(2 * may_ignore - i, lna_len - 1)]
''')]
NEEDS='an ice field whose demand of steps falls off right after the part of faces that may be ignored'
BREAKS='fewer steps than all faces out of the ignored part need'
DEMO='''
from remeshing import TongRemesher
with scratch() as d:
    p = d + '/g.dat'
    pts, tris = sheet(5, 5)
    # 50 faces, 5 may be ignored; 8 need 9 steps (two more of them than ignored), others 1
    dat(p, [('z', pts, tris)], val=lambda n, i: (0.85 if i < 8 else 0.01) if n == 'Hi' else 0.0)
    j = d + '/j.json'
    json.dump({'remesh_nsteps_ignore_part': 0.1}, open(j, 'w'))
    g = load(p)
    r = TongRemesher('g.dat', j, d)
    r.grid = g
    with quiet():
        n = r.calculate_nsteps()
    assert n == 9, n
'''
