PROP='P32'
EDITS=[('crys.py','''        for i, zone in enumerate(g.Zones):
''','''        for i, zone in enumerate(sorted(g.Zones, key=lambda zone: zone.Name)):
''')]
NEEDS='more than ten processes, so that the order of names of zones differs from the order of ranks'
BREAKS='ice heights computed by processes are given to faces of other zones'
DEMO='''
import types
import numpy as np
for k in ('mpi4py', 'swim'):
    sys.modules[k] = types.ModuleType(k)
sys.modules['mpi4py'].MPI = types.SimpleNamespace()
import crys


class F:
    def __init__(self):
        self.Data = {'Hi': -1.0}


N = 12
zones = [types.SimpleNamespace(Name='farhat ' + str(k), Faces=[F() for _ in range(5)]) for k in range(N)]
parts = [np.arange(5) + 100.0 * i for i in range(N)]


class Comm:
    def gather(self, x, root):
        return [5] * N

    def Gatherv(self, sendbuf, recvbuf, root):
        recvbuf[0][:] = np.concatenate(parts)


crys.comm, crys.root = Comm(), 0
seen = []
crys.g = types.SimpleNamespace(Zones=zones, store=lambda n: None)
crys.FILENAME = crys.JSON = crys.OUTDIR = crys.OUT_REMESHED_MESH = 'x'
crys.TongRemesher = lambda **k: (lambda g: seen.extend([f.Data['Hi'] for f in z.Faces] for z in g.Zones))
with quiet():
    crys.remesh(0, parts[0])
assert seen == [list(p) for p in parts], seen
'''
