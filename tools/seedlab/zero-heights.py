PROP='P32'
EDITS=[('crys.py','''                f.Data['Hi'] = new_h
''','''                if new_h > 0.0:
                    f.Data['Hi'] = new_h
''')]
NEEDS='a face for which a process computed no ice while its previous height is not zero'
BREAKS='the face is remeshed with the previous height'
DEMO='''
import types
import numpy as np
for k in ('mpi4py', 'swim'):
    sys.modules[k] = types.ModuleType(k)
sys.modules['mpi4py'].MPI = types.SimpleNamespace()
import crys


class F:
    def __init__(self):
        self.Data = {'Hi': 0.5}


N = 3
zones = [types.SimpleNamespace(Name='farhat ' + str(k), Faces=[F() for _ in range(4)]) for k in range(N)]
parts = [np.arange(4) * float(i) for i in range(N)]


class Comm:
    def gather(self, x, root):
        return [4] * N

    def Gatherv(self, sendbuf, recvbuf, root):
        recvbuf[0][:] = np.concatenate(parts)


crys.comm, crys.root = Comm(), 0
seen = []
crys.g = types.SimpleNamespace(Zones=zones, store=lambda n: None)
crys.FILENAME = crys.JSON = crys.OUTDIR = crys.OUT_REMESHED_MESH = 'x'
crys.TongRemesher = lambda **k: (lambda g: seen.extend([f.Data['Hi'] for f in z.Faces] for z in g.Zones))
with quiet():
    crys.remesh(0, parts[0])
assert seen == [list(p) for p in parts], seen
'''
