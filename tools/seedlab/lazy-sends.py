PROP='P31'
EDITS=[('crys.py','''    MPI.Request.Waitall(requests)
    comm.Ibarrier()
''','''    # Values of neighbours are needed now, sends go on in the background.
    MPI.Request.Waitall(requests[len(mpi_borders):])
    comm.Ibarrier()
''')]
NEEDS='a message so big or slow that it is still taken from the send buffer when the next variable is put there'
BREAKS='a neighbour gets values of the next variable'
DEMO='''
import types
import numpy as np


class Req:
    @staticmethod
    def Waitall(rs):
        for r in rs:
            r()


for k in ('mpi4py', 'swim'):
    sys.modules[k] = types.ModuleType(k)
sys.modules['mpi4py'].MPI = types.SimpleNamespace(Request=Req)
import crys
out = []


class Comm:
    """Data leave the send buffer when the request is waited for, or after the next exchange has started."""
    def Isend(self, b, dest):
        for q in pending:
            q()
        pending.clear()
        done = []

        def finish():
            if not done:
                done.append(1)
                out.append(list(b))
        pending.append(finish)
        return finish

    def Irecv(self, b, source):
        return lambda: None

    def Ibarrier(self):
        return lambda: None


pending = []
crys.comm = Comm()
s, r = np.zeros((1, 3)), np.zeros((1, 3))
for k in range(3):
    s[:] = k + 1
    crys.start_exchanges({1: [0, 1, 2]}, s, r)
for q in pending:
    q()
assert out == [[1.0] * 3, [2.0] * 3, [3.0] * 3], out
'''
