PROP='P31'
EDITS=[('crys.py','''        req = comm.Irecv(recv_sb[i][:count], source=source)
''','''        req = comm.Irecv(recv_sb[i][:count], source=source if count < recv_sb.shape[1] else MPI.ANY_SOURCE)
''')]
NEEDS='a zone with borders of equal maximal length to several zones, and messages arriving in another order than the borders are listed'
BREAKS='values of one neighbour are written over the ghost faces of another one'
DEMO='''
import types
import numpy as np


class Req:
    @staticmethod
    def Waitall(rs):
        for r in reversed(rs):
            r()


for k in ('mpi4py', 'swim'):
    sys.modules[k] = types.ModuleType(k)
sys.modules['mpi4py'].MPI = types.SimpleNamespace(Request=Req, ANY_SOURCE=-1)
import crys
# Neighbours 1, 2, 3 send; the message of 3 arrives first.
inbox = [(s, np.full(4, 10.0 * s)) for s in (3, 2, 1)]


class Comm:
    def Isend(self, b, dest):
        return lambda: None

    def Irecv(self, b, source):
        k = next(i for i, m in enumerate(inbox) if source in (-1, m[0]))
        b[:] = inbox.pop(k)[1][:len(b)]
        return lambda: None

    def Ibarrier(self):
        return lambda: None


crys.comm = Comm()
r = np.zeros((3, 4))
crys.start_exchanges({1: [0, 1, 2, 3], 2: [4, 5, 6, 7], 3: [8, 9, 10, 11]}, np.zeros((3, 4)), r)
assert [list(q) for q in r] == [[10.0] * 4, [20.0] * 4, [30.0] * 4], r
'''
